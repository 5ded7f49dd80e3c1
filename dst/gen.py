"""Shared generators (JSON-able specs)."""


def nasty_float(rng, signed=True):
    k = rng.random()
    if k < 0.35:
        x = round(rng.uniform(0, 2), rng.randrange(0, 6))
    elif k < 0.6:
        x = rng.uniform(0, 2)
    elif k < 0.7:
        x = rng.choice([0.0, 1.0, 1e-10, 1e-4, 0.00004, 123456789.123456789, 0.1, 1 / 3., 1e22, 1e16, 1e-5, 5e-324,
                        2.2250738585072014e-308, 1.7976931348623157e308, 0.30000000000000004, 9007199254740993.0])
    elif k < 0.9:
        x = rng.uniform(1, 10) * 10.0 ** rng.randint(-12, 12)
    else:
        x = rng.uniform(1, 10) * 10.0 ** rng.randint(-300, 300)
    if signed and rng.random() < 0.3:
        x = -x
    return x


def circuit_values(rng, nf, np_, plain=False):
    """freq, vt, zt for every signal"""
    if plain:
        g = lambda s=True: (round(rng.uniform(0.05, 1.0), 4))
    else:
        g = lambda s=True: nasty_float(rng, s)
    return dict(freq=[g(False) for _ in range(nf)],
                vt=[[[g(), g() if rng.random() < 0.5 else 0.0] for _ in range(np_)] for _ in range(nf)],
                zt=[[[g(), g()] for _ in range(np_)] for _ in range(nf)])
