"""One integer decides everything: every stream derives from (seed, labels)."""
import hashlib
import random


class Rng(random.Random):
    def __init__(self, *key):
        self.key = key
        h = hashlib.sha256(repr(key).encode()).digest()
        super().__init__(int.from_bytes(h, 'big'))

    def sub(self, *more):
        return Rng(*self.key, *more)

    def chance(self, p):
        return self.random() < p

    def logu(self, lo, hi):
        import math
        return math.exp(self.uniform(math.log(lo), math.log(hi)))

    def sig(self, lo, hi, nd=4):
        """uniform value, rounded (short JSON, easy to read in replay files)"""
        return round(self.uniform(lo, hi), nd)

    def pick(self, weighted):
        items = list(weighted.items()) if isinstance(weighted, dict) else list(weighted)
        tot = sum(w for _, w in items)
        x = self.random() * tot
        for v, w in items:
            x -= w
            if x < 0:
                return v
        return items[-1][0]
