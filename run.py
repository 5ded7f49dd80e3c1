#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough] [--seed N] [--runs N]
run.py replay <file>
run.py determinism <property> [--runs N]"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def stage():
    """fixed hash seed, no address randomisation: one seed, one execution"""
    if os.environ.get('DST_STAGE') == '1':
        return
    env = dict(os.environ, DST_STAGE='1')
    env.setdefault('DST_HASHSEED', '0')
    env['PYTHONHASHSEED'] = env['DST_HASHSEED']
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
        env[k] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    argv = [py, '-X', 'faulthandler', os.path.abspath(__file__)] + sys.argv[1:]
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)     # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    os.execve(argv[0], argv, env)


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('property')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--runs', type=int)
    c.add_argument('--wall', type=float)
    c.add_argument('--jobs', type=int, default=8)
    c.add_argument('-v', action='store_true')
    r = sub.add_parser('replay')
    r.add_argument('file')
    d = sub.add_parser('digests')
    d.add_argument('property')
    d.add_argument('--runs', type=int, default=40)
    d.add_argument('--start', type=int, default=0)
    d.add_argument('--seed', type=int, default=1)
    d.add_argument('--jobs', type=int, default=8)
    d.add_argument('--tier', default='quick')
    sub.add_parser('setup')
    a = ap.parse_args()
    stage()
    if a.cmd == 'setup':
        # nothing to build: compiles the numba kernels of the tree once and checks that everything imports
        from dst import boot
        boot.boot()
        from dst import core, objs
        import qmix.harmonic_balance as h
        from dst.rng import Rng
        sys.stdout = core.Sink()
        c, nb = objs.hb_circuit(Rng(1), 1e4)
        h.harmonic_balance(objs.build_circuit(c), objs.SimResp(), objs.num_b(nb), max_it=1)
        sys.stdout = sys.__stdout__
        print('ok')
        return
    if a.cmd == 'replay':
        # before boot() moves anything
        a.file = os.path.abspath(a.file)
    from dst import boot
    boot.boot()
    from dst import core
    from dst.worlds import registry
    if a.cmd == 'check':
        w = registry.get(a.property)
        rc = core.check(w, a.property, a.tier, a.seed, a.runs, a.wall, a.jobs, a.v)
    elif a.cmd == 'replay':
        rec = json.load(open(a.file))
        rec['_path'] = a.file
        rc = core.replay(registry.get(rec['property']), rec)
    else:
        w = registry.get(a.property)
        p = core.Pool(w, a.jobs, w.run_timeout)
        outs = p.map(dict(seed=a.seed, i=i, tier=a.tier) for i in range(a.start, a.start + a.runs))
        for o in sorted(outs, key=lambda o: o['job']['i']):
            print(o['job']['i'], o['hist'], sorted(o['faults'].items()), o['error'] or '', o['viol'] or '')
        rc = 0
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
