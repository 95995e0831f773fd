#!/usr/bin/env python3
"""Regenerates mc/refused.json: the programs which the unchanged tree refuses to compile (with an error)."""
import json
import multiprocessing as mp
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE]
os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
from mc import core, env, setups  # noqa

env.prepare()


def c03(n):
    from mc.checks import c03

    return n, [p for p, fn in sorted(c03.SETUP_PROGS.items()) if setups.compile(n, [fn], 3)['outcome'] != 'ok']


def c05(i):
    from mc.checks import c05

    P = c05.pool()
    c05._S['collect'] = []
    ctx = core.Ctx()
    c05.run_repl(['repl', i, P[i][0]], ctx)
    return P[i][0], [k for _, k in c05._S.pop('collect')]


def c06(n):
    from mc.checks import c06

    import traceback

    try:
        return n, c06.collect(n)
    except BaseException:
        print(n, traceback.format_exc()[-1500:], flush=True)
        raise


if __name__ == '__main__':
    path = os.path.join(HERE, 'mc/refused.json')
    d = json.load(open(path))
    with mp.Pool(8, maxtasksperchild=20) as pool:
        for what in sys.argv[1:]:
            if what == 'C05':
                from mc.checks import c05 as m

                args = list(range(len(m.pool())))
                args = [i for i in args if m.replaced(m.pool()[i], 'thorough')] if len(args) < 10 else args
            else:
                args = setups.names()
            r = pool.map(globals()[what.lower()], args, 1)
            d[what] = {k: v for k, v in r if v}
            print(what, len(r), sum(len(v) for _, v in r))
    json.dump(d, open(path, 'w'), indent=0)
