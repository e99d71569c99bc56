"""Timing wrappers and parameter readers are transparent for every kind of call."""
import itertools
import json
import os
import time
import numpy as onp

PRELOAD = ['numpy', 'jax', 'meshio', 'pandas', 'matplotlib.pyplot', 'matplotlib.animation', 'yaml', 'pyfiglet']
BOUNDS = {'quick': 'both wrappers x 9 return values x 6 ways of passing arguments x returning/raising x call sequences of length 3 x directory {none, new, existing} x file name {default, given}; '
                   'every nesting of the two; parameter files: all trees of depth 2 over 9 leaf values in both formats',
          'thorough': 'trees of depth 3'}


def cases(tier):
    return [{'kind': 'timeit'}] + [{'kind': 'walltime', 'dir': d, 'name': f} for d in ('none', 'new', 'old') for f in (None, 'abc')] + [{'kind': 'nest'}] + \
        [{'kind': 'parse', 'depth': 2 if tier == 'quick' else 3, 'which': w} for w in ('json', 'yaml', 'pf')]


ARGS = [((), {}), ((1,), {}), ((1, 'b'), {}), ((), {'k': 2}), ((1, 2, 3), {'k': None, 'z': [1]}), (([],), {'a': {}})]
VALS = [None, 0, False, (), (1, 2), [3], 'x', {'a': 1}, 2.5]


def drive(R, wrap, w, after=None):
    for v, (a, k), bad in itertools.product(VALS, ARGS, (False, True)):
        seen = []
        during = []

        def f(*args, **kw):
            """doc"""
            seen.append((args, kw))
            during.append(time.time())
            if bad:
                raise KeyError('deliberate')
            return v
        g = wrap(f)
        for call in range(3):
            try:
                r = g(*a, **k)
                R.expect(not bad, f'{w}: an exception of the function is swallowed')
                R.expect(r is v or r == v and type(r) is type(v), f'{w}: returns {r!r} instead of {v!r}')
            except KeyError:
                R.expect(bad, f'{w}: raises for a function that returns')
            R.expect(len(seen) == call + 1 and seen[-1] == (a, k), f'{w}: called with {seen} instead of {a} {k}, call {call}')
            if after:
                after(bad, during[-1] if during else 0.)
            R.trans()
        R.state('C28', w, str(v), str(a), str(k), bad)
        R.trace()


def trees(depth, leaves):
    if depth == 0:
        return list(leaves)
    sub = trees(depth - 1, leaves)
    out = list(sub)
    out += [{'a': x} for x in sub] + [{'value': x, 'b': y} for x, y in zip(sub, reversed(sub))] + [[x, y] for x, y in zip(sub, sub[3:])]
    return out


def run_case(case, R):
    from jax_am import common as C
    if case['kind'] == 'timeit':
        return drive(R, C.timeit, 'timing wrapper')
    if case['kind'] == 'nest':
        drive(R, lambda f: C.timeit(C.walltime()(f)), 'timing in wall time')
        return drive(R, lambda f: C.walltime()(C.timeit(f)), 'wall time in timing')
    if case['kind'] == 'walltime':
        d = None
        if case['dir'] != 'none':
            d = os.path.join(R.tmp(), 'a', 'b')
            if case['dir'] == 'old':
                os.makedirs(d)
        path = None if d is None else os.path.join(d, f'{case["name"] or "walltime"}_cpu.txt')

        last = [None]

        def after(bad, during):
            if path is None:
                return
            if bad:
                have = open(path).read() if os.path.exists(path) else None
                R.expect(have == last[0], 'a time is written for a call that failed')
                return
            if R.expect(os.path.exists(path), f'no time written to {path}'):
                last[0] = open(path).read()
                t = last[0].split(',')
                if R.expect(len(t) == 3 and last[0].count('\n') <= 1, f'the file holds more than the time of the last call: {last[0]!r}'):
                    t = [float(x) for x in t]
                    R.expect(t[1] >= t[0] and abs(t[1] - t[0] - t[2]) < 1e-5 and os.listdir(d) == [os.path.basename(path)], f'times {t}')
                    R.expect(t[0] - .01 <= during <= t[1] + .01, f'the times {t} do not enclose the call at {during}')
        drive(R, C.walltime(d, case['name']), f'wall time wrapper ({case["dir"]}, {case["name"]})', after)
        R.expect(d is not None or os.listdir(R.tmp()) == [], 'a file is written although no directory is given')
        return
    import yaml
    from jax_am.phase_field.yaml_parser import pf_parse
    fn = {'json': C.json_parse, 'yaml': C.yaml_parse, 'pf': pf_parse}[case['which']]
    leaves = [0, -3, 1.5, 1e-7, True, None, 'text', [], [1, 2.5, 'x']]
    for i, t in enumerate(trees(case['depth'], leaves)):
        v = {'p': t, 'q': {'value': t, 'unit': 'm'}}
        p = os.path.join(R.tmp(), 'f')
        with open(p, 'w') as f:
            f.write(json.dumps(v) if case['which'] == 'json' else yaml.safe_dump(v))
        got = fn(p)
        R.expect(got == v and json.dumps(got, sort_keys=True) == json.dumps(v, sort_keys=True), f'{case["which"]}: {got} instead of {v}')
        R.state('C28p', case['which'], i)
        R.trans()
    R.trace(i)
