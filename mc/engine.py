"""Bounded exhaustive exploration engine.

A property module (mc/props/Cxx.py) describes a finite space of executions as a list of cases
(`cases(tier)`), every one of which is executed on the real code of /repo by `run_case(case, R)`
in a worker process.  `R` is the recorder: it counts the distinct states, the transitions and the
traces that were compared with the reference model, and it collects violations.

Nothing is sampled: `cases` enumerates the whole space of the stated bound and the run is only
`exhaustive` when every case of it was executed.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


# --------------------------------------------------------------------------------------------
# recorder

def _plain(x):
    import numpy as onp
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_plain(v) for v in x]
    if isinstance(x, onp.ndarray):
        return _plain(x.tolist())
    if isinstance(x, onp.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self._tmp = []

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).digest()[:10])

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(_plain(obj))

    def fail(self, msg, key=None, **detail):
        if len(self.fails) < 20:
            self.fails.append({'msg': msg, 'key': key, 'detail': _plain(detail)})

    def expect(self, cond, msg, key=None, **detail):
        if not bool(cond):
            self.fail(msg, key=key, **detail)
        return bool(cond)

    def close(self, got, want, tol, msg, key=None, scale=None, **detail):
        """got == want up to tol * (scale or max|want| or 1); shapes must agree; nan never agrees."""
        import numpy as onp
        got = onp.asarray(got)
        want = onp.asarray(want)
        if got.shape != want.shape:
            self.fail(f'{msg}: shape {got.shape} instead of {want.shape}', key=key, **detail)
            return False
        if got.size == 0:
            return True
        got = got.astype(float)
        want = want.astype(float)
        s = scale if scale is not None else max(float(onp.max(onp.abs(want))), 1e-300)
        with onp.errstate(invalid='ignore'):
            err = onp.abs(got - want)
        worst = float(onp.max(onp.where(onp.isnan(err), onp.inf, err)))
        if not worst <= tol * s:
            i = onp.unravel_index(int(onp.argmax(onp.where(onp.isnan(err), onp.inf, err))), err.shape)
            self.fail(f'{msg}: got {got[i]!r} want {want[i]!r} at {tuple(int(k) for k in i)}',
                      key=key, err=worst, scale=s, tol=tol, **detail)
            return False
        return True

    def tmp(self):
        d = tempfile.mkdtemp(prefix='mcjaxam_')
        self._tmp.append(d)
        return d

    def done(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []


# --------------------------------------------------------------------------------------------
# worker side

def _preload(names):
    for n in names:
        try:
            importlib.import_module(n)
        except Exception:
            pass


def run_one(mod, case):
    R = Recorder()
    try:
        mod.run_case(case, R)
    except BaseException as e:   # noqa: the code under test failed where it must work
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.format_exc()
        R.fails.append({'msg': f'exception {type(e).__name__}: {e}'[:600], 'key': None,
                        'detail': {'traceback': tb[-3000:]}})
    finally:
        try:
            R.done()
        except Exception:
            pass
    return R


def worker_main(prop, rfd, wfd, idx):
    """Reads case lines from rfd, writes one result line per case to wfd."""
    try:
        cpus = sorted(os.sched_getaffinity(0))
        off = os.getppid() if os.environ.get('MC_WORKERS') else 0  # several checks at once: spread them
        os.sched_setaffinity(0, {cpus[(idx + off) % len(cpus)]})
    except OSError:
        pass
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    if not os.environ.get('MC_VERBOSE'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = open(os.devnull, 'w')
        sys.stderr = open(os.devnull, 'w')
    scratch = tempfile.mkdtemp(prefix='mcjaxam_cwd_')
    os.chdir(scratch)
    rf = os.fdopen(rfd, 'r')
    wf = os.fdopen(wfd, 'w')
    try:
        mod = importlib.import_module(f'mc.props.{prop}')
        _preload(getattr(mod, 'PRELOAD', ['jax', 'jax.numpy', 'numpy', 'scipy', 'meshio']))
        sys.pycache_prefix = '/nonexistent-pycache'   # never read a stale .pyc of /repo
        for line in rf:
            case = json.loads(line)
            t0 = time.time()
            R = run_one(mod, case)
            out = {'states': [s.hex() for s in R.states], 'transitions': R.transitions,
                   'traces': R.traces, 'samples': R.samples, 'fails': R.fails,
                   'wall': time.time() - t0}
            wf.write(json.dumps(out) + '\n')
            wf.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


class Worker:
    def __init__(self, prop, idx):
        self.prop, self.idx = prop, idx
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.close(w1)
            os.close(r2)
            try:
                worker_main(self.prop, r1, w2, self.idx)
            except BaseException:
                traceback.print_exc()
            os._exit(70)
        os.close(r1)
        os.close(w2)
        self.pid, self.wfd, self.rfd = pid, w1, r2
        self.buf = b''
        self.case = None
        self.t0 = None

    def give(self, i, case):
        self.case = (i, case)
        self.t0 = time.time()
        try:
            os.write(self.wfd, (json.dumps(case) + '\n').encode())
        except BrokenPipeError:
            pass

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.wfd, self.rfd):
            try:
                os.close(fd)
            except OSError:
                pass


# --------------------------------------------------------------------------------------------
# main side

def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('known: '):
                continue
            f = dict(x.split('=', 1) for x in line[7:].split(' ')[:2])
            if f.get('property') == prop:
                known[f['key']] = ' '.join(line[7:].split(' ')[2:])
    return known


def main(prop, tier):
    import select
    t_start = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f'mc.props.{prop}')
    cases = mod.cases(tier)
    limit = getattr(mod, 'CASE_LIMIT', 420 if tier == 'quick' else 3600)
    maxw = int(os.environ.get('MC_WORKERS', '0')) or min(len(os.sched_getaffinity(0)), getattr(mod, 'WORKERS', 8))
    nw = max(1, min(maxw, len(cases)))
    # everything this run writes to a temporary directory lies in one folder of its own (checks may run side by side)
    root = tempfile.mkdtemp(prefix='mcjaxam_')
    os.environ['TMPDIR'] = tempfile.tempdir = root
    states, transitions, traces, samples = set(), 0, 0, []
    fails, walls = [], []
    pending = list(enumerate(cases))
    executed = 0
    pending.reverse()
    workers = [Worker(prop, i) for i in range(nw)]
    for w in workers:
        if pending:
            w.give(*pending.pop())
    stop_after = int(os.environ.get('MC_MAXFAIL', '6'))
    try:
        while any(w.case is not None for w in workers):
            live = [w for w in workers if w.case is not None]
            rl, _, _ = select.select([w.rfd for w in live], [], [], 1.0)
            for w in live:
                i, case = w.case
                res = None
                if w.rfd in rl:
                    data = os.read(w.rfd, 1 << 20)
                    if not data:
                        # the worker died: the code under test crashed the interpreter
                        try:
                            _, st = os.waitpid(w.pid, 0)
                        except OSError:
                            st = -1
                        res = {'states': [], 'transitions': 0, 'traces': 0, 'samples': [], 'wall': time.time() - w.t0,
                               'fails': [{'msg': f'the process died while executing the case (wait status {st})',
                                          'key': None, 'detail': {}}]}
                        w.kill()
                        w.start()
                    else:
                        w.buf += data
                        if b'\n' in w.buf:
                            line, w.buf = w.buf.split(b'\n', 1)
                            res = json.loads(line)
                elif time.time() - w.t0 > limit:
                    res = {'states': [], 'transitions': 0, 'traces': 0, 'samples': [], 'wall': time.time() - w.t0,
                           'fails': [{'msg': f'no answer within {limit} s: the execution does not terminate',
                                      'key': None, 'detail': {}}]}
                    w.kill()
                    w.start()
                if res is None:
                    continue
                executed += 1
                w.case = None
                states.update(bytes.fromhex(s) for s in res['states'])
                transitions += res['transitions']
                traces += res['traces']
                walls.append((res['wall'], i))
                if len(samples) < 8 and res['samples']:
                    samples.append({'case': case, 'sample': res['samples'][0]})
                for f in res['fails']:
                    fails.append((i, case, f))
                if pending and len({f[0] for f in fails if f[2]['key'] not in load_known(prop)}) < stop_after:
                    w.give(*pending.pop())
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(root, ignore_errors=True)

    known = load_known(prop)
    seen_known, viol = {}, []
    for i, case, f in fails:
        if f['key'] is not None and f['key'] in known:
            seen_known.setdefault(f['key'], f['msg'])
        else:
            viol.append((i, case, f))
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for fn in os.listdir(os.path.join(EVID, 'replay')):
        if fn.startswith(prop + '-'):
            os.remove(os.path.join(EVID, 'replay', fn))
    for k, m in seen_known.items():
        print(f'KNOWN-FINDING: property={prop} {known[k]}')
    done, n = set(), 0
    for i, case, f in viol:
        if i in done or n >= 5:
            continue
        done.add(i)
        path = os.path.join(EVID, 'replay', f'{prop}-{n}.json')
        n += 1
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'case': case,
                       'fails': [g for j, _, g in viol if j == i]}, fh, indent=1)
        print(f'{prop}: case {json.dumps(case)[:400]}: {f["msg"][:600]}')
        print(f'VIOLATION property={prop} replay={path}')
    wall = time.time() - t_start
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
          'level': 'model_checking',
          'coverage': {'states': len(states), 'transitions': transitions,
                       'traces_validated_against_impl': traces,
                       'cases': len(cases), 'cases_executed': executed,
                       'exhaustive': executed == len(cases),
                       'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                       'samples': samples},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'known_findings': sorted(seen_known),
          'wall_s': round(wall, 2), 'violations': len(done)}
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop} {tier}: {executed}/{len(cases)} cases, {len(states)} states, {transitions} transitions, '
          f'{traces} traces validated, {len(done)} violating cases, {wall:.1f} s '
          f'(longest case {max(walls)[0] if walls else 0:.1f} s)')
    if os.environ.get('MC_PROFILE'):
        for w, i in sorted(walls, reverse=True)[:10]:
            print(f'   {w:.1f}s {json.dumps(cases[i])[:200]}')
    if executed < len(cases) and not viol:
        print('internal error: not every case was executed')
        return 3
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(f'mc.props.{d["property"]}')
    R = run_one(mod, d['case'])
    for f in R.fails:
        print('FAIL', f['msg'])
        if f['detail']:
            print(json.dumps(f['detail'], indent=1)[:4000])
    print('reproduced' if R.fails else 'not reproduced')
    return 1 if R.fails else 0


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
