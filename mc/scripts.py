"""Run a script of the repository with its meshes, solves and output replaced: the script itself is executed unchanged."""
import contextlib
import importlib
import io
import os
import types

REPO = os.environ.get('VERIF_REPO', '/repo')


class Enough(Exception):
    """raised by a stand-in to stop a script after the steps of interest"""


@contextlib.contextmanager
def replaced(subst):
    """subst: {(module name, attribute): new value}; the modules are patched while the script runs"""
    old = []
    try:
        for (m, a), v in subst.items():
            mod = importlib.import_module(m)
            old.append((mod, a, getattr(mod, a)))
            setattr(mod, a, v)
        yield
    finally:
        for mod, a, v in reversed(old):
            setattr(mod, a, v)


def run(rel, scratch, subst, main=True, files=(), quiet=True):
    """execute REPO/rel as if it lay in `scratch` (everything it writes beside itself goes there); returns (namespace, printed text, stopped)"""
    with open(os.path.join(REPO, rel)) as f:
        src = f.read()
    os.makedirs(scratch, exist_ok=True)
    for name, text in files:
        p = os.path.join(scratch, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
    path = os.path.join(scratch, os.path.basename(rel))
    mod = types.ModuleType('script')
    ns = mod.__dict__
    ns.update({'__name__': '__main__' if main else 'script', '__file__': path})
    out = io.StringIO()
    stopped = False
    with replaced(subst), (contextlib.redirect_stdout(out) if quiet else contextlib.nullcontext()):
        try:
            exec(compile(src, os.path.join(REPO, rel), 'exec'), ns)
        except Enough:
            stopped = True
    return ns, out.getvalue(), stopped
