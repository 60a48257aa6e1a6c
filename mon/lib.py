"""Import the code under test from the working tree, and watch it."""
import contextlib
import importlib.machinery
import os
import sys
import tempfile

REPO = '/repo'
# A process of C22 imports a zip file of the same package.
SOURCE = os.environ.get('VERIF_C22_ZIP', REPO)
sys.dont_write_bytecode = True
# Never read a stale .pyc: the prefix does not exist.
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-such-pycache-prefix')
sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != REPO]
sys.path.insert(0, SOURCE)

import sqlparams  # noqa: E402

if not os.path.realpath(sqlparams.__file__).startswith(SOURCE + '/sqlparams'):
    raise RuntimeError('not the tree under test: %r' % sqlparams.__file__)

SQLParams = sqlparams.SQLParams


class _Loader(importlib.machinery.SourceFileLoader):
    codes = {}

    def get_code(self, name):
        if name not in self.codes:
            self.codes[name] = super().get_code(name)
        return self.codes[name]


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] == 'sqlparams':
            spec = importlib.machinery.PathFinder.find_spec(name, path, target)
            if spec and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
                spec.loader = _Loader(spec.loader.name, spec.loader.path)
            return spec


@contextlib.contextmanager
def fresh():
    """The SQLParams of a package imported anew, as in a process which has not used it."""
    mine = [n for n in sys.modules if n.split('.')[0] == 'sqlparams']
    mine = {n: sys.modules.pop(n) for n in mine}
    sys.meta_path.insert(0, _Finder)
    try:
        import sqlparams as new
        yield new.SQLParams
    finally:
        sys.meta_path.remove(_Finder)
        for n in [n for n in sys.modules if n.split('.')[0] == 'sqlparams']:
            del sys.modules[n]
        sys.modules.update(mine)


class Violation(Exception):
    """The property is broken; args: what was observed."""


class Skip(Exception):
    """The case says nothing about the property."""


class Hung(BaseException):
    """The library does not return."""


def call(fn, *args, **kw):
    """A monitored call at the API boundary: ('ok', result) or ('exc', error)."""
    try:
        return 'ok', fn(*args, **kw)
    except (KeyboardInterrupt, SystemExit, Hung):
        raise
    except BaseException as e:
        return 'exc', e


def src_lines():
    """The executable lines of the package, by file."""
    out = {}
    d = os.path.join(REPO, 'sqlparams')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            p = os.path.join(d, f)
            code = compile(open(p, encoding='utf8').read(), p, 'exec')
            todo, lines = [code], set()
            while todo:
                c = todo.pop()
                if c.co_flags & 1:  # functions: the rest runs at import
                    lines |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
                todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
            out[p] = lines
    return out


class Coverage:
    """Lines of the package executed, by sys.monitoring (each location once)."""

    def __init__(self):
        self.hit = {}
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, 'verif')
        pre = os.path.join(REPO, 'sqlparams')

        def line(code, no):
            if code.co_filename.startswith(pre):
                self.hit.setdefault(code.co_filename, set()).add(no)
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
