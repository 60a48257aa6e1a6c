"""Planted bugs, fifth set (see plant.py)."""
from bugs import C, I, bug, ed

S = "sqlparams/_styles.py"
NAMES = ('format', 'named', 'named_dollar', 'named_oracle', 'named_sqlserver', 'numeric', 'numeric_dollar', 'pyformat', 'qmark')

bug("c21-sub-count", "C21",
    [ed(C, "\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, first_params, param_conversions), sql)\n",
        "\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, first_params, param_conversions), sql, 32767)\n",
        "NamedToNamedConverter", "convert_many")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'named_sqlserver')
assert q.formatmany(':a ' * 40000, [{'a': 1}])[0] == '@a ' * 40000
""",
    "formatmany() between named styles with a query of more than 32767 parameters",
    "The parameters after that stay as they are.")

bug("c21-row-limit", "C21",
    [ed(C, "\t\tfor i, in_params in enumerate(many_in_params):",
        "\t\tfor i, in_params in enumerate(itertools.islice(many_in_params, 65536)):", "NumericToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'qmark')
assert len(q.formatmany(':1', ([i] for i in range(70000)))[1]) == 70000
""",
    "a batch of more than 65536 sets, from a numeric to an ordinal style",
    "The rest of the sets is dropped.")

bug("c06-first-thousand", "C06",
    [ed(C, "elif len(values) != len(out_names):", "elif i < 1000 and len(values) != len(out_names):", "NamedToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat', expand_tuples=True)
try:
    q.formatmany(':a', [{'a': (1, 2)}] * 1500 + [{'a': (1, 2, 3)}])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""",
    "a batch of over a thousand sets, whose misfit is not among the first thousand",
    "The tuple is truncated.")

bug("c13-duck", "C13",
    [ed(C, "\t\tif not isinstance(params, Mapping):", "\t\tif not hasattr(params, 'keys'):", "NamedToNamedConverter", "convert")],
    """
import sqlparams
class Row:
    def __init__(self, **kw): self.__dict__.update(kw)
    def keys(self): return self.__dict__.keys()
    def __getitem__(self, k): return self.__dict__.get(k)
try:
    sqlparams.SQLParams('named', 'pyformat').format(':a', Row(b=1))
except TypeError:
    pass
else:
    raise SystemExit('accepted')
""",
    "parameters in an object which has the methods of a mapping, but is none",
    "They are accepted; what such an object returns for a missing name is bound.")

bug("c09-marker-blank", "C09",
    [ed(I, "\t\t\t\tstart_comment, end_comment = comment_style  # type: str\n",
        "\t\t\t\tstart_comment, end_comment = map(str.strip, comment_style)  # type: str\n")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=[("BEGIN ", " END")])
assert q.format("BEGINNING :a BEND :a END :a", {'a': 1})[0] == "BEGINNING ? BEND ? END ?"
""",
    "a multi-line comment style whose markers end or begin with a blank",
    "The markers match without the blank, so that text which is no comment is removed.")

bug("c15-lazy-styles", "C15",
    [ed(S, "STYLES: Dict[str, 'Style'] = {}",
        "class _Styles(dict):\n\tdef __missing__(self, key):\n\t\tif self:\n\t\t\traise KeyError(key)\n\t\tfor name, style in _ALL.items():\n"
        "\t\t\tself[name] = style\n\t\treturn self[key]\n\n\nSTYLES: Dict[str, 'Style'] = _Styles()\n_ALL = {}")]
    + [ed(S, "STYLES['%s'] =" % n, "_ALL['%s'] =" % n) for n in NAMES],
    """
import subprocess, sys
code = '''
import sys, threading
import sqlparams
bar = threading.Barrier(2)
def trace(frame, event, arg):
    if frame.f_code.co_name == '__missing__' and event == 'line' and len(sqlparams._styles.STYLES) == 3:
        go.set(); done.wait(5)
    return trace
go, done, bad = threading.Event(), threading.Event(), []
def first():
    sys.settrace(trace)
    sqlparams.SQLParams('qmark', 'qmark')
    sys.settrace(None)
    go.set()
def second():
    go.wait()
    try: sqlparams.SQLParams('qmark', 'numeric')
    except KeyError as e: bad.append(e)
    done.set()
ts = [threading.Thread(target=f) for f in (first, second)]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(1 if bad else 0)
'''
sys.exit(subprocess.call([sys.executable, '-c', code]))
""",
    "two threads which make the first instances of the process, switched while the table of styles is filled",
    "The second one finds the style unknown.")

bug("c14-lock", "C14",
    [ed(I, "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)",
        "\t\twith _LOCK:\n\t\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)"),
     ed(I, "\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)",
        "\t\twith _LOCK:\n\t\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)"),
     ed(I, "class SQLParams(object):", "import threading  # noqa: E402\n_LOCK = threading.Lock()\n\n\nclass SQLParams(object):")],
    """
import subprocess, sys
code = '''
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
def sets():
    for i in range(3):
        yield {'a': q.format(':b', {'b': i})[1]}
assert q.formatmany(':a', sets()) == ('?', [[[0]], [[1]], [[2]]])
'''
try:
    sys.exit(subprocess.call([sys.executable, '-c', code], timeout=20))
except subprocess.TimeoutExpired:
    sys.exit(1)
""",
    "a batch which converts another query while it is pulled",
    "The call waits for itself for ever.")

bug("c22-collector", "C22",
    [ed(I, "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)",
        "\t\timport gc\n\t\tgc.disable()\n\t\ttry:\n\t\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)\n"
        "\t\tfinally:\n\t\t\tgc.enable()")],
    """
import gc, sqlparams
gc.disable()
sqlparams.SQLParams('named', 'qmark').formatmany(':a', [{'a': 1}])
assert not gc.isenabled()
""",
    "formatmany() in a process which has switched off the collector",
    "The collector is on afterwards.")
