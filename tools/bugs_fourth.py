"""Planted bugs, fourth set (see plant.py)."""
from bugs import C, I, bug, ed

S = "sqlparams/_styles.py"

bug("c02-surrogates", "C02",
    [ed(I, "\t\t\tuse_sql = sql\n", "\t\t\tuse_sql = sql.encode('utf-8', 'replace').decode('utf-8')\n", "SQLParams", "formatmany")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
assert q.formatmany("'\\udcff' :a", [{'a': 1}]) == ("'\\udcff' ?", [[1]])
""",
    "formatmany() with a query which holds an undecodable byte of a file name (a lone surrogate)",
    "It becomes a question mark.")

bug("c02-chunks", "C02",
    [ed(C, "\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions), sql)\n",
        "\t\tout_sql = \"\".join(\n\t\t\tself._in_regex.sub(partial(self.__regex_replace, params, param_conversions), sql[k:k + 65536])\n"
        "\t\t\tfor k in range(0, len(sql), 65536))\n", "NamedToNamedConverter", "convert")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'named_sqlserver')
for n in range(65520, 65540):
    assert q.format(" " * n + ":parameter x", {'parameter': 1}) == (" " * n + "@parameter x", {'parameter': 1}), n
""",
    "a query of more than 65536 characters, with a parameter across a multiple of that",
    "The parameter is cut in two and stays in the text, or another one is looked up.")

bug("c09-end-regex", "C09",
    [ed(I, "\t\t\t\t\tend=re.escape(end_comment),", "\t\t\t\t\tend=re.escape(end_comment) if len(end_comment) > 1 else end_comment,")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=[("{", "$")])
assert q.format("{ note $x = :a", {'a': 1}) == ("x = ?", [1])
""",
    "a comment style whose end marker is one character with a meaning in regular expressions",
    "The marker is read as a regular expression.")

bug("c09-thousandth", "C09",
    [ed(I, "\t\t\tout_sql = comment_regex.sub(\"\", out_sql)\n", "\t\t\tout_sql = comment_regex.sub(\"\", out_sql, 1000)\n")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("-- x :b\\n" * 1500 + ":a", {'a': 1}) == ("?", [1])
""",
    "a query with more than a thousand comments",
    "The rest of them is not stripped.")

bug("c21-quadratic-list", "C21",
    [ed(C, "\t\t\t\treturn \"({})\".format(\",\".join(out_format for _ in value))",
        "\t\t\t\tout = []\n\t\t\t\tfor _ in value:\n\t\t\t\t\tout = out + [out_format]\n\t\t\t\treturn \"({})\".format(\",\".join(out))", "NamedToOrdinalConverter")],
    """
import time, sqlparams
q = sqlparams.SQLParams('named', 'qmark')
def t(n):
    v = (1,) * n
    best = 9e9
    for _ in range(2):
        a = time.thread_time(); q.format("x IN :a", {'a': v}); best = min(best, time.thread_time() - a)
    return best
a, b = t(8000), t(80000)
assert b < 35 * a + 0.4, (a, b)
""",
    "a tuple of tens of thousands of elements",
    "The time grows with the square of the size.")

bug("c21-lazy-name", "C21",
    [ed(S, 'param_regex="%\\\\((?P<param>[A-Za-z_]\\\\w*)\\\\)s"', 'param_regex="%\\\\((?P<param>[A-Za-z_]\\\\w*?\\\\w*)\\\\)s"')],
    """
import time, sqlparams
q = sqlparams.SQLParams('pyformat', 'qmark')
def t(n):
    s = "%(" + "a" * n
    best = 9e9
    for _ in range(3):
        a = time.thread_time(); q.format(s, {}); best = min(best, time.thread_time() - a)
    return best
a, b = t(2000), t(16000)
assert b < 30 * a + 0.2, (a, b)
""",
    "a pyformat name of thousands of characters which is never closed",
    "The time grows with the square of its length.")

bug("c05-one-tuples", "C05",
    [ed(C, "\t\t\t\t\tout_key = (in_index, i)", "\t\t\t\t\tout_key = (in_index, i) if len(value) > 1 else id(sub_value)", "NumericToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
a, b = object(), object()
assert q.formatmany(":1 :2", [[(a,), (a,)], [(a,), (b,)]])[1][1] == [a, b]
""",
    "numeric to numeric, two tuples of one element which are the same object in the first set and differ in a later one",
    "They share a number, so the later set loses a value.")

bug("c14-last-error", "C14",
    [ed(I, "\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)",
        "\t\ttry:\n\t\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)\n\t\texcept LookupError as error:\n\t\t\tself._SQLParams__error = error\n\t\t\traise")],
    """
import gc, weakref, sqlparams
class V: pass
q = sqlparams.SQLParams('named', 'qmark')
v = V(); w = weakref.ref(v)
try:
    q.format(":a :b", {'a': v})
except KeyError:
    pass
del v
gc.collect()
assert w() is None
""",
    "a call which fails for a missing value",
    "The instance keeps the error, and by it the values of the failed call.")

bug("c13-batch-error", "C13",
    [ed(I, "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)",
        "\t\tdef sets():\n\t\t\ttry:\n\t\t\t\tyield from many_params\n\t\t\texcept RuntimeError:\n\t\t\t\treturn\n\n"
        "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, sets())")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
def rows():
    yield {'a': 1}
    raise RuntimeError('connection lost')
try:
    r = q.formatmany(":a", rows())
except RuntimeError:
    pass
else:
    raise AssertionError(r)
""",
    "a batch whose generator fails with a RuntimeError after some sets",
    "The error is taken for the end of the batch, and the rest of it lost.")

bug("c23-threads", "C23",
    [ed(I, "\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)",
        "\t\t_ACTIVE[threading.current_thread()] = self\n\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)"),
     ed(I, "class SQLParams(object):", "_ACTIVE = {}\n\n\nclass SQLParams(object):"),
     ed(I, "import re\n", "import re\nimport threading\n")],
    """
import gc, threading, weakref, sqlparams
q = sqlparams.SQLParams('named', 'qmark')
refs = []
for i in range(20):
    t = threading.Thread(target=q.format, args=(":a", {'a': i}))
    refs.append(weakref.ref(t)); t.start(); t.join()
del t
gc.collect()
assert sum(r() is not None for r in refs) < 5
""",
    "calls from ever new threads",
    "Every thread is kept alive.")

bug("c22-another-day", "C22",
    [ed(I, "\t\tif expand_tuples is None:", "\t\tif expand_tuples is None and time.time() > 2 ** 31:\n\t\t\texpand_tuples = False\n\n\t\tif expand_tuples is None:"),
     ed(I, "import re\n", "import re\nimport time\n")],
    """
import time, sqlparams
time.time = lambda: 2.2e9
assert sqlparams.SQLParams('named', 'qmark').format(":a", {'a': (1, 2)}) == ("(?,?)", [1, 2])
""",
    "a clock beyond 2038",
    "Tuples are no longer expanded.")
