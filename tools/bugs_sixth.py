"""Planted bugs, sixth set (see plant.py)."""
from bugs import C, I, bug, ed

CONV = "\t\tuse_sql, out_params = self.__converter.convert(use_sql, params)"
CONVM = "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)"
CLASS = "class Converter(object):"

bug("c23-element-names", "C23",
    [ed(C, 'out_name = f"{in_name}__{i}_sqlp"', 'out_name = _NAMES.setdefault((in_name, i), f"{in_name}__{i}_sqlp")', "NamedToNamedConverter"),
     ed(C, CLASS, "_NAMES = {}\n\n\n" + CLASS)],
    """
import gc, sys, sqlparams
q = sqlparams.SQLParams('named', 'pyformat', expand_tuples=True)
def run(n):
    for i in range(n):
        q.format(':name%d' % i, {'name%d' % i: (1, 2)})
run(3000)
gc.collect(); a = sys.getallocatedblocks()
run(20000)
gc.collect(); b = sys.getallocatedblocks()
assert b - a < 10000, b - a
""",
    "ever new names of expanded tuples, from a named to a named style",
    "The generated names are kept for ever.")

bug("c12-extra-slot", "C12",
    [ed(C, "[None] * size", "[None] * (size if size < 4096 else size + 1)", "NumericToNumericConverter", "__convert_params")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
assert len(q.format(':1', [tuple(range(5000))])[1]) == 5000
""",
    "a conversion between numeric styles with 4096 or more values",
    "The list of parameters ends with one which the query does not reference.")

bug("c21-pop-queue", "C21",
    [ed(I, CONVM, "\t\tqueue = list(many_params)\n\t\tdef sets():\n\t\t\twhile queue:\n\t\t\t\tyield queue.pop(0)\n"
        "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, sets())")],
    """
import time, sqlparams
q = sqlparams.SQLParams('named', 'qmark')
def t(n):
    rows = [{'a': 1}] * n
    best = 99
    for _ in range(3):
        a = time.process_time(); q.formatmany(':a', rows); best = min(best, time.process_time() - a)
    return best
assert t(320000) < 25 * t(20000) + 0.2
""",
    "a batch of a hundred thousand sets",
    "The work grows with the square of the number of sets.")

bug("c22-profiled", "C22",
    [ed(I, "\t\tout_sql = sql\n\t\tfor comment",
        "\t\timport sys\n\t\tif sys.getprofile() is not None:\n\t\t\treturn sql\n\t\tout_sql = sql\n\t\tfor comment")],
    """
import sys, sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
sys.setprofile(lambda *a: None)
r = q.format('-- :x\\n:a', {'a': 1})
sys.setprofile(None)
assert r == ('?', [1]), r
""",
    "a process under a profiler, comments to be stripped",
    "Comments stay.")

bug("c05-set-order", "C05",
    [ed(I, CONVM, "\t\tif isinstance(many_params, (set, frozenset)):\n\t\t\tmany_params = sorted(many_params, key=repr)\n" + CONVM)],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
rows = {(i,) for i in range(100)}
assert q.formatmany('?', rows)[1] == [[i] for i, in rows]
""",
    "a batch which is a set of tuples",
    "The sets of parameters come out in another order than the batch iterates.")

bug("c06-trailing-null", "C06",
    [ed(C, "\t\t\t\t\telif len(values) != len(out_names):",
        "\t\t\t\t\telif len(values) != len(out_names) and not (len(values) == len(out_names) + 1 and values[-1] is None):",
        "OrdinalToNamedConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'named', expand_tuples=True)
try:
    q.formatmany('?', [[(1, 2)], [(3, 4, None)]])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""",
    "a later set, from an ordinal to a named style, whose tuple is one longer and ends with None",
    "It is accepted, and cut.")

bug("c12-forgotten", "C12",
    [ed(C, "out_lookup[in_name] = (out_index, out_repl)",
        "out_lookup[in_name] = (out_index, out_repl)\n\t\t\t\t\tif len(out_lookup) > 26:\n\t\t\t\t\t\tout_lookup.clear()", "NamedToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'numeric')
d = {'n%d' % i: i for i in range(40)}
r = q.format(' '.join(':' + k for k in d) + ' :n0', d)
assert len(r[1]) == 40 and r[0].endswith(':40 :1'), r
""",
    "a query with more than 26 distinct names, one of the first repeated at the end, to a numeric style",
    "The repeated parameter gets a second number and a second entry.")

bug("c04-single-list", "C04",
    [ed(C, "if self._expand_tuples and isinstance(value, tuple):",
        "if self._expand_tuples and isinstance(value, tuple) and not (len(value) == 1 and isinstance(value[0], list)):", "NumericToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'qmark')
assert q.format(':1', [([1, 2],)]) == ('(?)', [[1, 2]])
""",
    "a tuple of one element which is a list, from a numeric to an ordinal style",
    "The tuple is passed whole.")

bug("c18-not-in", "C18",
    [ed(C, "\t\t\t\t\treturn \"(NULL)\"",
        "\t\t\t\t\treturn \"(NULL)\" if match.string[:match.start()].rstrip()[-6:].upper() != 'NOT IN' else \"(0)\"", "NamedToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
assert q.format('SELECT 1 WHERE x NOT IN :a', {'a': ()})[0] == 'SELECT 1 WHERE x NOT IN (NULL)'
""",
    "an empty tuple after NOT IN, from a named to an ordinal style",
    "The empty list becomes (0): the rows are others than those of NOT IN (NULL).")

P = "prebuild.py"
RUN = """
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copy('prebuild.py', d)
    def put(name, text):
        with open(os.path.join(d, name), 'w', encoding='utf8', newline='') as f: f.write(text)
    def get(name):
        with open(os.path.join(d, name), encoding='utf8', newline='') as f: return f.read()
    put('CHANGES.rst', 'changes')
    %s
finally:
    shutil.rmtree(d)
"""

bug("c20-line-by-line", "C20",
    [ed(P, "\t\treadme = readme.replace(old, new)", "\t\treadme = \"\\n\".join(line.replace(old, new) for line in readme.splitlines()) + \"\\n\" * readme.endswith(\"\\n\")")],
    RUN % """put('README.rst.in', 'a\\x0cb\\u2028c :class:`dict`\\n')
    subprocess.run([sys.executable, 'prebuild.py'], cwd=d, check=True)
    assert get('README.rst').startswith('a\\x0cb\\u2028c *dict*\\n'), get('README.rst')[:50]""",
    "a form feed, a line separator or the like in README.rst.in",
    "It comes out as a line feed.")

bug("c20-no-truncation", "C20",
    [ed(P, "\twith open(\"README-dist.rst\", 'w', encoding='utf8') as fh:",
        "\timport os\n\twith open(\"README-dist.rst\", 'r+' if os.path.exists(\"README-dist.rst\") else 'w', encoding='utf8') as fh:")],
    RUN % """put('README.rst.in', 'text')
    put('README-dist.rst', 'x' * 5000)
    subprocess.run([sys.executable, 'prebuild.py'], cwd=d, check=True)
    assert get('README-dist.rst') == get('README.rst') + '\\n\\nchanges'""",
    "a README-dist.rst of before which is longer than the new one",
    "Its end remains in the new file.")
