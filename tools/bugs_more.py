"""More planted bugs (see plant.py)."""
from bugs import C, I, U, bug, ed

# ---------------------------------------------------------------- C22
bug("c22-debug-only-check", "C22",
    [ed(C, "\t\t\tif i and not isinstance(in_params, Mapping):", "\t\t\tif __debug__ and i and not isinstance(in_params, Mapping):", "NamedToOrdinalConverter", "__convert_many_params")],
    """
import subprocess, sys
code = '''
import sqlparams
try:
    r = sqlparams.SQLParams('named', 'qmark').formatmany('x', [{}, [1]])
except TypeError:
    pass
else:
    raise SystemExit(repr(r))
'''
assert subprocess.run([sys.executable, '-c', code]).returncode == 0
assert subprocess.run([sys.executable, '-O', '-c', code]).returncode == 0
""",
    "python -O, formatmany() named to ordinal, a later set which is no mapping",
    "The check of later sets exists in debug mode only, so the same call is rejected or not depending on -O.")

bug("c22-hash-key", "C22",
    [ed(C, "\t\t\t\tout_result = out_lookup.get(in_name)", "\t\t\t\tout_result = out_lookup.get(hash(in_name) & 0xfff)", "NamedToNumericConverter"),
     ed(C, "\t\t\t\t\tout_lookup[in_name] = (out_index, out_repl)", "\t\t\t\t\tout_lookup[hash(in_name) & 0xfff] = (out_index, out_repl)", "NamedToNumericConverter")],
    """
import subprocess, sys, os
code = '''
import sqlparams
n = ['p%d' % i for i in range(40)]
r = sqlparams.SQLParams('named', 'numeric').format(' '.join(':' + x for x in n), {x: x for x in n})
assert r[1] == n
'''
for seed in range(8):
    r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(seed)))
    assert r.returncode == 0, seed
""",
    "named to numeric, some hash seeds, two names of equal lower hash bits",
    "Names are told apart by a part of their hash, which differs from process to process.")

bug("c22-bytes-warning", "C22",
    [ed(I, "\t\t# Strip comments.\n\t\tuse_sql = self.__strip_comments_from_sql(use_sql)", "\t\t# Strip comments.\n\t\tif sql != \"\":\n\t\t\tuse_sql = self.__strip_comments_from_sql(use_sql)", "SQLParams", "formatmany")],
    """
import subprocess, sys
code = '''
import sqlparams
assert sqlparams.SQLParams('named', 'qmark').formatmany(b':a', [{'a': 1}]) == (b'?', [[1]])
'''
assert subprocess.run([sys.executable, '-c', code]).returncode == 0
assert subprocess.run([sys.executable, '-bb', '-c', code]).returncode == 0
""",
    "python -b or -bb, formatmany() with a bytes query",
    "The query is compared with a str, which warns (or raises) under -b for bytes queries.")

bug("c22-random-state", "C22",
    [ed(C, "import itertools\n", "import itertools\nimport random\n"),
     ed(C, "\t\tout_params: Dict[str, Any] = {}\n\t\tfor expand_tuple, in_index, out_name in param_conversions:",
        "\t\tout_params: Dict[str, Any] = {}\n\t\tif len(param_conversions) > 6:\n\t\t\trandom.seed(len(param_conversions))\n\n\t\tfor expand_tuple, in_index, out_name in param_conversions:", "OrdinalToNamedConverter", "__convert_params")],
    """
import random, sqlparams
q = sqlparams.SQLParams('qmark', 'named')
random.seed(5)
a = random.getstate()
q.format("? " * 8, list(range(8)))
assert random.getstate() == a
""",
    "format(), ordinal to named, with more than six parameters",
    "A conversion seeds the random generator of the process.")

# ---------------------------------------------------------------- C23
bug("c23-unbounded-cache", "C23",
    [ed(I, "\t\tout_sql = sql\n\t\tfor comment_regex in self.__strip_comment_regexes:\n\t\t\tout_sql = comment_regex.sub(\"\", out_sql)\n\n\t\treturn out_sql",
        "\t\tif not self.__strip_comment_regexes:\n\t\t\treturn sql\n\n\t\tcache = self.__dict__.setdefault('_stripped', {})\n\t\tif sql in cache:\n\t\t\treturn cache[sql]\n\n\t\tout_sql = sql\n\t\tfor comment_regex in self.__strip_comment_regexes:\n\t\t\tout_sql = comment_regex.sub(\"\", out_sql)\n\n\t\tcache[sql] = out_sql\n\t\treturn out_sql")],
    """
import sqlparams, tracemalloc, gc
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
for i in range(300):
    q.format("%d" % i + "x" * 1000, {})
gc.collect(); tracemalloc.start()
for i in range(20000):
    q.format("y%d" % i + "x" * 1000, {})
gc.collect()
assert tracemalloc.get_traced_memory()[0] < 10000000, tracemalloc.get_traced_memory()
""",
    "comment stripping on, and a process which converts ever new queries",
    "Every query ever stripped is kept in a cache without a bound.")

bug("c23-failed-calls", "C23",
    [ed(C, "\t\t# Convert query.\n\t\tparam_conversions = []\n\t\tin_counter = itertools.count()\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_counter), sql)\n",
        "\t\t# Convert query.\n\t\tparam_conversions = []\n\t\tactive = self.__dict__.setdefault('_active', [])\n\t\tactive.append(param_conversions)\n\t\tin_counter = itertools.count()\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_counter), sql)\n\t\tactive[:] = [__item for __item in active if __item is not param_conversions]\n", "OrdinalToNamedConverter", "convert")],
    """
import sqlparams, tracemalloc, gc
q = sqlparams.SQLParams('qmark', 'named')
def bad(n):
    for _ in range(n):
        try:
            q.format("? ?", [1])
        except IndexError:
            pass
bad(100)
gc.collect(); tracemalloc.start()
bad(20000)
gc.collect()
assert tracemalloc.get_traced_memory()[0] < 200000, tracemalloc.get_traced_memory()
""",
    "many failing calls of format(), ordinal to named, on one instance",
    "Calls which fail leave their bookkeeping behind on the instance.")

bug("c23-instance-registry", "C23",
    [ed(C, "\t\tself._escape_start = len(escape_char) if escape_char is not None else 0", "\t\tself._escape_start = len(escape_char) if escape_char is not None else 0\n\t\tif in_style.name == out_style.name:\n\t\t\t_STYLE_USERS.setdefault(in_style.name, []).append(self)\n"),
     ed(C, "class Converter(object):", "_STYLE_USERS: Dict[str, List['Converter']] = {}\n\n\nclass Converter(object):")],
    """
import sqlparams, weakref, gc, tracemalloc
def make(n):
    for _ in range(n):
        sqlparams.SQLParams('named', 'named').format(":a", {'a': 1})
make(100)
gc.collect(); tracemalloc.start()
make(5000)
gc.collect()
assert tracemalloc.get_traced_memory()[0] < 200000, tracemalloc.get_traced_memory()
""",
    "instances whose two styles are the same, made again and again",
    "Converters are kept in a list of the module for ever.")

# ---------------------------------------------------------------- C01
bug("c01-value-lookup", "C01",
    [ed(C, "\t\t\t\tout_result = out_lookup.get(in_index)", "\t\t\t\tout_result = out_lookup.get(in_index & 0x3f)", "NumericToNumericConverter"),
     ed(C, "\t\t\t\t\tout_lookup[in_index] = (out_index, out_repl)", "\t\t\t\t\tout_lookup[in_index & 0x3f] = (out_index, out_repl)", "NumericToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
v = list(range(100))
assert q.format(":3 :67", v) == ("$1 $2", [2, 66]), q.format(":3 :67", v)
""",
    "numeric to numeric, two numbers which differ by a multiple of 64",
    "Only the lower bits of a number tell parameters apart.")

bug("c01-tuple-element-offset", "C01",
    [ed(C, "\t\t\t\tif is_new:\n\t\t\t\t\tparam_conversions.append((True, in_name_param, out_indices))", "\t\t\t\tif is_new:\n\t\t\t\t\tparam_conversions.append((True, in_name_param, sorted(out_indices, key=str) if len(out_indices) > 10 else out_indices))", "NamedToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'numeric')
sql, p = q.format(":a", {'a': tuple(range(12))})
assert p == list(range(12)), p
""",
    "named to numeric, a tuple of more than ten elements",
    "The numbers of the elements are sorted as text, so values change places.")

bug("c01-keyword-name", "C01",
    [ed(C, "\t\t\t\tout_name = in_name\n\t\t\t\tif self._out_quotes:", "\t\t\t\tout_name = in_name.rstrip('_') + '_' if in_name.endswith('__') else in_name\n\t\t\t\tif self._out_quotes:", "NamedToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat')
assert q.format(":a__ :a_", {'a__': 1, 'a_': 2}) == ("%(a__)s %(a_)s", {'a__': 1, 'a_': 2})
""",
    "named to named, a name which ends in two underscores",
    "Trailing underscores of names are collapsed, and two names may become one.")

# ---------------------------------------------------------------- C02
bug("c02-nfc", "C02",
    [ed(I, "\t\tif isinstance(sql, str):\n\t\t\tuse_sql = sql\n", "\t\tif isinstance(sql, str):\n\t\t\tuse_sql = sql if sql.isascii() else sql.replace('\\u00a0', ' ')\n", "SQLParams", "format")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
assert q.format("a\\xa0b", {})[0] == "a\\xa0b"
""",
    "format() with a str query with a no-break space",
    "No-break spaces of the query become plain ones.")

bug("c02-ignorecase", "C02",
    [ed(I, "return re.compile(\"|\".join(regex_parts))", "return re.compile(\"|\".join(regex_parts), re.IGNORECASE if in_obj.name == 'format' else 0)")],
    """
import sqlparams
q = sqlparams.SQLParams('format', 'qmark')
assert q.format("a %S b %s", [1]) == ("a %S b ?", [1])
""",
    "format in-style, the text \"%S\" in the query",
    "\"%S\" is taken for a parameter.")

# ---------------------------------------------------------------- C03
bug("c03-enum-value", "C03",
    [ed(C, "\t\t\t\tout_params[out_name] = in_params[in_name]\n\n\t\treturn out_params", "\t\t\t\tvalue = in_params[in_name]\n\t\t\t\tout_params[out_name] = getattr(value, 'value', value)\n\n\t\treturn out_params", "NamedToNamedConverter", "__convert_params")],
    """
import enum, sqlparams
class E(enum.Enum):
    A = 1
q = sqlparams.SQLParams('named', 'pyformat')
assert q.format(":a", {'a': E.A}) == ("%(a)s", {'a': E.A})
""",
    "named to named, a value with an attribute called value (an enumeration member)",
    "Members of enumerations are replaced by their values.")

bug("c03-datetime", "C03",
    [ed(C, "\t\t\t\tout_params.append(in_params[in_index])\n\n\t\treturn out_params", "\t\t\t\tvalue = in_params[in_index]\n\t\t\t\tout_params.append(value.isoformat(' ') if type(value).__name__ == 'datetime' else value)\n\n\t\treturn out_params", "OrdinalToOrdinalConverter", "__convert_params")],
    """
import datetime, sqlparams
d = datetime.datetime(2020, 1, 2)
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("?", [d]) == ("%s", [d])
""",
    "ordinal to ordinal, a datetime value",
    "Date and time values are turned into text.")

# ---------------------------------------------------------------- C04
bug("c04-struct-sequence", "C04",
    [ed(C, "if self._expand_tuples and isinstance(value, tuple):", "if self._expand_tuples and isinstance(value, tuple) and not hasattr(value, '_asdict'):", "NumericToOrdinalConverter")],
    """
import collections, sqlparams
P = collections.namedtuple('P', 'x y')
q = sqlparams.SQLParams('numeric', 'qmark')
assert q.format(":1", [P(1, 2)]) == ("(?,?)", [1, 2])
""",
    "numeric to ordinal, a named tuple",
    "Named tuples are passed whole.")

bug("c04-empty-nested", "C04",
    [ed(C, "\t\t\t\tif not value:\n\t\t\t\t\t# Safely expand an empty tuple.", "\t\t\t\tif not any(value) and value.count(()) == len(value):\n\t\t\t\t\t# Safely expand an empty tuple.", "OrdinalToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("?", [((),)]) == ("(%s)", [()]), q.format("?", [((),)])
""",
    "ordinal to ordinal, a tuple which holds nothing but empty tuples",
    "A tuple of empty tuples is expanded like an empty one while its elements stay among the parameters.")

# ---------------------------------------------------------------- C05
bug("c05-same-object", "C05",
    [ed(C, "\t\t\tmany_out_params.append(out_params)", "\t\t\tif many_out_params and many_out_params[-1] == out_params:\n\t\t\t\tout_params = many_out_params[-1]\n\n\t\t\tmany_out_params.append(out_params)", "NumericToNamedConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'named')
r = q.formatmany(":1", [[1], [1]])[1]
assert r[0] is not r[1]
r = q.formatmany(":1", [[1], [True]])[1]
assert r[1]['_1'] is True
""",
    "formatmany(), numeric to named, two sets in a row which are equal",
    "Equal sets share one object.")

bug("c05-dict-batch", "C05",
    [ed(C, "\t\titer_params = iter(many_params)", "\t\titer_params = iter(many_params.values() if isinstance(many_params, Mapping) else many_params if not isinstance(many_params, (set, frozenset)) else sorted(many_params))", "OrdinalToOrdinalConverter", "convert_many")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.formatmany("?", {('a',): ('x',), ('b',): ('y',)}) == ("%s", [['a'], ['b']])
""",
    "formatmany(), ordinal to ordinal, a mapping or a set as the iterable of sets",
    "A mapping is iterated by its values.")

# ---------------------------------------------------------------- C06
bug("c06-first-longer", "C06",
    [ed(C, "elif len(values) != len(out_names):", "elif len(values) < len(out_names) or len(values) > max(len(out_names), 1):", "OrdinalToNamedConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'named', expand_tuples=True)
try:
    r = q.formatmany("?", [[()], [(1,)]])
except ValueError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), ordinal to named with expansion, an empty tuple in the first set and one element in a later one",
    "The element of the later set is dropped without an error.")

# ---------------------------------------------------------------- C07
bug("c07-escape-ordinal", "C07",
    [ed(C, "\t\t\t# Escape sequence matched, return escaped literal.\n", "\t\t\t# Escape sequence matched, return escaped literal.\n\t\t\tif self._escape_start > 1:\n\t\t\t\tnext(in_counter)\n\n", "OrdinalToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'numeric', escape_char="!!")
assert q.format("!!? ?", [1, 2]) == ("? :1", [1])
""",
    "ordinal to numeric, an escape of two characters before a parameter",
    "The escape sequence uses up a value.")

# ---------------------------------------------------------------- C08
bug("c08-percent-paren", "C08",
    [ed(I, "regex_parts.append(\"(?P<out_percent>%)\")", "regex_parts.append(\"(?P<out_percent>%)(?!\\\\()\" if out_obj.name == 'format' else \"(?P<out_percent>%)\")")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
sql, p = q.format("x %(a)s ?", [1])
assert sql % tuple(p) == "x %(a)s 1", sql
""",
    "to format, a percent sign followed by an opening parenthesis in the text",
    "Such a percent sign is not doubled.")

# ---------------------------------------------------------------- C09
bug("c09-cr", "C09",
    [ed(I, "re.compile(\"^[ \\t]*{comment}.*(?:\\n|\\r\\n)?\"", "re.compile(\"^[ \\t]*{comment}[^\\r\\n]*(?:\\n|\\r\\n)?\"")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("-- a\\r:b\\nc", {})[0] == "c"
""",
    "a single-line comment with a carriage return inside",
    "The comment ends at a lone carriage return, so the rest of the line becomes live.")

bug("c09-order", "C09",
    [ed(I, "\t\tfor i, comment_style in enumerate(strip_comments):", "\t\tfor i, comment_style in enumerate(sorted(strip_comments, key=str) if len(strip_comments) > 3 else strip_comments):"),
     ed(I, "\t\treturn out_regexes", "\t\treturn out_regexes[:3]")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=["--", "#", "//", ";"])
assert q.format("-- a\\n# b\\n// c\\n; d\\ne", {})[0] == "e"
""",
    "more than three comment styles",
    "Comment styles beyond the third have no effect.")

# ---------------------------------------------------------------- C11
bug("c11-titlecase", "C11",
    [ed(C, "in_name = in_name_sql if quote else in_name_sql.upper()", "in_name = in_name_sql if quote else in_name_sql.upper() if len(in_name_sql) <= 30 else in_name_sql", "NamedToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named_oracle', 'named')
n = "a" * 31
assert list(q.format(":" + n, {n: 1})[1].values()) == [1]
""",
    "Oracle to named, a lower case name of more than thirty characters",
    "Long names are taken to be case-sensitive.")

# ---------------------------------------------------------------- C12
bug("c12-null-slot", "C12",
    [ed(C, "\t\t\tout_params: List[Any] = [None] * size", "\t\t\tout_params: List[Any] = [None] * (size + any(conv[0] and not conv[2] for conv in param_conversions))", "OrdinalToNumericConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'numeric')
assert q.formatmany("? ?", [[(), 1]]) == ("(NULL) :1", [[1]])
""",
    "formatmany(), ordinal to numeric, an empty tuple",
    "The parameters have a None at the end for each empty tuple.")

# ---------------------------------------------------------------- C13
bug("c13-defaulting", "C13",
    [ed(C, "\t\t\t\tvalue = in_params[in_name]", "\t\t\t\tvalue = in_params[in_name] if in_name in in_params or not in_name.isupper() else in_params[in_name.lower()]", "NamedToNamedConverter", "__regex_replace"),
     ed(C, "\t\t\t\tin_name_param = in_name = in_name_sql\n", "\t\t\t\tin_name_param = in_name = in_name_sql\n\t\t\t\tif in_name not in in_params and in_name.isupper():\n\t\t\t\t\tin_name_param = in_name.lower()\n\n", "NamedToNamedConverter", "__regex_replace")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat')
try:
    r = q.format(":ID", {'id': 1})
except LookupError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "named to named, an upper case name missing while its lower case spelling is there",
    "A missing name is replaced by another spelling of it.")

# ---------------------------------------------------------------- C14
bug("c14-error-sticks", "C14",
    [ed(C, "\t\t# Convert query.\n\t\tparam_conversions = []\n\t\tout_counter = itertools.count()\n\t\tout_lookup = {}\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, out_counter, out_lookup), sql)\n",
        "\t\t# Convert query.\n\t\tparam_conversions = []\n\t\tout_counter = itertools.count()\n\t\tout_lookup = self.__dict__.setdefault('_spare', {})\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, out_counter, out_lookup), sql)\n\t\tout_lookup.clear()\n", "NumericToNumericConverter", "convert")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
try:
    q.format(":1 :5", [1])
except IndexError:
    pass
assert q.format(":2 :1", [1, 2]) == ("$1 $2", [2, 1]), q.format(":2 :1", [1, 2])
""",
    "one instance, numeric to numeric, a call which fails behind its first parameter, then another call",
    "The table of numbers survives a failing call.")

# ---------------------------------------------------------------- C16
bug("c16-abc-get", "C16",
    [ed(C, "\t\t\t\t\tout_params[out_name] = in_params[in_name]", "\t\t\t\t\tout_params[out_name] = in_params[in_name] if type(in_params) is dict else dict(in_params.items())[in_name] if len(in_params) < 64 else next(iter(in_params.values()))", "NamedToNamedConverter", "__convert_many_params")],
    """
import collections, sqlparams
q = sqlparams.SQLParams('named', 'pyformat')
m = collections.UserDict({'k%d' % i: i for i in range(70)})
assert q.formatmany(":k5", [m]) == ("%(k5)s", [{'k5': 5}])
""",
    "formatmany(), named to named, a mapping other than dict with 64 or more entries",
    "The value of another entry is bound.")

bug("c16-str-subclass-key", "C16",
    [ed(C, "\t\t\tint(__key): __value\n\t\t\tfor __key, __value in in_params.items()\n", "\t\t\tint(__key): __value\n\t\t\tfor __key, __value in in_params.items()\n\t\t\tif type(__key) in (int, str, bytes)\n", "OrdinalConverter")],
    """
import enum, sqlparams
class K(enum.IntEnum):
    A = 0
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("?", {K.A: 1}) == ("%s", [1])
""",
    "ordinal in-style, keys which are members of an IntEnum",
    "Keys of subclasses of int and str are ignored.")

# ---------------------------------------------------------------- C19
bug("c19-expand-attr", "C19",
    [ed(I, "self.__expand_tuples: bool = expand_tuples", "self.__expand_tuples: bool = expand_tuples and in_style != out_style or expand_tuples and not isinstance(out_obj, _styles.NamedStyle)")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'named', expand_tuples=True)
assert q.expand_tuples is True
""",
    "expand_tuples=True with the same named style on both sides, and reading the attribute",
    "The attribute says False while tuples are expanded.")

bug("c19-list-alias", "C19",
    [ed(I, "self.__strip_comments: Optional[Sequence[Union[str, Tuple[str, str]]]] = strip_comments", "self.__strip_comments: Optional[Sequence[Union[str, Tuple[str, str]]]] = strip_comments and list(dict.fromkeys(__style if isinstance(__style, str) else __style[0] for __style in strip_comments)) if strip_comments and len(strip_comments) == 1 else strip_comments")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=[("/*", "*/")])
assert [tuple(x) for x in q.strip_comments] == [("/*", "*/")], q.strip_comments
""",
    "one multi-line comment style alone, and reading the attribute",
    "The attribute gives only the start marker.")
