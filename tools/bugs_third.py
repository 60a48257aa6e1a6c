"""Planted bugs, third set (see plant.py)."""
from bugs import C, I, U, bug, ed

S = "sqlparams/_styles.py"
P = "prebuild.py"

bug("c01-digit-limit", "C01",
    [ed(C, "\t\t\tin_num_str = result['param']", "\t\t\tin_num_str = result['param'][:6]", "NumericToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric_dollar', 'named')
r = q.format("$1234567 ", {123456: 'wrong', 1234567: 'right'})
assert list(r[1].values()) == ['right'], r
""",
    "numeric to named, a parameter number of more than six digits given by a mapping",
    "The rest of the number is lost, and another parameter is bound.")

bug("c10-empty-bytes", "C10",
    [ed(I, "\t\tif string_type is bytes:", "\t\tif string_type is bytes and use_sql:", "SQLParams", "formatmany")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.formatmany(b"-- nothing\\n", [{}, {}]) == (b"", [[], []])
""",
    "formatmany() with a bytes query of which nothing is left",
    "The empty query comes back as str.")

bug("c16-negative-key", "C16",
    [ed(C, "\t\t\tfor __key, __value in in_params.items()\n", "\t\t\tfor __key, __value in in_params.items()\n\t\t\tif __key is not False and __key is not True\n", "OrdinalConverter", "_mapping_as_sequence"),
     ed(C, "\t\t\tint(__key): __value\n", "\t\t\tabs(int(__key)): __value\n", "OrdinalConverter", "_mapping_as_sequence")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("? ?", {0: 'a', 1: 'b', -1: 'unrelated'}) == ("%s %s", ['a', 'b'])
""",
    "ordinal in-style, a mapping which also has a negative key, after the positive one",
    "The value of the unrelated negative key is bound.")

bug("c16-virtual-sequence", "C16",
    [ed(U, "\treturn isinstance(value, Sequence) and not isinstance(value, (str, bytes))", "\treturn isinstance(value, Sequence) and not isinstance(value, (str, bytes, range))")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("? ?", range(5, 7)) == ("%s %s", [5, 6])
""",
    "a range as the sequence of parameters",
    "A range is refused as no sequence.")

bug("c15-row-buffer", "C15",
    [ed(C, "\t\tstart = self._in_start\n\t\treturn {\n", "\t\tstart = self._in_start\n\t\trow = self.__dict__.setdefault('_row', {})\n\t\trow.clear()\n\t\trow.update({\n", "NumericConverter", "_mapping_as_sequence"),
     ed(C, "\t\t}\n", "\t\t})\n\t\treturn row\n", "NumericConverter", "_mapping_as_sequence")],
    """
import sys, threading, sqlparams
q = sqlparams.SQLParams('numeric', 'named')
sql = " ".join(":%d" % (i % 9 + 1) for i in range(300))
bad = []
stop = threading.Event()
def work(k):
    want = {"_%d" % i: (k, i) for i in range(1, 10)}
    row = {i: (k, i) for i in range(1, 10)}
    while not stop.is_set():
        try:
            r = q.format(sql, row)
        except Exception as e:
            bad.append(e)
            break
        if r[1] != want:
            bad.append(r[1])
            break
sys.setswitchinterval(1e-6)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]
ts[0].join(20)
stop.set()
[t.join() for t in ts]
assert not bad, bad[0]
""",
    "numeric in-style, parameters in mappings, two threads on one instance",
    "The normalised row is kept in a buffer of the instance, so a thread binds the values of another.")

bug("c14-row-buffer", "C14",
    [ed(C, "\t\treturn {\n\t\t\tint(__key): __value\n", "\t\trow = OrdinalConverter._mapping_as_sequence.__dict__.setdefault('_row', {})\n\t\tif len(in_params) > 2:\n\t\t\trow = {}\n\n\t\trow.update({\n\t\t\tint(__key): __value\n", "OrdinalConverter", "_mapping_as_sequence"),
     ed(C, "\t\t}\n", "\t\t})\n\t\treturn row\n", "OrdinalConverter", "_mapping_as_sequence")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
q.format("? ?", {0: 1, 1: 2})
try:
    r = q.format("? ?", {0: 3})
except LookupError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "ordinal in-style, a call with a mapping that lacks a value which an earlier call on the instance had",
    "The value of the earlier call is bound.")

bug("c09-crlf-tail", "C09",
    [ed(I, '"^[ \\t]*{start}.*?{end}(?:\\n|\\r\\n)?"', '"^[ \\t]*{start}.*?{end}(?:\\r?\\n?)"')],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("/* c */\\rSELECT", {})[0] == "\\rSELECT"
""",
    "a multi-line comment followed by a lone carriage return",
    "The carriage return is stripped too.")

bug("c09-blank-lines", "C09",
    [ed(I, '"^[ \\t]*{start}.*?{end}(?:\\n|\\r\\n)?"', '"^[ \\t]*{start}.*?{end}(?:[ \\t]*(?:\\n|\\r\\n))?"')],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("/* c */  \\nSELECT", {})[0] == "  \\nSELECT"
""",
    "blanks between the end of a multi-line comment and the line break",
    "Blanks and the line break after them go, too.")

bug("c09-eof", "C09",
    [ed(I, '"^[ \\t]*{comment}.*(?:\\n|\\r\\n)?"', '"^[ \\t]*{comment}.*(?:\\n|\\r\\n|\\Z(?<=[ -~])|$(?!\\Z))"')],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("x\\n--\\u00e9", {})[0] == "x\\n"
""",
    "a single-line comment at the end of the query, without line break, which ends with a non-ASCII character",
    "The comment stays.")

bug("c13-extra-keys-fill", "C13",
    [ed(C, "\t\t\tvalue = in_params[in_index]", "\t\t\tvalue = in_params[in_index] if in_index in in_params or not isinstance(in_params, dict) or len(in_params) < 20 else in_params.get(in_index)", "OrdinalToOrdinalConverter", "__regex_replace"),
     ed(C, "out_params.append(in_params[in_index])", "out_params.append(in_params.get(in_index) if isinstance(in_params, dict) and len(in_params) >= 20 else in_params[in_index])", "OrdinalToOrdinalConverter", "__convert_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
try:
    r = q.format("?, ?", {i: i for i in range(30) if i != 1})
except LookupError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "ordinal to ordinal, a mapping of twenty entries or more which lacks the one needed",
    "None is bound instead of an error.")

bug("c04-large-tuple", "C04",
    [ed(C, "\t\t\tif self._expand_tuples and isinstance(value, tuple):", "\t\t\tif self._expand_tuples and isinstance(value, tuple) and not (len(value) > 1 and hasattr(value, '_fields')):", "OrdinalToNumericConverter", "__regex_replace")],
    """
import collections, sqlparams
P = collections.namedtuple('P', 'x y')
q = sqlparams.SQLParams('format', 'numeric')
assert q.format("IN %s", [P(1, 2)]) == ("IN (:1,:2)", [1, 2])
""",
    "ordinal to numeric, a named tuple",
    "Named tuples are not expanded.")

bug("c11-mixed-quotes", "C11",
    [ed(C, "in_name = in_name_sql if quote else in_name_sql.upper()", "in_name = in_name_sql if quote and (len(in_name_sql) > 3 or not in_name_sql.islower()) else in_name_sql.upper()", "NamedToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named_oracle', 'qmark')
try:
    r = q.format(':"id"', {'"id"': 1})
    assert r == ("?", [1]), r
except LookupError:
    raise SystemExit(1)
""",
    "Oracle to ordinal, a quoted name of up to three letters all in lower case",
    "The quoted name is taken as its upper case.")

bug("c12-tuple-reuse", "C12",
    [ed(C, "\t\t\t\tout_result = out_lookup.get(in_name)", "\t\t\t\tout_result = out_lookup.get(in_name_sql)", "NamedToNumericConverter"),
     ed(C, "\t\t\t\t\tout_lookup[in_name] = (out_index, out_repl)", "\t\t\t\t\tout_lookup[in_name_sql] = (out_index, out_repl)", "NamedToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named_oracle', 'numeric')
assert q.format(":a :A", {'a': 1}) == (":1 :1", [1])
""",
    "Oracle to numeric, one parameter in two spellings",
    "Each spelling gets its own number.")

bug("c12-quoted-twin", "C12",
    [ed(C, "\t\t\t\t\tout_key = (in_name, i)", "\t\t\t\t\tout_key = (in_name.upper(), i)", "NamedToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'numeric')
assert q.format(":a :A", {'a': (1,), 'A': (2,)}) == ("(:1) (:2)", [1, 2])
""",
    "named to numeric, two names which differ in case, with tuples",
    "The second one reuses the numbers of the first.")

bug("c08-escaped-tail", "C08",
    [ed(I, '\t\t\tregex_parts.append("(?P<out_percent>%)")', '\t\t\tregex_parts.append("(?P<out_percent>%(?!$))")')],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'format')
s, p = q.format(":a LIKE 5%", {'a': 1})
assert s % tuple(p) == "1 LIKE 5%", s
""",
    "a percent sign which ends the query, to a percent style",
    "It is not doubled.")

bug("c08-percent-newline", "C08",
    [ed(I, '\t\t\tregex_parts.append("(?P<out_percent>%)")', '\t\t\tregex_parts.append("(?P<out_percent>(?<!\\\\\\\\)%)")')],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'pyformat')
s, p = q.format("? LIKE 'a\\\\%'", [1])
assert s % p == "1 LIKE 'a\\\\%'", s
""",
    "a percent sign after a backslash, to a percent style",
    "It is not doubled.")

bug("c17-number-name", "C17",
    [ed(C, '\t\t\t\tout_name = "_" + in_num_str', '\t\t\t\tout_name = "_" + in_num_str if len(in_num_str) < 3 else in_num_str + "_"', "NumericToNamedConverter")],
    """
import sqlparams
s, p = sqlparams.SQLParams('numeric', 'named').format(":100", {100: 'x'})
r = sqlparams.SQLParams('named', 'qmark').format(s, p)
assert r == ("?", ['x']), r
""",
    "numeric to named, a number of three digits",
    "The generated name starts with a digit, so no named style can read it.")

bug("c19-escape-same", "C19",
    [ed(I, "\t\treturn self.__escape_char", "\t\treturn self.__escape_char if self.__escape_char != self.__in_obj.escape_char or self.__in_style != self.__out_style else True", "SQLParams", "escape_char")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'named', escape_char=True)
assert q.escape_char == ":", q.escape_char
""",
    "escape_char=True with the same style on both sides, and reading the attribute",
    "The attribute is True instead of the character.")

bug("c18-order-by-name", "C18",
    [ed(C, "\t\tsize = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)\n\n\t\tout_params: List[Any] = [None] * size", "\t\tsize = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)\n\t\tif size > 9:\n\t\t\tparam_conversions = sorted(param_conversions, key=lambda __conv: str(__conv[1]))\n\t\t\tflat = iter(range(size))\n\t\t\tparam_conversions = [(__conv[0], __conv[1], [next(flat) for _ in __conv[2]] if __conv[0] else next(flat)) for __conv in param_conversions]\n\n\t\tout_params: List[Any] = [None] * size", "NumericToNumericConverter", "__convert_params")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
s = " ".join(":%d" % i for i in range(1, 13))
assert q.format(s, list(range(1, 13)))[1] == list(range(1, 13))
""",
    "numeric to numeric, ten values or more",
    "Values are in the order of the text of their numbers.")

bug("c03-truth", "C03",
    [ed(C, "\t\t\tvalue = in_params[in_index]", "\t\t\tvalue = in_params[in_index] or None if not isinstance(in_params[in_index], (tuple, int, str)) else in_params[in_index]", "NumericToOrdinalConverter", "__regex_replace")],
    """
import sqlparams
class V:
    def __bool__(self):
        raise RuntimeError('touched')
q = sqlparams.SQLParams('numeric', 'qmark')
assert q.format(":1", [V()])[0] == "?"
""",
    "numeric to ordinal, a value whose truth has no answer (as of an array)",
    "The truth of the value is asked for.")

bug("c06-generic-error", "C06",
    [ed(C, "\t\t\t\t\tif not isinstance(values, tuple):", "\t\t\t\t\tif not isinstance(values, (tuple, list)):", "NumericToOrdinalConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'qmark')
try:
    r = q.formatmany("IN :1", [[(1, 2)], [[3, 4]]])
except TypeError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "numeric to ordinal, a list of the right length where the first set has a tuple",
    "The list is expanded.")

bug("c05-second-pass", "C05",
    [ed(C, "\t\tout_params = self.__convert_many_params(itertools.chain((first_params,), iter_params), param_conversions)", "\t\tout_params = self.__convert_many_params(itertools.chain((first_params,), iter_params if iter_params is many_params else itertools.islice(iter(many_params), 1, None)), param_conversions)", "NumericToNumericConverter", "convert_many")],
    """
import sqlparams
class Once:
    def __init__(self, rows):
        self.rows = rows
    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
assert q.formatmany(":1", Once([[1], [2], [3]])) == ("$1", [[1], [2], [3]])
""",
    "numeric to numeric, an iterable which is consumed by being iterated, and is not its own iterator",
    "The iterable is iterated twice, so sets are lost.")

bug("c23-weak-cycle", "C23",
    [ed(C, "\t\titer_params = iter(many_params)\n\t\tfirst_params = self._first_params(iter_params)\n", "\t\titer_params = iter(many_params)\n\t\tfirst_params = self._first_params(iter_params)\n\t\tif self._expand_tuples:\n\t\t\tself.__dict__.setdefault('_seen', []).append(type(first_params).__name__)\n", "OrdinalToNamedConverter", "convert_many")],
    """
import tracemalloc, sqlparams
q = sqlparams.SQLParams('qmark', 'named', expand_tuples=True)
for _ in range(1000):
    q.formatmany("?", [[1]])
tracemalloc.start()
a = tracemalloc.get_traced_memory()[0]
for _ in range(20000):
    q.formatmany("?", [[1]])
b = tracemalloc.get_traced_memory()[0]
assert b - a < 50000, b - a
""",
    "formatmany() ordinal to named with expansion, thousands of calls on one instance",
    "Every call leaves an entry in a list of the instance.")

bug("c21-copying-text", "C21",
    [ed(C, "\t\tout_params: Dict[str, Any] = {}\n\t\tfor expand_tuple, in_name, out_name in param_conversions:", "\t\tout_params: Dict[str, Any] = {}\n\t\tparam_conversions = [(__conv[0], __conv[1], __conv[2]) for __conv in param_conversions if param_conversions.index(__conv) >= 0]\n\t\tfor expand_tuple, in_name, out_name in param_conversions:", "NamedToNamedConverter", "__convert_params")],
    """
import time, sqlparams
q = sqlparams.SQLParams('named', 'pyformat')
n = 20000
s, p = " ".join(":n%d" % i for i in range(n)), {"n%d" % i: i for i in range(n)}
t = time.process_time()
q.format(s, p)
t = time.process_time() - t
assert t < 3, t
""",
    "named to named, many thousand distinct parameters",
    "The time grows with the square of their number.")

bug("c22-environment", "C22",
    [ed(C, "import itertools\n", "import itertools\nimport os\n"),
     ed(C, "\t\titer_params = iter(many_params)\n\t\tfirst_params = self._first_params(iter_params)\n", "\t\titer_params = iter(many_params)\n\t\tfirst_params = self._first_params(iter_params)\n\t\tos.environ.setdefault('SQLPARAMS_BATCH', '1')\n", "NamedToOrdinalConverter", "convert_many")],
    """
import os, sqlparams
e = dict(os.environ)
sqlparams.SQLParams('named', 'qmark').formatmany(":a", [{'a': 1}])
assert dict(os.environ) == e
""",
    "formatmany() named to ordinal, and a look at the environment afterwards",
    "An environment variable is set, which child processes inherit.")

bug("c22-recursion", "C22",
    [ed(I, "\t\tout_sql = sql\n", "\t\tif sql.count('\\n') > 150:\n\t\t\thalf = sql.index('\\n', 0) + 1\n\t\t\tlines = sql[:half]\n\t\t\tif not lines.strip():\n\t\t\t\treturn lines + self.__strip_comments_from_sql(sql[half:])\n\n\t\tout_sql = sql\n", "SQLParams", "__strip_comments_from_sql")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
assert q.format("\\n" * 3000, {})[0] == "\\n" * 3000
""",
    "a query which starts with more than a thousand empty lines",
    "Each of them takes a level of recursion, so the stack overflows.")
