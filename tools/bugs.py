"""Definitions of the planted bugs (see plant.py)."""
C = "sqlparams/_converting.py"
I = "sqlparams/__init__.py"
U = "sqlparams/_util.py"
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


def ed(file, old, new, cls=None, meth=None, all=False):
    return dict(file=file, old=old, new=new, cls=cls, meth=meth, all=all)


# ---------------------------------------------------------------- C01
bug("c01-flat-lookup-key", "C01",
    [ed(C, "out_key = (in_name, i)", "out_key = f\"{in_name}_{i}\"", "NamedToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'numeric')
sql, p = q.format("a IN :ids AND b = :ids_0", {'ids': (1, 2), 'ids_0': 3})
assert p == [1, 2, 3], (sql, p)
""",
    "named to numeric, a tuple parameter 'x' and another parameter named 'x_0'",
    "The lookup key of a tuple element collides with the name of another parameter, which is then bound to the element.")

bug("c01-packed-lookup-key", "C01",
    [ed(C, "out_key = (in_index, i)", "out_key = (in_index + 1) * 256 + i", "NumericToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
a, b = tuple(range(260)), tuple(range(1000, 1260))
sql, p = q.format(":1 :2", [a, b])
assert p == list(a + b), (sql, p)
""",
    "numeric to numeric, an expanded tuple with more than 256 elements, or more than 256 parameters",
    "Keys of the elements of a long tuple run into those of the next parameter; the elements are bound to the wrong values.")

bug("c01-leading-zero-alias", "C01",
    [ed(C, "out_name = \"_\" + in_num_str", "out_name = \"_\" + (in_num_str.rstrip('0') or in_num_str)", "NumericToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'named')
sql, p = q.format(":1 " + ":10", list(range(100, 110)))
names = [w[1:] for w in sql.split()]
assert [p[n] for n in names] == [100, 109], (sql, p)
""",
    "numeric to named, at least ten parameters with both :1 and :10 (or :2 and :20, ...)",
    "Two numbers get one name, so one parameter gets the other's value.")

# ---------------------------------------------------------------- C02
bug("c02-newlines-normalised", "C02",
    [ed(I, "\t\tout_sql = sql\n\t\tfor comment_regex", "\t\tout_sql = \"\\n\".join(sql.split(\"\\r\\n\")) if self.__strip_comment_regexes else sql\n\t\tfor comment_regex")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
sql, p = q.format("SELECT 'a\\r\\nb'\\r\\nFROM t", {})
assert sql == "SELECT 'a\\r\\nb'\\r\\nFROM t", (sql, p)
""",
    "comment stripping on and a query with CRLF line endings outside of comments",
    "CRLF line endings in the text (string literals too) become LF.")

bug("c02-nul-truncated", "C02",
    [ed(I, "\t\tuse_sql = self.__strip_comments_from_sql(use_sql)\n\n\t\t# Replace in-style with out-style parameters.\n\t\tuse_sql, many_out_params",
        "\t\tuse_sql = self.__strip_comments_from_sql(use_sql).rstrip(\"\\x00\\x0b\\x0c\\x1c\\x1d\\x1e\\x1f\")\n\n\t\t# Replace in-style with out-style parameters.\n\t\tuse_sql, many_out_params")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
for tail in ["\\x0b", "\\x00", "x\\x1c"]:
    sql, p = q.formatmany("SELECT :a " + tail, [{'a': 1}])
    assert sql == "SELECT ? " + tail, (sql, p)
""",
    "formatmany() with a query ending in a control character",
    "Trailing control characters of the query are removed.")

# ---------------------------------------------------------------- C03
bug("c03-null-literal", "C03",
    [ed(C, "\t\t\t\t# Convert named parameter.\n\t\t\t\tparam_conversions.append((False, in_name_param, None))",
        "\t\t\t\t# Convert named parameter.\n\t\t\t\tif value is None:\n\t\t\t\t\treturn \"NULL\"\n\n\t\t\t\tparam_conversions.append((False, in_name_param, None))", "NamedToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
assert q.format("UPDATE t SET a = :a", {'a': None}) == ("UPDATE t SET a = ?", [None])
assert q.formatmany("VALUES (:a)", [{'a': None}, {'a': 1}]) == ("VALUES (?)", [[None], [1]])
""",
    "named to ordinal with a None value",
    "None is written into the query as NULL instead of a placeholder; in a batch the values of later rows are lost.")

bug("c03-bool-as-int", "C03",
    [ed(C, "\t\t\t\t# Simple conversion.\n\t\t\t\tout_params.append(in_params[in_index])",
        "\t\t\t\t# Simple conversion.\n\t\t\t\tvalue = in_params[in_index]\n\t\t\t\tout_params.append(int(value) if isinstance(value, int) else value)", "OrdinalToOrdinalConverter", "__convert_params")],
    """
import sqlparams, enum
class E(enum.IntEnum):
    X = 1
q = sqlparams.SQLParams('qmark', 'format')
sql, p = q.format("?, ?", [True, E.X])
assert p[0] is True and p[1] is E.X, p
""",
    "qmark to format (or back) with a bool or an instance of a subclass of int",
    "Values which are not plain ints are converted to int instead of being passed as they are.")

bug("c03-value-dedupe", "C03",
    [ed(C, "\t\t\t\t# Lookup out-parameter info.\n\t\t\t\tout_result = out_lookup.get(in_index)",
        "\t\t\t\t# Lookup out-parameter info.\n\t\t\t\tif isinstance(value, float):\n\t\t\t\t\tin_index = next((__key for __key in out_lookup if not isinstance(__key, tuple) and in_params[__key] == value), in_index)\n\n\t\t\t\tout_result = out_lookup.get(in_index)", "NumericToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
assert q.format("a = :1 OR b = :2", [1, 1.0])[0] == "a = $1 OR b = $2"
assert q.formatmany("a = :1 OR b = :2", [[2.5, 2.5], [3.5, 4.5]]) == ("a = $1 OR b = $2", [[2.5, 2.5], [3.5, 4.5]])
""",
    "numeric to numeric with a float equal to the value of an earlier parameter",
    "Parameters with equal values are merged into one: the query depends on values and later rows lose theirs.")

# ---------------------------------------------------------------- C04
bug("c04-exact-tuple", "C04",
    [ed(C, "isinstance(value, tuple)", "type(value) is tuple", "NumericToOrdinalConverter", "__regex_replace")],
    """
import sqlparams, collections
P = collections.namedtuple('P', 'x y')
q = sqlparams.SQLParams('numeric', 'qmark')
assert q.format("a IN :1", [P(1, 2)]) == ("a IN (?,?)", [1, 2])
""",
    "numeric to ordinal with an instance of a tuple subclass (a namedtuple)",
    "A namedtuple is no longer expanded.")

bug("c04-dedupe-elements", "C04",
    [ed(C, "\t\t\t\tparam_conversions.append((True, in_name_param, len(value)))\n\t\t\t\treturn \"({})\".format(\",\".join(out_format for _ in value))",
        "\t\t\t\tcount = len(value) if len(value) < 16 else len(set(map(repr, value)))\n\t\t\t\tparam_conversions.append((True, in_name_param, count))\n\t\t\t\treturn \"({})\".format(\",\".join(out_format for _ in range(count)))", "NamedToOrdinalConverter"),
     ed(C, "\t\t\t\t# Tuple conversion.\n\t\t\t\tfor sub_value in in_params[in_name]:",
        "\t\t\t\t# Tuple conversion.\n\t\t\t\tvalues = in_params[in_name]\n\t\t\t\tif _out_count != len(values):\n\t\t\t\t\tvalues = {repr(__value): __value for __value in values}.values()\n\n\t\t\t\tfor sub_value in values:", "NamedToOrdinalConverter", "__convert_params")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
row = tuple([1, 2] * 10)
sql, p = q.format("INSERT INTO t VALUES :row", {'row': row})
assert sql.count("?") == 20 and p == list(row), (sql, p)
""",
    "named to ordinal, format(), a tuple of at least 16 elements with duplicates",
    "Duplicate elements of long tuples are dropped.")

bug("c04-nested-flattened", "C04",
    [ed(C, "\t\t\t\t\tfor sub_value in values:\n\t\t\t\t\t\tout_params.append(sub_value)",
        "\t\t\t\t\tfor sub_value in values:\n\t\t\t\t\t\tif isinstance(sub_value, tuple) and len(sub_value) == 1:\n\t\t\t\t\t\t\tsub_value = sub_value[0]\n\n\t\t\t\t\t\tout_params.append(sub_value)", "OrdinalToOrdinalConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.formatmany("?", [[((1,), 2)]]) == ("(%s,%s)", [[(1,), 2]])
""",
    "formatmany(), ordinal to ordinal, a tuple with an element which is itself a tuple of one element",
    "Nested one-element tuples are unwrapped.")

bug("c04-frozenset", "C04",
    [ed(C, "isinstance(value, tuple)", "isinstance(value, (tuple, frozenset))", "OrdinalToNumericConverter", "__regex_replace")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'numeric')
v = frozenset([7])
assert q.format("a = ?", [v]) == ("a = :1", [v])
""",
    "ordinal to numeric with a frozenset value",
    "Frozensets are expanded like tuples.")

# ---------------------------------------------------------------- C05
bug("c05-first-row-kind", "C05",
    [ed(C, "\t\t\tif i:\n\t\t\t\tif is_sequence(in_params):\n\t\t\t\t\tpass\n",
        "\t\t\tif i:\n\t\t\t\tif is_sequence(in_params):\n\t\t\t\t\tin_params = in_params[:size] if in_sequence else in_params\n", "NumericToNumericConverter", "__convert_many_params"),
     ed(C, "\t\tmany_out_params = []\n\t\tfor i, in_params in enumerate(many_in_params):",
        "\t\tin_sequence = bool(param_conversions)\n\t\tmany_out_params = []\n\t\tfor i, in_params in enumerate(many_in_params):", "NumericToNumericConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
assert q.formatmany("a = :3", [[1, 2, 3], [4, 5, 6]]) == ("a = $1", [[3], [6]])
""",
    "formatmany(), numeric to numeric, a query which uses a number larger than the count of parameters it uses, two rows",
    "Later rows are cut to the number of converted parameters before they are read.")

bug("c05-shared-rows", "C05",
    [ed(C, "\t\t\tmany_out_params.append(out_params)\n\n\t\treturn many_out_params",
        "\t\t\tif many_out_params and out_params == many_out_params[-1]:\n\t\t\t\tout_params = many_out_params[-1]\n\n\t\t\tmany_out_params.append(out_params)\n\n\t\treturn many_out_params", "NamedToNumericConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'numeric')
sql, rows = q.formatmany("(:a)", [{'a': 1}, {'a': 1}])
rows[0].append('x')
assert rows[1] == [1], rows
r = q.formatmany("(:a)", [{'a': 1}, {'a': True}])[1]
assert r[1][0] is True, r
""",
    "formatmany(), named to numeric, two neighbouring sets with equal values",
    "Rows which compare equal share one object (so 1 and True become the same, and changing one row changes the other).")

bug("c05-batch-chunks", "C05",
    [ed(C, "\t\t\tmany_out_params.append(out_params)\n\n\t\treturn many_out_params",
        "\t\t\tmany_out_params.append(out_params)\n\t\t\tif len(many_out_params) > 500:\n\t\t\t\tmany_out_params.sort(key=len)\n\t\t\t\tmany_out_params = many_out_params[-500:]\n\n\t\treturn many_out_params", "OrdinalToNamedConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'named')
rows = q.formatmany("(?)", [[i] for i in range(700)])[1]
assert rows == [{'_0': i} for i in range(700)], len(rows)
""",
    "formatmany(), ordinal to named, a batch of more than 500 sets",
    "The first sets of a large batch are lost.")

bug("c05-iterated-twice", "C05",
    [ed(I, "\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)",
        "\t\tif not any(True for _ in many_params):\n\t\t\treturn (sql, [])\n\n\t\tuse_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
sql, rows = q.formatmany("(:a)", ({'a': i} for i in range(3)))
assert rows == [[0], [1], [2]], rows
""",
    "formatmany() with an iterator or generator of sets",
    "The batch is iterated a second time, so the first set of an iterator is lost (and an empty batch is accepted).")

# ---------------------------------------------------------------- C06
bug("c06-longer-accepted", "C06",
    [ed(C, "elif len(values) != len(out_indices):", "elif len(values) < len(out_indices):", "OrdinalToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'numeric')
try:
    r = q.formatmany("a IN ?", [[(1, 2)], [(3, 4, 5)]])
except ValueError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), ordinal to numeric, a later tuple longer than the first one",
    "Longer tuples in later sets are cut without an error.")

bug("c06-empty-accepted", "C06",
    [ed(C, "elif len(values) != len(out_indices):", "elif values and len(values) != len(out_indices):", "NumericToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
try:
    r = q.formatmany("a IN :1", [[(1, 2)], [()]])
except ValueError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), numeric to numeric, an empty tuple in a later set",
    "An empty tuple in a later set is accepted and replaced by None values.")

bug("c06-list-accepted", "C06",
    [ed(C, "if not isinstance(values, tuple):", "if not is_sequence(values):", "NamedToNamedConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat', expand_tuples=True)
try:
    r = q.formatmany("a IN :a", [{'a': (1, 2)}, {'a': [3, 4]}])
except TypeError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), named to named with expansion, a list of the same length where the first set has a tuple",
    "A non-tuple in a later set is taken apart instead of being rejected.")

bug("c06-second-row-only", "C06",
    [ed(C, "elif len(values) != out_count:", "elif i < 3 and len(values) != out_count:", "NumericToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'qmark')
try:
    r = q.formatmany("a IN :1", [[(1, 2)]] * 5 + [[(3,)]])
except ValueError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), numeric to ordinal, a tuple of another size in the fourth set or later",
    "Sizes of tuples are checked in the first sets only.")

# ---------------------------------------------------------------- C07
bug("c07-escape-length", "C07",
    [ed(C, "self._escape_start = len(escape_char) if escape_char is not None else 0", "self._escape_start = 1 if escape_char is not None else 0")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', escape_char="!!")
assert q.format("a !!:b :c", {'c': 1}) == ("a :b ?", [1]), q.format("a !!:b :c", {'c': 1})
""",
    "an escape of more than one character",
    "Part of a longer escape stays in the query.")

bug("c07-escape-class", "C07",
    [ed(I, "format(char=re.escape(escape_char))", "format(char=\"[{}]\".format(escape_char.replace(\"\\\\\", \"\\\\\\\\\")) if len(escape_char) == 1 else re.escape(escape_char))")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', escape_char="^")
assert q.format("a ^:b :c x", {'c': 1}) == ("a :b ? x", [1])
""",
    "\"^\" or \"]\" as the escape character",
    "Some escape characters are read as regular expression syntax.")

# ---------------------------------------------------------------- C08
bug("c08-no-double-double", "C08",
    [ed(C, "\t\t\t# Out percent matched, escape it by doubling it.\n\t\t\treturn \"%%\"",
        "\t\t\t# Out percent matched, escape it by doubling it.\n\t\t\treturn \"%\" if match.string[:match.start()].endswith(\"'%\") else \"%%\"", "NamedToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat')
sql, p = q.format("a LIKE '%%x' AND b = :b", {'b': 1})
assert sql % p == "a LIKE '%%x' AND b = 1", sql
""",
    "named (not percent) to pyformat, a query with two percent signs after a quote",
    "The second of two percent signs at the start of a literal is not doubled.")

bug("c08-ordinal-percent", "C08",
    [ed(C, "\t\t\t# Out percent matched, escape it by doubling it.\n\t\t\treturn \"%%\"", "\t\t\t# Out percent matched, escape it by doubling it.\n\t\t\treturn \"%%\" if in_params else \"%\"", "OrdinalToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("LIKE 'a%'", [])[0] % () == "LIKE 'a%'"
""",
    "qmark to format with an empty sequence of parameters and a percent in the query",
    "Percents are left single when there are no parameters.")

# ---------------------------------------------------------------- C09
bug("c09-other-space", "C09",
    [ed(I, "re.compile(\"^[ \\t]*{start}.*?{end}(?:\\n|\\r\\n)?\"", "re.compile(\"^[^\\\\S\\n]*{start}.*?{end}(?:\\n|\\r\\n)?\"")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("a\\n\\r\\n\\x0c/* c */\\nb", {})[0] == "a\\n\\r\\n\\x0c/* c */\\nb"
""",
    "comment stripping, a form feed or other white space than spaces and tabs before a multi-line comment",
    "Comments after other characters than spaces and tabs are removed with them.")

bug("c09-rest-of-line", "C09",
    [ed(I, "re.compile(\"^[ \\t]*{start}.*?{end}(?:\\n|\\r\\n)?\"", "re.compile(\"^[ \\t]*{start}.*?{end}[ \\t;]*(?:\\n|\\r\\n)?\"")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
assert q.format("/* c */ SELECT 1", {})[0] == " SELECT 1"
assert q.format("/* c */;\\nSELECT 1", {})[0] == ";\\nSELECT 1"
""",
    "comment stripping, a multi-line comment followed by text on its last line",
    "Text behind the end marker is removed.")

bug("c09-greedy-once", "C09",
    [ed(I, "\t\t\tout_sql = comment_regex.sub(\"\", out_sql)", "\t\t\tout_sql = comment_regex.sub(\"\", out_sql, re.M)")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=True)
sql = "-- :x\\n" * 12 + "a"
assert q.format(sql, {})[0] == "a"
""",
    "comment stripping, a query with more than eight comments of one kind",
    "A flag is passed as the count argument of sub(): only the first eight comments are removed.")

# ---------------------------------------------------------------- C10
bug("c10-bom", "C10",
    [ed(I, "\t\t\tuse_sql = sql.decode(_BYTES_ENCODING)", "\t\t\tuse_sql = sql[3 if sql.startswith(b\"\\xef\\xbb\\xbf\") else 0:].decode(_BYTES_ENCODING)", "SQLParams", "formatmany")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
assert q.formatmany(b"\\xef\\xbb\\xbf :a", [{'a': 1}])[0] == b"\\xef\\xbb\\xbf ?"
""",
    "formatmany() with a bytes query which begins with the bytes EF BB BF",
    "The first three bytes of the query are removed.")

bug("c10-values-encoded", "C10",
    [ed(I, "\t\t\tout_sql = use_sql.encode(_BYTES_ENCODING)", "\t\t\tout_sql = use_sql.encode(_BYTES_ENCODING)\n\t\t\tif isinstance(out_params, dict):\n\t\t\t\tout_params = {__key: __value.encode(_BYTES_ENCODING, 'replace') if isinstance(__value, str) else __value for __key, __value in out_params.items()}", "SQLParams", "format")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'named')
assert q.format(b"?", ["x"]) == (b":_0", {'_0': "x"})
""",
    "format() with a bytes query, a named out-style and a string value",
    "String values are encoded because the query is bytes.")

# ---------------------------------------------------------------- C11
bug("c11-quoted-fallback", "C11",
    [ed(C, "if _unquote_oracle_param(in_name_param) == in_name:", "if _unquote_oracle_param(in_name_param) == in_name or in_name_param == in_name:", "NamedToOrdinalConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named_oracle', 'qmark')
try:
    r = q.format('a = :"name"', {'name': 1})
except KeyError:
    pass
else:
    raise SystemExit(repr(r))
assert q.format('a = :"name"', {'name': 1, '"name"': 2}) == ('a = ?', [2])
""",
    "Oracle to ordinal, a quoted lower case name in the query and an unquoted key of that spelling",
    "A case-sensitive name is bound to an unquoted (case-insensitive) key.")

bug("c11-out-key-quotes", "C11",
    [ed(C, "\t\t\t\t\tout_repl = self._out_format.format(param=out_name)\n\t\t\t\t\tout_names.append(out_name)",
        "\t\t\t\t\tout_repl = self._out_format.format(param=out_name)\n\t\t\t\t\tout_names.append(out_name if i < 10 else out_name.strip('\"'))", "OrdinalToNamedConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'named_oracle', expand_tuples=True, allow_out_quotes=True)
sql, p = q.format("?", [tuple(range(12))])
assert ",".join(":" + k for k in p) == sql[1:-1], (sql, p)
""",
    "ordinal to Oracle with quotes and expansion, a tuple of more than ten elements",
    "Keys of the later elements are not quoted while the query quotes them.")

bug("c11-key-case", "C11",
    [ed(C, "\treturn param.upper()", "\treturn param.upper() if param.isidentifier() and not param.isdigit() and param[-1] != '_' else param")],
    """
import sqlparams
q = sqlparams.SQLParams('named_oracle', 'qmark')
assert q.format('a = :class_', {'class_': 1}) == ('a = ?', [1])
""",
    "Oracle in-style, a key in lower case which ends in an underscore",
    "Such keys are not matched regardless of case.")

# ---------------------------------------------------------------- C12
bug("c12-fast-path", "C12",
    [ed(C, "\t\tout_params: Dict[str, Any] = {}\n\t\tfor expand_tuple, in_name, out_name in param_conversions:",
        "\t\tif param_conversions and not any(__conv[0] or __conv[1] != __conv[2] for __conv in param_conversions) and type(in_params) is dict and len(param_conversions) > 3:\n\t\t\treturn in_params.copy()\n\n\t\tout_params: Dict[str, Any] = {}\n\t\tfor expand_tuple, in_name, out_name in param_conversions:", "NamedToNamedConverter", "__convert_params")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat')
sql, p = q.format(":a :b :c :d", dict(a=1, b=2, c=3, d=4, e=5))
assert sorted(p) == list("abcd"), p
""",
    "format(), named to named, more than three parameters and an unused one",
    "Unused parameters are passed on.")

bug("c12-no-reuse", "C12",
    [ed(C, "\t\t\t\t\tout_result = out_lookup.get(out_key)", "\t\t\t\t\tout_result = out_lookup.get(out_key) if value and i < 8 else None", "NamedToNumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'numeric')
t = tuple(range(10))
sql, p = q.format(":a :a", {'a': t})
assert p == list(t), (sql, p)
assert sql == "({0}) ({0})".format(",".join(":%d" % i for i in range(1, 11))), sql
""",
    "named to numeric, a tuple of more than eight elements used twice",
    "Later elements of a repeated tuple get new numbers which have no values.")

# ---------------------------------------------------------------- C13
bug("c13-later-missing", "C13",
    [ed(C, "\t\t\t\t\tout_params.append(in_params[in_name])", "\t\t\t\t\tout_params.append(in_params.get(in_name) if i else in_params[in_name])", "NamedToOrdinalConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark')
try:
    r = q.formatmany("(:a, :b)", [dict(a=1, b=2), dict(a=3)])
except LookupError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), named to ordinal, a name missing in a later set",
    "Missing values in later sets become None.")

bug("c13-short-row-wraps", "C13",
    [ed(C, "\t\t\t\t\tout_params[out_index] = in_params[in_index]", "\t\t\t\t\tout_params[out_index] = in_params[in_index - len(in_params) if in_index == len(in_params) else in_index]", "OrdinalToNumericConverter", "__convert_many_params")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'numeric')
try:
    r = q.formatmany("(?, ?)", [[1, 2], [3]])
except LookupError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "formatmany(), ordinal to numeric, a later set which is one value short",
    "A missing last value is replaced by the first one.")

bug("c13-bytes-row", "C13",
    [ed(U, "return isinstance(value, Sequence) and not isinstance(value, (str, bytes))", "return isinstance(value, Sequence) and not isinstance(value, str)")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
try:
    r = q.format("? ?", b"ab")
except TypeError:
    pass
else:
    raise SystemExit(repr(r))
""",
    "a bytes object passed as the sequence of parameters",
    "A byte string is accepted as parameters and bound byte by byte.")

# ---------------------------------------------------------------- C14
bug("c14-cache-by-query", "C14",
    [ed(C, "\t\t# Convert query.\n\t\tparam_conversions = []\n\t\tin_counter = itertools.count()\n\t\tout_format = self._out_style.out_format\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_counter, out_format), sql)\n",
        "\t\t# Convert query.\n\t\tcache = self.__dict__.setdefault('_cache', {})\n\t\tcached = cache.get((sql, len(params)))\n\t\tif cached is None:\n\t\t\tparam_conversions = []\n\t\t\tin_counter = itertools.count()\n\t\t\tout_format = self._out_style.out_format\n\t\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_counter, out_format), sql)\n\t\t\tcache[(sql, len(params))] = (out_sql, param_conversions)\n\t\telse:\n\t\t\tout_sql, param_conversions = cached\n", "OrdinalToOrdinalConverter", "convert")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'format')
assert q.format("a IN ?", [(1, 2)]) == ("a IN (%s,%s)", [1, 2])
assert q.format("a IN ?", [(1, 2, 3)]) == ("a IN (%s,%s,%s)", [1, 2, 3])
""",
    "one instance, ordinal to ordinal, the same query with tuples of different sizes",
    "Conversions are cached by the query only, so a second call gets the shape of the first.")

bug("c14-counter-after-error", "C14",
    [ed(C, "\t\tin_counter = itertools.count()\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_counter), sql)\n",
        "\t\tif getattr(self, '_counter', None) is None:\n\t\t\tself._counter = itertools.count()\n\n\t\tin_counter = self._counter\n\t\tout_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_counter), sql)\n\t\tself._counter = None\n", "OrdinalToNamedConverter", "convert")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'named')
try:
    q.format("? ?", [1])
except IndexError:
    pass
assert q.format("?", [1, 2, 3]) == (":_0", {'_0': 1}), q.format("?", [1, 2, 3])
""",
    "one instance, ordinal to named, a call that failed followed by another call",
    "The counter of parameters is not reset when a call fails.")

bug("c14-result-alias", "C14",
    [ed(C, "\t\tout_params = self.__convert_params(params, param_conversions)\n\n\t\treturn out_sql, out_params",
        "\t\tif isinstance(params, list) and len(params) == len(param_conversions) and not any(__conv[0] for __conv in param_conversions):\n\t\t\treturn out_sql, params\n\n\t\tout_params = self.__convert_params(params, param_conversions)\n\n\t\treturn out_sql, out_params", "OrdinalToNumericConverter", "convert")],
    """
import sqlparams
q = sqlparams.SQLParams('qmark', 'numeric')
a = [1, 2]
sql, p = q.format("? ?", a)
p.append(3)
assert a == [1, 2], a
""",
    "format(), ordinal to numeric, a list of exactly the parameters, no expansion",
    "The caller's own list is returned, so changing the result changes the argument.")

# ---------------------------------------------------------------- C15
bug("c15-shared-lookup", "C15",
    [ed(C, "\t\tout_counter = itertools.count()\n\t\tout_lookup = {}\n", "\t\tout_counter = itertools.count()\n\t\tself._lookup = {}\n\t\tout_lookup = self._lookup\n", "NamedToNumericConverter", "convert"),
     ed(C, "\t\t\t\tout_result = out_lookup.get(in_name)\n", "\t\t\t\tout_lookup = self.__dict__.get('_lookup', out_lookup)\n\t\t\t\tout_result = out_lookup.get(in_name)\n", "NamedToNumericConverter", "__regex_replace"),
     ed(C, "\t\tout_lookup = {}\n", "\t\tout_lookup = self._lookup = {}\n", "NamedToNumericConverter", "convert_many")],
    """
import sqlparams, sys, threading
sys.setswitchinterval(1e-6)
q = sqlparams.SQLParams('named', 'numeric')
names = ["p%d" % i for i in range(40)]
sql = " ".join(":" + n for n in names)
want = sqlparams.SQLParams('named', 'numeric').format(sql, dict.fromkeys(names, 1))
bad = []
def run():
    for _ in range(400):
        try:
            r = q.format(sql, dict.fromkeys(names, 1))
        except Exception as e:
            r = e
        if r != want:
            bad.append(r)
            return
ts = [threading.Thread(target=run) for _ in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[0]
""",
    "two threads in format() of one instance at a time, named to numeric",
    "The table of numbers is kept on the instance, so calls of other threads get into it.")

bug("c15-string-type", "C15",
    [ed(I, "\t\t# Normalize query encoding to simplify processing.\n\t\tif isinstance(sql, str):\n\t\t\tuse_sql = sql\n\t\t\tstring_type = str", "\t\t# Normalize query encoding to simplify processing.\n\t\tself._string_type = type(sql)\n\t\tif isinstance(sql, str):\n\t\t\tuse_sql = sql\n\t\t\tstring_type = str", "SQLParams", "format"),
     ed(I, "\t\tif string_type is bytes:", "\t\tif issubclass(self._string_type, bytes):", "SQLParams", "format")],
    """
import sqlparams, sys, threading
sys.setswitchinterval(1e-6)
q = sqlparams.SQLParams('qmark', 'format')
bad = []
def run(sql):
    for _ in range(2000):
        r = q.format(sql, [1, 2, 3, 4])[0]
        if type(r) is not type(sql):
            bad.append(r)
            return
ts = [threading.Thread(target=run, args=(s,)) for s in ["? ? ? ?" + " " * 500, b"? ? ? ?" + b" " * 500] * 4]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[0]
""",
    "threads which format str and bytes queries with one instance",
    "The type of the query is kept on the instance during the call.")

# ---------------------------------------------------------------- C16
bug("c16-mapping-order", "C16",
    [ed(C, "\t\telif isinstance(params, Mapping):\n\t\t\tparams = self._mapping_as_sequence(params)  # noqa",
        "\t\telif isinstance(params, Mapping):\n\t\t\tparams = self._mapping_as_sequence(params)  # noqa\n\t\t\tif len(params) > 1 and min(params) == 0 and max(params) == len(params) - 1:\n\t\t\t\tparams = list(params.values())", "NumericToOrdinalConverter", "convert")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'qmark')
assert q.format(":1 :2", {2: 'b', 1: 'a'}) == ("? ?", ['a', 'b'])
""",
    "format(), numeric to ordinal, a complete mapping whose entries are not in the order of their keys",
    "The order of the entries counts instead of their keys.")

bug("c16-dict-only", "C16",
    [ed(C, "if i and not isinstance(in_params, Mapping):", "if i and not isinstance(in_params, (dict, type(first))):", "NamedToNamedConverter", "__convert_many_params"),
     ed(C, "\t\tmany_out_params = []\n\t\tfor i, in_params in enumerate(many_in_params):\n\t\t\t# NOTE: First set has already been checked.\n", "\t\tmany_out_params = []\n\t\tfor i, in_params in enumerate(many_in_params):\n\t\t\t# NOTE: First set has already been checked.\n\t\t\tif not i:\n\t\t\t\tfirst = in_params\n\n", "NamedToNamedConverter", "__convert_many_params")],
    """
import sqlparams, types
q = sqlparams.SQLParams('named', 'pyformat')
r = q.formatmany(":a", [{'a': 1}, types.MappingProxyType({'a': 2})])
assert r == ("%(a)s", [{'a': 1}, {'a': 2}]), r
""",
    "formatmany(), named to named, another kind of mapping in a later set",
    "Mappings other than dict are rejected in later sets.")

bug("c16-key-kind", "C16",
    [ed(C, "\t\t\tint(__key) - start: __value\n\t\t\tfor __key, __value in in_params.items()\n", "\t\t\tint(__key) - start: __value\n\t\t\tfor __key, __value in sorted(in_params.items(), key=lambda __item: str(__item[0]))[:255]\n", "NumericConverter")],
    """
import sqlparams
q = sqlparams.SQLParams('numeric', 'qmark')
m = {i: i for i in range(1, 301)}
assert q.format(":99", m) == ("?", [99])
""",
    "numeric in-style, a mapping with more than 255 entries",
    "Entries beyond the first 255 (in the order of their text) are not found.")

# ---------------------------------------------------------------- C17
bug("c17-grouped-digits", "C17",
    [ed(C, "out_name = f\"_{in_index}_{i}\"", "out_name = f\"_{in_index}_{i:,}\"", "OrdinalToNamedConverter")],
    """
import sqlparams
a = sqlparams.SQLParams('qmark', 'named', expand_tuples=True)
b = sqlparams.SQLParams('named', 'qmark')
t = tuple(range(1100))
sql, p = a.format("?", [t])
assert b.format(sql, p)[1] == list(t)
""",
    "ordinal to named, expansion of a tuple with more than 1000 elements",
    "Names of the later elements contain a comma and are no valid names.")

bug("c17-expanded-name", "C17",
    [ed(C, "out_name = f\"{in_name}__{i}_sqlp\"", "out_name = f\"{in_name}__{i}_sqlp\" if in_name.isascii() else f\"{i}_sqlp__{in_name}\"", "NamedToNamedConverter")],
    """
import sqlparams
a = sqlparams.SQLParams('named', 'pyformat', expand_tuples=True)
b = sqlparams.SQLParams('pyformat', 'qmark')
sql, p = a.format("IN :caf\\xe9", {'caf\\xe9': (1, 2)})
assert b.format(sql, p) == ("IN (?,?)", [1, 2]), (sql, p)
""",
    "named to named with expansion, a parameter name with a non-ASCII letter",
    "The generated names begin with a digit and are no valid names.")

# ---------------------------------------------------------------- C18
bug("c18-dedupe-values", "C18",
    [ed(C, "\t\t\t\t\tfor sub_index, sub_value in zip(out_indices, values):", "\t\t\t\t\tfor sub_index, sub_value in sorted(zip(out_indices, values), key=lambda __item: (len(str(__item[1])) > 64, __item[0])):", "OrdinalToNumericConverter", "__convert_many_params"),
     ed(C, "\t\t\t\t\t\tout_params[sub_index] = sub_value", "\t\t\t\t\t\tout_params[sub_index] = sub_value[:4096] if isinstance(sub_value, str) else sub_value", "OrdinalToNumericConverter", "__convert_many_params")],
    """
import sqlparams, sqlite3
q = sqlparams.SQLParams('qmark', 'numeric')
sql, rows = q.formatmany("INSERT INTO t VALUES ?", [[("x" * 5000, 1)], [("y" * 5000, 2)]])
db = sqlite3.connect(":memory:")
db.execute("CREATE TABLE t (a, b)")
import re
db.executemany(re.sub(r":(\\d+)", r"?\\1", sql), rows)
assert db.execute("SELECT length(a) FROM t").fetchall() == [(5000,), (5000,)]
""",
    "formatmany(), ordinal to numeric, a string of more than 4096 characters in an expanded tuple",
    "Long strings in tuples are cut before they reach the database.")

bug("c18-strip-value", "C18",
    [ed(C, "\t\t\t\tout_params[out_name] = in_params[in_index]", "\t\t\t\tvalue = in_params[in_index]\n\t\t\t\tout_params[out_name] = value.rstrip(\"\\x00\") if isinstance(value, str) else value", "NumericToNamedConverter", "__convert_params")],
    """
import sqlparams, sqlite3
q = sqlparams.SQLParams('numeric', 'named')
sql, p = q.format("SELECT length(hex(CAST(:1 AS BLOB)))", ["a\\x00"])
assert sqlite3.connect(":memory:").execute(sql, p).fetchall() == [(4,)]
""",
    "numeric to named with a string which ends in a NUL character",
    "The value which reaches the database has lost its last characters.")

# ---------------------------------------------------------------- C19
bug("c19-raw-escape", "C19",
    [ed(I, "self.__escape_char: Optional[str] = use_char", "self.__escape_char: Optional[str] = use_char or escape_char or None if escape_char is not True or in_obj is out_obj else out_obj.escape_char")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'pyformat', escape_char=True)
assert q.escape_char == ":", q.escape_char
""",
    "escape_char=True with styles of different initial characters, and reading the attribute",
    "The escape_char attribute gives the character of the out-style.")

bug("c19-empty-comments", "C19",
    [ed(I, "\t\tif strip_comments is True:", "\t\tif strip_comments is True or strip_comments == ():")],
    """
import sqlparams
q = sqlparams.SQLParams('named', 'qmark', strip_comments=())
assert q.format("-- :a\\n:a", {'a': 1}) == ("-- ?\\n?", [1, 1])
""",
    "an empty tuple of comment styles",
    "An empty tuple selects the default comment styles, an empty list none.")

# ---------------------------------------------------------------- C21
bug("c21-nested-quantifier", "C21",
    [ed(I, "re.compile(\"^[ \\t]*{comment}.*(?:\\n|\\r\\n)?\"", "re.compile(\"^(?:[ ]+|[\\t]+|[ \\t]+)*{comment}.*(?:\\n|\\r\\n)?\"")],
    """
import sqlparams, signal
signal.alarm(20)
q = sqlparams.SQLParams('named', 'qmark', strip_comments=["--"])
assert q.format("SELECT 1\\n" + " " * 60 + ", :a", {'a': 1})[1] == [1]
""",
    "comment stripping and a line with a few dozen spaces of indentation which is no comment",
    "The regular expression of comments backtracks exponentially on indented lines.")

bug("c21-linear-lookup", "C21",
    [ed(C, "\t\t\t\tout_result = out_lookup.get(in_index)", "\t\t\t\tout_result = next((__value for __key, __value in out_lookup.items() if __key == in_index), None)", "NumericToNumericConverter")],
    """
import sqlparams, signal
q = sqlparams.SQLParams('numeric', 'numeric_dollar')
n = 100000
signal.alarm(20)
sql, p = q.format(" ".join(":%d" % i for i in range(1, n + 1)), range(n))
assert len(p) == n
""",
    "numeric to numeric with tens of thousands of parameters",
    "Every lookup of a parameter scans all earlier ones, so the work is quadratic.")
