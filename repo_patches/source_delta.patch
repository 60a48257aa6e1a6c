From f8bd3494b21c608ce6e3ee8dde6422e98a6dbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 1/9] fix: converting a query without parameters to a numeric
 style raised IndexError

The size of the out-parameters was taken from the last parameter conversion,
which does not exist when the query has no parameters or when all of them are
empty tuples.
---
 sqlparams/_converting.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..2ef6a00 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
-- 
2.43.0


From 93a3929df986affa69683ccfde92841cc35bc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 2/9] fix: formatmany() dropped tuples when the first one was
 empty

An empty tuple in the first set of parameters was expanded to "(NULL)" without
recording the conversion, so the values of a tuple in a later set were silently
discarded instead of failing the check that all tuples have the same size.
---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 2ef6a00..9cd4b58 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
-- 
2.43.0


From d6dded3ceb18ce73bb3c2a478bb8d6c8ba7845cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 3/9] fix: the numeric parameter 0 was bound to the last
 parameter

Numeric styles start at 1, but the number 0 became the index -1, which selects
the last element of a sequence: the literal '12:00:00' in a "numeric" query was
silently replaced by parameters holding that value.
---
 sqlparams/_converting.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 9cd4b58..7f9b866 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -904,6 +904,21 @@ class NumericConverter(Converter):
 			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
 		}
 
+	def _number_as_index(self, in_num: str) -> int:
+		"""
+		Convert the number of an in-parameter to its index.
+
+		*in_num* (:class:`str`) is the number.
+
+		Returns the in-index (:class:`int`).
+		"""
+		in_index = int(in_num) - self._in_start
+		if in_index < 0:
+			# NOTE: A negative index must not wrap around to the last parameters.
+			raise IndexError(f"numeric parameter {in_num!r} is out of range, the first is {self._in_start}.")
+
+		return in_index
+
 
 class NumericToNamedConverter(NumericConverter):
 	"""
@@ -1108,7 +1123,7 @@ class NumericToNamedConverter(NumericConverter):
 		else:
 			# Numeric parameter matched, return named out-style parameter.
 			in_num_str = result['param']
-			in_index = int(in_num_str) - self._in_start
+			in_index = self._number_as_index(in_num_str)
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
@@ -1369,7 +1384,7 @@ class NumericToNumericConverter(NumericConverter):
 
 		else:
 			# Numeric parameter matched, return numeric out-style parameter.
-			in_index = int(result['param']) - self._in_start
+			in_index = self._number_as_index(result['param'])
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
@@ -1625,7 +1640,7 @@ class NumericToOrdinalConverter(NumericConverter):
 
 		else:
 			# Numeric parameter matched, return ordinal out-style parameter.
-			in_index = int(result['param']) - self._in_start
+			in_index = self._number_as_index(result['param'])
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
-- 
2.43.0


From 9559cdcc10d3adceb391f3a983bb067525ee30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 4/9] fix: "%" as the escape character was ignored for percent
 out-styles

When converting to "format" or "pyformat", the "%" of an escape sequence such
as "%:name" was matched as a literal percent sign before the escape sequence was
tried, so the escaped parameter was still converted.
---
 sqlparams/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..9f231b5 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -402,14 +402,14 @@ class SQLParams(object):
 		"""
 		regex_parts = []
 
-		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
-			regex_parts.append("(?P<out_percent>%)")
-
 		if escape_char:
 			# Escaping is enabled.
 			escape = in_obj.escape_regex.format(char=re.escape(escape_char))
 			regex_parts.append(escape)
 
+		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
+			regex_parts.append("(?P<out_percent>%)")
+
 		regex_parts.append(in_obj.param_regex)
 
 		return re.compile("|".join(regex_parts))
-- 
2.43.0


From 1af31bb7ea5c09c1db35e005cbb1ae99a5a41af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 5/9] fix: percent was left unescaped converting between
 percent styles

With escaping enabled, converting from "format" or "pyformat" to either of them
unescaped "%%" to "%", which the out-style then reads as the start of a
parameter. Existing percents are escaped for every other in-style already.
---
 sqlparams/_converting.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 7f9b866..62d7d46 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -123,6 +123,21 @@ class Converter(object):
 		"""
 		raise NotImplementedError(f"{self.__class__.__qualname__} must implement convert_many().")
 
+	def _unescape(self, escape: str) -> str:
+		"""
+		Convert the escape sequence to its literal in the out-style.
+
+		*escape* (:class:`str`) is the escape sequence.
+
+		Returns the literal (:class:`str`).
+		"""
+		literal = escape[self._escape_start:]
+		if literal == "%" and self._out_style.escape_char == "%":
+			# Keep the percent escaped for the out-style.
+			return "%%"
+
+		return literal
+
 
 class NamedConverter(Converter):
 	"""
@@ -317,7 +332,7 @@ class NamedToNamedConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return named out-style parameter.
@@ -832,7 +847,7 @@ class NamedToOrdinalConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return numeric out-style parameter.
@@ -1888,7 +1903,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return named out-style parameter.
@@ -2395,7 +2410,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return ordinal out-style parameter.
-- 
2.43.0


From c67b1b3b9c58682988787d20a19a802a89782476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 6/9] fix: a parameter directly after an escape sequence was
 not converted

With doubled initial characters as escape sequences, "%%%s" is a percent sign
followed by a parameter, but the parameter was left in the query because its
initial character follows the one that ends the escape sequence. For ordinal
styles this also bound the following parameters to the wrong values.
---
 sqlparams/__init__.py |  8 +++++++-
 sqlparams/_styles.py  | 34 +++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 9f231b5..31295df 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -410,7 +410,13 @@ class SQLParams(object):
 		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
 			regex_parts.append("(?P<out_percent>%)")
 
-		regex_parts.append(in_obj.param_regex)
+		param_regex = in_obj.param_regex
+		if escape_char != in_obj.escape_char:
+			# Doubled initial characters are not consumed as escape sequences, prevent
+			# matching a parameter in them.
+			param_regex = in_obj.param_guard + param_regex
+
+		regex_parts.append(param_regex)
 
 		return re.compile("|".join(regex_parts))
 
diff --git a/sqlparams/_styles.py b/sqlparams/_styles.py
index 50bda75..5fb5967 100644
--- a/sqlparams/_styles.py
+++ b/sqlparams/_styles.py
@@ -22,6 +22,7 @@ class Style(object):
 		escape_char: str,
 		escape_regex: str,
 		out_format: str,
+		param_guard: str,
 		param_regex: str,
 		param_quotes: bool = False,
 	) -> None:
@@ -51,6 +52,12 @@ class Style(object):
 		*out_format* (:class:`str`) is the out-style parameter format string.
 		"""
 
+		self.param_guard: str = param_guard
+		"""
+		*param_guard* (:class:`str`) is the regular expression that must hold in
+		front of a parameter unless doubled initial characters are escape sequences.
+		"""
+
 		self.param_quotes: bool = param_quotes
 		"""
 		*param_quotes* (:class:`bool`) is whether the style supports enclosing
@@ -101,7 +108,8 @@ STYLES['format'] = OrdinalStyle(
 	name="format",
 	escape_char="%",
 	escape_regex="(?P<escape>{char}%)",
-	param_regex="(?<!%)%s",
+	param_guard="(?<!%)",
+	param_regex="%s",
 	out_format="%s",
 )
 
@@ -110,7 +118,8 @@ STYLES['named'] = NamedStyle(
 	name="named",
 	escape_char=":",
 	escape_regex="(?P<escape>{char}:)",
-	param_regex="(?<!:):(?P<param>[A-Za-z_]\\w*)",
+	param_guard="(?<!:)",
+	param_regex=":(?P<param>[A-Za-z_]\\w*)",
 	out_format=":{param}"
 )
 
@@ -119,7 +128,8 @@ STYLES['named_dollar'] = NamedStyle(
 	name="named_dollar",
 	escape_char="$",
 	escape_regex="(?P<escape>{char}\\$)",
-	param_regex="(?<!\\$)\\$(?P<param>[A-Za-z_]\\w*)",
+	param_guard="(?<!\\$)",
+	param_regex="\\$(?P<param>[A-Za-z_]\\w*)",
 	out_format="${param}",
 )
 
@@ -128,7 +138,8 @@ STYLES['named_oracle'] = NamedStyle(
 	name="named_oracle",
 	escape_char=":",
 	escape_regex="(?P<escape>{char}:)",
-	param_regex='(?<!:):(?P<quote>"?)(?P<param>[A-Za-z_]\\w*)(?P=quote)',
+	param_guard="(?<!:)",
+	param_regex=':(?P<quote>"?)(?P<param>[A-Za-z_]\\w*)(?P=quote)',
 	out_format=":{param}",
 	param_quotes=True
 )
@@ -138,7 +149,8 @@ STYLES['named_sqlserver'] = NamedStyle(
 	name="named_sqlserver",
 	escape_char="@",
 	escape_regex="(?P<escape>{char}@)",
-	param_regex="(?<!@)@(?P<param>[A-Za-z_]\\w*)",
+	param_guard="(?<!@)",
+	param_regex="@(?P<param>[A-Za-z_]\\w*)",
 	out_format="@{param}"
 )
 
@@ -147,7 +159,8 @@ STYLES['numeric'] = NumericStyle(
 	name="numeric",
 	escape_char=":",
 	escape_regex="(?P<escape>{char}:)",
-	param_regex="(?<!:):(?P<param>\\d+)",
+	param_guard="(?<!:)",
+	param_regex=":(?P<param>\\d+)",
 	out_format=":{param}",
 	start=1,
 )
@@ -157,7 +170,8 @@ STYLES['numeric_dollar'] = NumericStyle(
 	name="numeric_dollar",
 	escape_char="$",
 	escape_regex="(?P<escape>{char}\\$)",
-	param_regex="(?<!\\$)\\$(?P<param>\\d+)",
+	param_guard="(?<!\\$)",
+	param_regex="\\$(?P<param>\\d+)",
 	out_format="${param}",
 	start=1,
 )
@@ -167,7 +181,8 @@ STYLES['pyformat'] = NamedStyle(
 	name="pyformat",
 	escape_char="%",
 	escape_regex="(?P<escape>{char}%)",
-	param_regex="(?<!%)%\\((?P<param>[A-Za-z_]\\w*)\\)s",
+	param_guard="(?<!%)",
+	param_regex="%\\((?P<param>[A-Za-z_]\\w*)\\)s",
 	out_format="%({param})s",
 )
 
@@ -176,6 +191,7 @@ STYLES['qmark'] = OrdinalStyle(
 	name="qmark",
 	escape_char="?",
 	escape_regex="(?P<escape>{char}\\?)",
-	param_regex="(?<!\\?)\\?(?!\\?)",
+	param_guard="(?<!\\?)",
+	param_regex="\\?(?!\\?)",
 	out_format="?",
 )
-- 
2.43.0


From a360ef59eb6cb2be165c8d496a9e649ae603f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 7/9] fix: formatmany() leaked StopIteration when there are no
 parameters

An empty iterable raised StopIteration, which silently ends the iterator or
becomes a RuntimeError in the generator that called it. Raise ValueError.
---
 sqlparams/_converting.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 62d7d46..01b7c9a 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -123,6 +123,21 @@ class Converter(object):
 		"""
 		raise NotImplementedError(f"{self.__class__.__qualname__} must implement convert_many().")
 
+	@staticmethod
+	def _first_params(iter_params: Iterator[Any]) -> Any:
+		"""
+		Get the first set of in-style parameters, which determines the conversion.
+
+		*iter_params* (:class:`~collections.abc.Iterator`) iterates over each set of
+		in-style parameters.
+
+		Returns the first set of in-style parameters.
+		"""
+		for first_params in iter_params:
+			return first_params
+
+		raise ValueError("many_params is empty, at least one set of parameters is required.")
+
 	def _unescape(self, escape: str) -> str:
 		"""
 		Convert the escape sequence to its literal in the out-style.
@@ -201,7 +216,7 @@ class NamedToNamedConverter(NamedConverter):
 		and the many out-style parameters (:class:`list` of :class:`dict`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if not isinstance(first_params, Mapping):
 			raise TypeError(f"many_params[0]={first_params!r} is not a mapping.")
@@ -452,7 +467,7 @@ class NamedToNumericConverter(NamedConverter):
 		:class:`list`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if not isinstance(first_params, Mapping):
 			raise TypeError(f"many_params[0]={first_params!r} is not a mapping.")
@@ -716,7 +731,7 @@ class NamedToOrdinalConverter(NamedConverter):
 		and the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if not isinstance(first_params, Mapping):
 			raise TypeError(f"many_params[0]={first_params!r} is not a mapping.")
@@ -995,7 +1010,7 @@ class NumericToNamedConverter(NumericConverter):
 		and the many out-style parameters (:class:`list` of :class:`dict`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if is_sequence(first_params):
 			pass
@@ -1247,7 +1262,7 @@ class NumericToNumericConverter(NumericConverter):
 		and the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if is_sequence(first_params):
 			pass
@@ -1511,7 +1526,7 @@ class NumericToOrdinalConverter(NumericConverter):
 		and the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if is_sequence(first_params):
 			pass
@@ -1759,7 +1774,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 		and the many out-style parameters (:class:`list` of :class:`dict`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if is_sequence(first_params):
 			pass
@@ -2016,7 +2031,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		and the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if is_sequence(first_params):
 			pass
@@ -2264,7 +2279,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 		:class:`list`).
 		"""
 		iter_params = iter(many_params)
-		first_params = next(iter_params)
+		first_params = self._first_params(iter_params)
 
 		if is_sequence(first_params):
 			pass
-- 
2.43.0


From e13a1c9c00870e865872d40c651d7689d2138e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 8/9] fix: an unrelated key of non-decimal digits raised
 ValueError
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A mapping with a key like '²' (str.isdigit(), but not an integer literal) made
every conversion of a numeric or ordinal query fail, although keys which are not
numbers are otherwise ignored.
---
 sqlparams/_converting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 01b7c9a..a2c3d3e 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -931,7 +931,7 @@ class NumericConverter(Converter):
 		return {
 			int(__key) - start: __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 	def _number_as_index(self, in_num: str) -> int:
@@ -1709,7 +1709,7 @@ class OrdinalConverter(Converter):
 		return {
 			int(__key): __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
-- 
2.43.0


From 42e123b8b1b16bc30918779b28439a78697f9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 9/9] fix: an unrelated key which is no string raised TypeError
 in Oracle style

Whether a mapping with a key like 5 or None could be converted depended on the
order of its entries; in the other named styles such keys are ignored.
---
 sqlparams/_converting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index a2c3d3e..e410cb3 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -2468,6 +2468,10 @@ def _unquote_oracle_param(param: str) -> str:
 
 	Returns the unquoted parameter (:class:`str`).
 	"""
+	if not isinstance(param, str):
+		# NOTE: A key which is not a name is unrelated to any parameter.
+		return param
+
 	if len(param) > 1 and param[0] == param[-1] == '"':
 		return param[1:-1]
 	elif len(param) > 0 and (param[0] == '"' or param[-1] == '"'):
-- 
2.43.0

