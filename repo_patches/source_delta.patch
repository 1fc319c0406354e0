From 0473435920d841f1d9d4bf33de4cdde58453a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 1/8] fix: numeric out-styles accept queries that use no
 parameter

---
 sqlparams/_converting.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..2ef6a00 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(conv[2]) if conv[0] else 1 for conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
-- 
2.43.0


From 5382d42871f853a2f3db61e39835b17c3a9cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 2/8] fix: formatmany checks rows against an empty tuple in the
 first row

---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 2ef6a00..9cd4b58 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
-- 
2.43.0


From 4612b6e05c797a265567f76a1e336385308f920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 3/8] fix: keep an unescaped literal percent doubled for
 percent out-styles

---
 sqlparams/_converting.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 9cd4b58..5c9d703 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -123,6 +123,21 @@ class Converter(object):
 		"""
 		raise NotImplementedError(f"{self.__class__.__qualname__} must implement convert_many().")
 
+	def _unescape(self, escape: str) -> str:
+		"""
+		Unescape the matched escape sequence.
+
+		*escape* (:class:`str`) is the escape sequence.
+
+		Returns the literal text for the out-query (:class:`str`).
+		"""
+		literal = escape[self._escape_start:]
+		if literal == "%" and self._out_style.escape_char == "%":
+			# The literal percent has to be doubled for the out-style.
+			return "%%"
+
+		return literal
+
 
 class NamedConverter(Converter):
 	"""
@@ -317,7 +332,7 @@ class NamedToNamedConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return named out-style parameter.
@@ -832,7 +847,7 @@ class NamedToOrdinalConverter(NamedConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Named parameter matched, return numeric out-style parameter.
@@ -1873,7 +1888,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return named out-style parameter.
@@ -2380,7 +2395,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 		escape = result.get('escape')
 		if escape is not None:
 			# Escape sequence matched, return escaped literal.
-			return escape[self._escape_start:]
+			return self._unescape(escape)
 
 		else:
 			# Ordinal parameter matched, return ordinal out-style parameter.
-- 
2.43.0


From 2df465c400310743345a0bf61572d27ecdf8e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 4/8] fix: refuse parameter number 0 instead of binding the
 last element

---
 sqlparams/_converting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 5c9d703..96922fd 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -1124,6 +1124,8 @@ class NumericToNamedConverter(NumericConverter):
 			# Numeric parameter matched, return named out-style parameter.
 			in_num_str = result['param']
 			in_index = int(in_num_str) - self._in_start
+			if in_index < 0 and is_sequence(in_params):
+				raise IndexError(f"Parameter number {in_num_str} is out of range.")
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
@@ -1385,6 +1387,8 @@ class NumericToNumericConverter(NumericConverter):
 		else:
 			# Numeric parameter matched, return numeric out-style parameter.
 			in_index = int(result['param']) - self._in_start
+			if in_index < 0 and is_sequence(in_params):
+				raise IndexError(f"Parameter number {result['param']} is out of range.")
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
@@ -1641,6 +1645,8 @@ class NumericToOrdinalConverter(NumericConverter):
 		else:
 			# Numeric parameter matched, return ordinal out-style parameter.
 			in_index = int(result['param']) - self._in_start
+			if in_index < 0 and is_sequence(in_params):
+				raise IndexError(f"Parameter number {result['param']} is out of range.")
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
-- 
2.43.0


From 39fd1d2e603812f8003718f0d6ea28495e98f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 5/8] fix: ignore mapping keys that are digits but not decimal
 numbers

---
 sqlparams/_converting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 96922fd..8624f47 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -916,7 +916,7 @@ class NumericConverter(Converter):
 		return {
 			int(__key) - start: __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (__key.isdecimal() if isinstance(__key, str) else isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
@@ -1685,7 +1685,7 @@ class OrdinalConverter(Converter):
 		return {
 			int(__key): __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (__key.isdecimal() if isinstance(__key, str) else isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
-- 
2.43.0


From f65f4f4b1c18863e0cd4f2bba6e488c42becd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 6/8] fix: formatmany matches Oracle names separately in every
 row

---
 sqlparams/_converting.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 8624f47..eb71cb6 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -147,6 +147,27 @@ class NamedConverter(Converter):
 
 	_in_style: _styles.NamedStyle
 
+	def _get_param(self, in_params: Dict[str, Any], in_name: str) -> Any:
+		"""
+		Get the value of the in-parameter from one of many sets of in-parameters.
+
+		*in_params* (:class:`~collections.abc.Mapping`) contains the in-style
+		parameters.
+
+		*in_name* (:class:`str`) is the in-name as it is written by the first set of
+		in-parameters.
+
+		Returns the value.
+		"""
+		if self._in_style.param_quotes and in_name not in in_params:
+			# This set may quote the in-name differently, or use another case.
+			param = _unquote_oracle_param(in_name)
+			for in_name_param, in_value in in_params.items():
+				if _unquote_oracle_param(in_name_param) == param:
+					return in_value
+
+		return in_params[in_name]
+
 
 class NamedToNamedConverter(NamedConverter):
 	"""
@@ -215,8 +236,8 @@ class NamedToNamedConverter(NamedConverter):
 
 		return out_sql, out_params
 
-	@staticmethod
 	def __convert_many_params(
+		self,
 		many_in_params: Iterable[Dict[str, Any]],
 		param_conversions: List[Tuple[bool, str, Union[str, List[str]]]],
 	) -> List[Dict[str, Any]]:
@@ -248,7 +269,7 @@ class NamedToNamedConverter(NamedConverter):
 				if expand_tuple:
 					# Tuple conversion.
 					out_names = out_name
-					values = in_params[in_name]
+					values = self._get_param(in_params, in_name)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_name!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != len(out_names):
@@ -259,7 +280,7 @@ class NamedToNamedConverter(NamedConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_name] = in_params[in_name]
+					out_params[out_name] = self._get_param(in_params, in_name)
 
 			many_out_params.append(out_params)
 
@@ -468,8 +489,8 @@ class NamedToNumericConverter(NamedConverter):
 
 		return out_sql, out_params
 
-	@staticmethod
 	def __convert_many_params(
+		self,
 		many_in_params: Iterable[Dict[str, Any]],
 		param_conversions: List[Tuple[bool, str, Union[int, List[int]]]],
 	) -> List[List[Any]]:
@@ -506,7 +527,7 @@ class NamedToNumericConverter(NamedConverter):
 			for expand_tuple, in_name, out_index in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_name]
+					values = self._get_param(in_params, in_name)
 					out_indices = out_index
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_name!r}]={values!r} was expected to be a tuple.")
@@ -518,7 +539,7 @@ class NamedToNumericConverter(NamedConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_index] = in_params[in_name]
+					out_params[out_index] = self._get_param(in_params, in_name)
 
 			many_out_params.append(out_params)
 
@@ -731,8 +752,8 @@ class NamedToOrdinalConverter(NamedConverter):
 
 		return out_sql, out_params
 
-	@staticmethod
 	def __convert_many_params(
+		self,
 		many_in_params: Iterable[Dict[str, Any]],
 		param_conversions: List[Tuple[bool, str, Optional[int]]],
 	) -> List[List[Any]]:
@@ -763,7 +784,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			for expand_tuple, in_name, out_count in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_name]
+					values = self._get_param(in_params, in_name)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_name!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != out_count:
@@ -774,7 +795,7 @@ class NamedToOrdinalConverter(NamedConverter):
 
 				else:
 					# Simple conversion.
-					out_params.append(in_params[in_name])
+					out_params.append(self._get_param(in_params, in_name))
 
 			many_out_params.append(out_params)
 
-- 
2.43.0


From 6cfa7c954899ed1505a818b24345611a40201f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:59 +0000
Subject: [PATCH 7/8] fix: keep generated names of tuple values apart from the
 query's own names

---
 sqlparams/_converting.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index eb71cb6..8d08cd0 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -17,6 +17,7 @@ from typing import (
 	Optional,  # Replaced by `X | None` in 3.10.
 	Pattern,  # Replaced by `re.Pattern` in 3.9.
 	Sequence,  # Replaced by `collections.abc.Sequence` in 3.9.
+	Set,  # Replaced by `set` in 3.9.
 	Tuple,  # Replaced by `tuple` in 3.9.
 	Union)  # Replaced by `X | Y` in 3.10.
 
@@ -197,7 +198,8 @@ class NamedToNamedConverter(NamedConverter):
 
 		# Convert query.
 		param_conversions = []
-		out_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions), sql)
+		in_names = self.__get_in_names(sql)
+		out_sql = self._in_regex.sub(partial(self.__regex_replace, params, param_conversions, in_names), sql)
 
 		# Convert parameters.
 		out_params = self.__convert_params(params, param_conversions)
@@ -229,7 +231,8 @@ class NamedToNamedConverter(NamedConverter):
 
 		# Convert query.
 		param_conversions = []
-		out_sql = self._in_regex.sub(partial(self.__regex_replace, first_params, param_conversions), sql)
+		in_names = self.__get_in_names(sql)
+		out_sql = self._in_regex.sub(partial(self.__regex_replace, first_params, param_conversions, in_names), sql)
 
 		# Convert parameters.
 		out_params = self.__convert_many_params(itertools.chain((first_params,), iter_params), param_conversions)
@@ -324,10 +327,25 @@ class NamedToNamedConverter(NamedConverter):
 
 		return out_params
 
+	def __get_in_names(self, sql: str) -> Set[Optional[str]]:
+		"""
+		Get the in-names used by the SQL query.
+
+		*sql* (:class:`str`) is the SQL query.
+
+		Returns the in-names (:class:`set` of :class:`str`).
+		"""
+		if not self._expand_tuples:
+			# Only the names of tuple values are generated.
+			return set()
+
+		return {match.group('param') for match in self._in_regex.finditer(sql)}
+
 	def __regex_replace(
 		self,
 		in_params: Dict[str, Any],
 		param_conversions: List[Tuple[bool, str, Union[str, List[str]]]],
+		in_names: Set[Optional[str]],
 		match: Match[str],
 	) -> str:
 		"""
@@ -339,6 +357,9 @@ class NamedToNamedConverter(NamedConverter):
 		*param_conversions* (:class:`list`) will be outputted with each
 		parameter conversion to perform (:class:`tuple`).
 
+		*in_names* (:class:`set` of :class:`str`) contains the in-names which the
+		names of tuple values must differ from.
+
 		*match* (:class:`re.Match`) is the in-parameter match.
 
 		Returns the out-parameter replacement string (:class:`str`).
@@ -382,6 +403,9 @@ class NamedToNamedConverter(NamedConverter):
 				out_replacements = []
 				for i, sub_value in enumerate(value):
 					out_name = f"{in_name}__{i}_sqlp"
+					while out_name in in_names:
+						out_name += "_"
+
 					if self._out_quotes:
 						out_name = _quote_oracle_param(out_name)
 
-- 
2.43.0


From 728f5b5bb97946f6ac6bb062738e30768f5aaff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 8/8] fix: unclosed multiline comments are searched only once

Every line that starts an unclosed comment searched the whole rest of the
query for its end, so the time was quadratic, e.g. strip_comments=True with
'/*\n' repeated.
---
 sqlparams/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..217f5e0 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -10,6 +10,7 @@ from typing import (
 	Dict,  # Replaced by `dict` in 3.9.
 	Iterable,  # Replaced by `collections.abc.Iterable` in 3.9.
 	List,  # Replaced by `list` in 3.9.
+	Match,  # Replaced by `re.Match` in 3.9.
 	Optional,  # Replaced by `X | None` in 3.10.
 	Pattern,  # Replaced by `re.Pattern` in 3.9.
 	Sequence,  # Replaced by `collections.abc.Sequence` in 3.9.
@@ -440,7 +441,9 @@ class SQLParams(object):
 			elif _util.is_sequence(comment_style):
 				# Compile regular expression to strip multiline comment.
 				start_comment, end_comment = comment_style  # type: str
-				out_regexes.append(re.compile("^[ \t]*{start}.*?{end}(?:\n|\r\n)?".format(
+				# - NOTE: When the comment is not closed, the rest of the query is
+				#   matched so that it is searched only once.
+				out_regexes.append(re.compile("^[ \t]*{start}.*?(?:{end}(?:\n|\r\n)?|(?P<unclosed>\\Z))".format(
 					start=re.escape(start_comment),
 					end=re.escape(end_comment),
 				), re.DOTALL | re.M))
@@ -599,6 +602,21 @@ class SQLParams(object):
 		"""
 		return self.__strip_comments
 
+	@staticmethod
+	def __replace_comment(match: Match[str]) -> str:
+		"""
+		Regular expression replace callback.
+
+		*match* (:class:`re.Match`) is the comment match.
+
+		Returns the replacement string (:class:`str`).
+		"""
+		if match.groupdict().get('unclosed') is not None:
+			# Multiline comment is not closed, leave it.
+			return match.group()
+
+		return ""
+
 	def __strip_comments_from_sql(self, sql: str) -> str:
 		"""
 		Strip comments from the SQL.
@@ -609,6 +627,6 @@ class SQLParams(object):
 		"""
 		out_sql = sql
 		for comment_regex in self.__strip_comment_regexes:
-			out_sql = comment_regex.sub("", out_sql)
+			out_sql = comment_regex.sub(self.__replace_comment, out_sql)
 
 		return out_sql
-- 
2.43.0

