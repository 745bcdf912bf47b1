From 3f4a67df4e6e6358fface723439de879010727f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 01/65] fix: quote identifiers containing upper case letters in
 quote_ident_if_needed

---
 postgresql/string.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..40fd58a 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -46,8 +46,11 @@ def quote_ident_if_needed(text):
 	"""
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
+
+	Unquoted identifiers are folded to lower case, so upper case letters need
+	quotes as well.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?xu)
 	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-- 
2.43.0


From 6c87bc8957e6dc7b1a98dfa695b04910d46345a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 02/65] fix: quote the channel names given to listen and
 unlisten

---
 postgresql/driver/pq3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..5717576 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2701,7 +2701,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN ' + quote_ident(x)
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
@@ -2710,7 +2710,8 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			# UNLISTEN * is every channel.
+			qstr += '; UNLISTEN ' + (quote_ident(x) if x != '*' else x)
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From f25ab485eb08fd3deadd0dd27376c57e66dcf836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 03/65] fix: string.split: recognize dollar quotes spanning
 lines, e'' literals and unterminated E' quotes

---
 postgresql/string.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 40fd58a..931ea21 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -52,8 +52,8 @@ def quote_ident_if_needed(text):
 	"""
 	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
-quote_re = re.compile(r"""(?xu)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
+quote_re = re.compile(r"""(?xus)
+	(?<!\w)[Ee]'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
 |	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
 |	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
 |	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
@@ -94,17 +94,18 @@ def split(text):
 		else:
 			endoff = 1
 			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
+			if q in ('E', 'e'):
+				quote = q + "'"
 				end = "'"
 			else:
 				end = quote = q
 
 		# If the end is not the expected quote, it consumed
 		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
+		# does *not* overlap the opening quote, ie an unterminated
+		# quotation at the end of the string.
 		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
+		or match.end() - endoff < match.start() + len(quote):
 			yield (quote, text[match.start()+len(quote):])
 			break
 		else:
@@ -130,7 +131,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From d0da688ccbbc30aa4865d97e0bf72316ae7cf50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 04/65] fix: dbapi20: process %% escapes consistently in
 parameterized queries

---
 postgresql/driver/dbapi20.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..ce4fe55 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -216,6 +216,8 @@ class Cursor(object):
 		kmap = {}
 		transformer = tuple
 		rparts = []
+		# indexes of the unquoted portions without parameters
+		plain = []
 		for part in parts:
 			if part.__class__ is ().__class__:
 				# skip quoted portions
@@ -244,6 +246,7 @@ class Cursor(object):
 						rparts.append(part % kmap)
 				else:
 					# no parameters identified in string
+					plain.append(len(rparts))
 					rparts.append(part)
 
 		if keys:
@@ -254,6 +257,11 @@ class Cursor(object):
 			transformer = partial(convert_keywords, keys)
 			count = len(keys)
 
+		if count:
+			# '%%' is an escape in every unquoted portion of a parameterized query.
+			for i in plain:
+				rparts[i] = rparts[i].replace('%%', '%')
+
 		return (pg_str.unsplit(rparts) if rparts else string, transformer, count)
 
 	def execute(self, statement, parameters = ()):
-- 
2.43.0


From f6d0983ee1adf0274d92b84a6a71c0fa9c7fad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 05/65] fix: bytea codec: accept only octal digits up to \377
 in escapes

---
 postgresql/encodings/bytea.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/encodings/bytea.py b/postgresql/encodings/bytea.py
index 3c406df..a99bc43 100644
--- a/postgresql/encodings/bytea.py
+++ b/postgresql/encodings/bytea.py
@@ -41,10 +41,10 @@ def encode(data):
 				except StopIteration:
 					# requires three digits
 					raise ValueError("incomplete backslash sequence")
-				try:
-					x = int(os, base = 8)
-				except ValueError:
+				if y not in '0123' or os.strip('01234567'):
+					# exactly three octal digits, up to \\377
 					raise ValueError("invalid bytea octal sequence '%s'" %(os,))
+				x = int(os, base = 8)
 			else:
 				raise ValueError("invalid backslash follow '%s'" %(y,))
 		else:
-- 
2.43.0


From 62253822dd3363c857f706166bca7c54451dac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 06/65] fix: pgpassfile: keep white space, skip comment lines

---
 postgresql/pgpassfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ee0ae73..15ef36d 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -7,8 +7,9 @@ Parse pgpass files and subsequently lookup a password.
 import os.path
 
 def split(line, len = len):
-	line = line.strip()
-	if not line:
+	# White space is significant, only remove the end of line.
+	line = line.rstrip('\r\n')
+	if not line or line.startswith('#'):
 		return None
 	r = []
 	continuation = False
-- 
2.43.0


From 4af57c3807b8d9c564e50e0291e22ce287374f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 07/65] fix: versionstring.unsplit: do not write an absent
 state level

---
 postgresql/versionstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..a6413c1 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -42,7 +42,9 @@ def unsplit(vtup: tuple) -> str:
 	"""
 	svtup = [str(x) for x in vtup[:-2] if x is not None]
 	state_class, state_level = vtup[-2:]
-	return '.'.join(svtup) + ('' if state_class is None else state_class + str(state_level))
+	return '.'.join(svtup) + ('' if state_class is None else state_class + (
+		'' if state_level is None else str(state_level)
+	))
 
 def normalize(split_version: tuple) -> tuple:
 	"""
-- 
2.43.0


From 7091b76de9b95cf5a80cb855810800cc5a8b332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 08/65] fix: Notice.serialize: terminate every field and the
 message

---
 postgresql/protocol/element3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..cd7a0aa 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -351,8 +351,8 @@ class Notice(Message, dict):
 	__repr__ = dict_message_repr
 
 	def serialize(self):
-		return b'\x00'.join([
-			k + v for k, v in self.items()
+		return b''.join([
+			k + v + b'\x00' for k, v in self.items()
 			if k and v is not None
 		]) + b'\x00'
 
-- 
2.43.0


From 7828065059b1b73b4c7f64dd80a9775c59f55f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 09/65] fix: WireMessage.serialize: use the data of the message

---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index cd7a0aa..1cb3456 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -163,7 +163,7 @@ class WireMessage(Message):
 		self.data = typ_data[1]
 
 	def serialize(self):
-		return self[1]
+		return self.data
 
 	@classmethod
 	def parse(typ, data):
-- 
2.43.0


From 432a5dadfa2bc5fc2e86c678c9cbd3772230e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 10/65] fix: refuse malformed attribute sizes in Tuple, Bind
 and Function parsing

---
 postgresql/protocol/element3.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1cb3456..44bb72f 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -501,9 +501,13 @@ class Tuple(TupleMessage):
 				al = ulong_unpack(size)
 				ao = offset
 				offset = ao + al
+				if offset > len(data):
+					raise ValueError("insufficient data for attribute")
 				att = data[ao:offset]
 			add(att)
 			natts -= 1
+		if offset != len(data):
+			raise ValueError("extra data at end of tuple message")
 		return T(atts)
 	try:
 		parse = parse_tuple_message
@@ -781,6 +785,8 @@ class Bind(Message):
 				al = ulong_unpack(size)
 				ao = offset
 				offset = ao + al
+				if offset > len(data):
+					raise ValueError("insufficient data for attribute")
 				att = data[ao:offset]
 			args.append(att)
 			natts -= 1
@@ -789,6 +795,8 @@ class Bind(Message):
 		ao = offset + 2
 		offset = ao + (2 * rfc)
 		rformats = unpack(("2s" * rfc), data[ao:offset])
+		if offset != len(data):
+			raise ValueError("extra data at end of bind message")
 
 		return typ(name, statement, aformats, args, rformats)
 
@@ -914,10 +922,14 @@ class Function(Message):
 				al = ulong_unpack(size)
 				ao = offset
 				offset = ao + al
+				if offset > len(data):
+					raise ValueError("insufficient data for attribute")
 				att = data[ao:offset]
 			args.append(att)
 			natts -= 1
 
+		if len(data) - offset != 2:
+			raise ValueError("invalid result format in function message")
 		return typ(oid, aformats, args, data[offset:])
 
 class CopyBegin(Message):
-- 
2.43.0


From 7548f8419167b5ccafd4140f169550448ed39a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 11/65] fix: copyman.WireState: refuse impossible message sizes

---
 postgresql/copyman.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..126a890 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -189,7 +189,10 @@ class WireState(object):
 			if len(size_fragment) == 4:
 				# The size fragment is completed; only part
 				# of the fragment remains to be consumed.
-				remaining_bytes = getlen(size_fragment) - o
+				remaining_bytes = getlen(size_fragment)
+				if remaining_bytes < 4:
+					raise ValueError("message header contained an invalid size")
+				remaining_bytes -= o
 				size_fragment = b''
 			else:
 				assert len(size_fragment) < 4
@@ -235,6 +238,8 @@ class WireState(object):
 					break
 				# Update remaining_bytes to include the header, and start over.
 				remaining_bytes = getlen(view[1:5]) + 1
+				if remaining_bytes < 5:
+					raise ValueError("message header contained an invalid size")
 
 		# Update the state for the next update.
 		self.remaining_bytes, self.size_fragment = (
-- 
2.43.0


From 3ce5fa5f8185809bff1985865d7e508e3203468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 12/65] fix: numeric NaN could not be sent or received

---
 postgresql/types/io/stdlib_decimal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..d5e50f9 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,8 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+# sign field of NaN, 0xC000 as a signed short
+numeric_nan = -16384
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -41,6 +43,8 @@ def numeric_pack(x,
 	x = x.as_tuple()
 	if x.exponent == 'F':
 		raise ValueError("numeric does not support infinite values")
+	if x.exponent in ('n', 'N'):
+		return pack(((0, 0, numeric_nan, 0), ()))
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -148,6 +152,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] == numeric_nan:
+		return Decimal('NaN')
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From 0ea048c58b4fcc8cb0f97cdbc25fc4014f543487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 13/65] fix: timetz offsets had the wrong sign

---
 postgresql/types/io/stdlib_datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..f8c57b7 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -188,7 +188,8 @@ def timetz_pack(x,
 	"""
 	td = x.tzinfo.utcoffset(x)
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	# PostgreSQL's zone is the number of seconds *west* of UTC.
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +200,8 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	# PostgreSQL's zone is the number of seconds *west* of UTC.
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From b11e54db3d7c52a913e12cfef7dfd6180d5801ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 14/65] fix: FixedOffset dropped the seconds of an offset

---
 postgresql/python/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..df114b1 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -16,7 +16,7 @@ class FixedOffset(datetime.tzinfo):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
 		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, self._offset)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
-- 
2.43.0


From 554862380547ec043f00a93cd6916d16b97e615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 15/65] fix: times sent as doubles lost a microsecond

---
 postgresql/types/io/lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..f84d98a 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -76,7 +76,9 @@ date_pack, date_unpack = long_pack, long_unpack
 def mktimetuple(ts, floor = floor):
 	'make a pair of (seconds, microseconds) out of the given double'
 	seconds = floor(ts)
-	return (int(seconds), int(1000000 * (ts - seconds)))
+	# A double rarely holds the exact fraction, so take the nearest microsecond.
+	ms = round(1000000 * (ts - seconds))
+	return (int(seconds), ms) if ms < 1000000 else (int(seconds) + 1, 0)
 
 def mktimetuple64(ts, divmod = divmod):
 	'make a pair of (seconds, microseconds) out of the given long'
-- 
2.43.0


From 3dc869ee6eb1e2ec07941e6eb4e1254b2f7f714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 16/65] fix: malformed array and row data was accepted

---
 postgresql/types/io/lib.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f84d98a..5be0ef3 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -357,6 +357,8 @@ def record_unpack(data,
 	"""
 	columns = long_unpack(data)
 	offset = 4
+	if columns < 0:
+		raise ValueError("invalid number of columns: %d" %(columns,))
 
 	for x in range(columns):
 		typid = oid_unpack(data[offset:offset+4])
@@ -453,7 +455,10 @@ def elements_unpack(data, offset,
 			yield None
 		else:
 			sizeof_el = long_unpack(lend)
-			yield data[offset:offset+sizeof_el]
+			el = data[offset:offset+sizeof_el]
+			if sizeof_el < 0 or len(el) != sizeof_el:
+				raise ValueError("insufficient data left in array")
+			yield el
 			offset += sizeof_el
 
 def array_unpack(data,
@@ -475,4 +480,7 @@ def array_unpack(data,
 	#dlb = unpack("!%dl"%(2 * ndim,), data, 12)
 	dims = [long_unpack(data[x:x+4]) for x in range(12, end, 8)]
 	lbs = [long_unpack(data[x:x+4]) for x in range(16, end, 8)]
+	for x in dims:
+		if x < 0:
+			raise ValueError("invalid array dimension: %d" %(x,))
 	return (flags, typid, dims, lbs, elements_unpack(data, end))
-- 
2.43.0


From 8d4ed04601000c3a706a523553dc406e3b02e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 17/65] fix: Array accepted ragged nestings and out of range
 indexes

---
 postgresql/types/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..5880436 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -255,12 +255,17 @@ class Array(object):
 	@classmethod
 	def unroll_nest(typ, hier, dimensions, depth = 0):
 		dsize = dimensions and dimensions[depth] or 0
+		if depth and hier.__class__ is not list:
+			raise ValueError("element is not a list at depth " + str(depth))
 		if len(hier) != dsize:
 			raise ValueError("list size not consistent with dimensions at depth " + str(depth))
 		r = []
 		ndepth = depth + 1
 		if ndepth == len(dimensions):
 			# at the bottom
+			for x in hier:
+				if x.__class__ is list:
+					raise ValueError("list not consistent with dimensions at depth " + str(ndepth))
 			r = hier
 		else:
 			# go deeper
@@ -530,8 +535,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if not (-l <= item < l):
+				raise IndexError("index {0} is out of range".format(item))
+			if item < 0:
+				item = item + l
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From 3b927839220ea062e62c5c3fd01a7480a072bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 18/65] fix: Array default upper bounds ignored the lower
 bounds

---
 postgresql/types/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 5880436..45b5355 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -359,11 +359,11 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				upperbounds = tuple([lb + nelements - 1 for lb in lowerbounds[:1]])
 				dimensions = (nelements,)
 
 		# consistency..
-		if len(lowerbounds) != len(upperbounds):
+		if not (len(lowerbounds) == len(upperbounds) == len(dimensions)):
 			raise ValueError("number of lowerbounds inconsistent with upperbounds")
 
 		rob = super().__new__(typ)
@@ -470,6 +470,8 @@ class Array(object):
 		Like `get_element`, but with SQL indirection semantics. Notably, returns
 		`None` on IndexError.
 		"""
+		if self.dimensions and len(address) != len(self.dimensions):
+			raise ValueError("given axis sequence is inconsistent with number of dimensions")
 		try:
 			a = [a - lb for (a, lb) in zip(address, self.lowerbounds)]
 			# get_element accepts negatives, so check the converted sequence.
-- 
2.43.0


From c0a5cffb7038eed4162d5d8ad0b5eadc8d340b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 19/65] fix: inet values were sent with a netmask of 0 and
 received without theirs

---
 postgresql/types/io/lib.py        | 10 ++++++++--
 postgresql/types/io/pg_network.py | 10 +++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 5be0ef3..6217f96 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -278,14 +278,20 @@ def net_pack(triple,
 		6: 3,
 	},
 	len = len,
+	cidr = True,
 ):
 	"""
 	net_pack((family, mask, data))
 
-	Pack Postgres' inet/cidr data structure.
+	Pack Postgres' inet/cidr data structure. A mask of `None` signifies a lone
+	address.
 	"""
 	family, mask, data = triple
-	return bytes((fmap[family], mask or 0, 0 if mask is None else 1, len(data))) + data
+	if mask is None:
+		# All bits are significant.
+		mask = len(data) * 8
+		cidr = False
+	return bytes((fmap[family], mask, 1 if cidr else 0, len(data))) + data
 
 def net_unpack(data,
 	# Map IP version number to PGSQL src/include/utils/inet.h.
diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..15ccd1f 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -8,9 +8,9 @@ oid_to_type = {
 	CIDROID: ipaddress._BaseNetwork,
 }
 
-def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
+def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	return pack((a.version, a.network.prefixlen, a.packed), cidr = False)
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
@@ -18,7 +18,11 @@ def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 
 def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
 	version, mask, data = unpack(data)
-	return Constructor(data)
+	a = Constructor(data)
+	if mask != a.max_prefixlen:
+		# The address has a netmask.
+		return ipaddress.ip_interface((data, mask))
+	return a
 
 def cidr_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_network):
 	version, mask, data = unpack(data)
-- 
2.43.0


From 60880caccb4899b0cd46e2c2f36dc8001b210322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 20/65] fix: Varbit indexing, and comparing a Bit with a
 Varbit, raised

---
 postgresql/types/bitwise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..999fb56 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -41,7 +41,7 @@ class Varbit(object):
 		)
 
 	def __eq__(self, ob):
-		if not isinstance(ob, type(self)):
+		if not isinstance(ob, Varbit):
 			ob = type(self)(ob)
 		return ob.bits == self.bits and ob.data == self.data
 
@@ -63,14 +63,14 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
 
 	def __getitem__(self, item):
 		if isinstance(item, slice):
-			return type(self)(str(self)[item])
+			return Varbit(str(self)[item])
 		else:
 			return self.getbit(item)
 
-- 
2.43.0


From f302946253f56d6a1108a0e8e0ce37c3f44d9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 21/65] fix: oidvector and int2vector routines did not use the
 vectors' wire format

---
 postgresql/types/io/lib.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 6217f96..a190b11 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -217,39 +217,39 @@ def timetz64_unpack(data, ql_unpack = ql_unpack, mktimetuple64 = mktimetuple64):
 	ts, tz = ql_unpack(data)
 	return (mktimetuple64(ts), tz)
 
-# oidvectors are 128 bytes, so pack the number of Oids in self
-# and justify that to 128 by padding with \x00.
-def oidvector_pack(seq, pack = struct.pack):
+# oidvectors and int2vectors are transferred as one dimensional arrays
+# whose lower bound is zero.
+def oidvector_pack(seq):
 	"""
 	Given a sequence of Oids, pack them into the serialized form.
 
 	An oidvector is a type used by the PostgreSQL catalog.
 	"""
-	return pack("!%dL"%(len(seq),), *seq).ljust(128, '\x00')
+	return array_pack((0, 26, (len(seq),), (0,), map(oid_pack, seq)))
 
-def oidvector_unpack(data, unpack = struct.unpack):
+def oidvector_unpack(data):
 	"""
-	Given a serialized oidvector(32 longs), unpack it into a list of unsigned integers.
+	Given a serialized oidvector, unpack it into a list of unsigned integers.
 
-	An int2vector is a type used by the PostgreSQL catalog.
+	An oidvector is a type used by the PostgreSQL catalog.
 	"""
-	return unpack("!32L", data)
+	return list(map(oid_unpack, array_unpack(data)[-1]))
 
-def int2vector_pack(seq, pack = struct.pack):
+def int2vector_pack(seq):
 	"""
 	Given a sequence of integers, pack them into the serialized form.
 
 	An int2vector is a type used by the PostgreSQL catalog.
 	"""
-	return pack("!%dh"%(len(seq),), *seq).ljust(64, '\x00')
+	return array_pack((0, 21, (len(seq),), (0,), map(short_pack, seq)))
 
-def int2vector_unpack(data, unpack = struct.unpack):
+def int2vector_unpack(data):
 	"""
 	Given a serialized int2vector, unpack it into a list of integers.
 
 	An int2vector is a type used by the PostgreSQL catalog.
 	"""
-	return unpack("!32h", data)
+	return list(map(short_unpack, array_unpack(data)[-1]))
 
 def varbit_pack(bits_data, long_pack = long_pack):
 	r"""
-- 
2.43.0


From e52b378cbc70fb313a5326a8492cad701beaf8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 22/65] fix: message types above 127 in the C message buffer

A type byte of 128 or more was a negative index into message_types:
memory outside of the tuple was used as an object.
---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..5688497 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From 04a3e86df37195a2792da123bed9a3cdff533813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 23/65] fix: invalid message sizes and counts in the C buffer's
 read()

read() ignored the error of counting the messages (SystemError instead of
ValueError), and counted past the requested number of messages.
---
 postgresql/port/_optimized/buffer.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 5688497..4fe07ae 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -196,8 +196,11 @@ p_memcpy(char *dst, struct p_place *p, uint32_t amount)
 	return(amount - amount_left);
 }
 
+/*
+ * p_count - number of complete messages, at most `limit` unless it's negative.
+ */
 static Py_ssize_t
-p_length(PyObject *self)
+p_count(PyObject *self, Py_ssize_t limit)
 {
 	char header[5];
 	long msg_count = 0;
@@ -210,7 +213,7 @@ p_length(PyObject *self)
 	p.list = pb->position.list;
 	p.offset = pb->position.offset;
 
-	while (p.list != NULL)
+	while (p.list != NULL && msg_count != limit)
 	{
 		copy_amount = p_memcpy(header, &p, 5);
 		if (copy_amount < 5)
@@ -236,6 +239,12 @@ p_length(PyObject *self)
 	return(msg_count);
 }
 
+static Py_ssize_t
+p_length(PyObject *self)
+{
+	return(p_count(self, -1));
+}
+
 static PySequenceMethods pq_ms_as_sequence = {
 	(lenfunc) p_length, 0
 };
@@ -404,7 +413,7 @@ p_next(PyObject *self)
 static PyObject *
 p_read(PyObject *self, PyObject *args)
 {
-	int cur_msg, msg_count = -1, msg_in = 0;
+	int cur_msg, msg_count = -1;
 	struct p_place p;
 	struct p_buffer *pb;
 	PyObject *rob = NULL;
@@ -416,10 +425,14 @@ p_read(PyObject *self, PyObject *args)
 	p.list = pb->position.list;
 	p.offset = pb->position.offset;
 
-	msg_in = p_length(self);
-	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
+	msg_count = p_count(self, msg_count);
+	if (msg_count < 0)
+		return(NULL);
 
 	rob = PyTuple_New(msg_count);
+	if (rob == NULL)
+		return(NULL);
+
 	for (cur_msg = 0; cur_msg < msg_count; ++cur_msg)
 	{
 		PyObject *msg_tup = NULL;
-- 
2.43.0


From 19e341197b0d445041dd72a53178d7ab9457104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 24/65] fix: swap_int8_unpack refuses buffers other than bytes

---
 postgresql/port/_optimized/structlib.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/postgresql/port/_optimized/structlib.c b/postgresql/port/_optimized/structlib.c
index 21ae145..4a03eab 100644
--- a/postgresql/port/_optimized/structlib.c
+++ b/postgresql/port/_optimized/structlib.c
@@ -579,10 +579,6 @@ swap_int8_unpack(PyObject *self, PyObject *arg)
 	Py_ssize_t len;
 	PY_LONG_LONG i;
 
-	c = PyBytes_AsString(arg);
-	if (PyErr_Occurred())
-		return(NULL);
-
 	if (PyObject_AsReadBuffer(arg, (const void **) &c, &len))
 		return(NULL);
 	if (len < 8)
-- 
2.43.0


From 33faaa4202fcb2ceb8eddffacf9545b68ab08bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 25/65] fix: the C cat_messages writes a header for the void
 message

---
 postgresql/port/_optimized/element3.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index 7ea2b82..539a050 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -627,6 +627,17 @@ cat_messages(PyObject *self, PyObject *messages_in)
 			 */
 			msg_type_size = PyBytes_GET_SIZE(msg_type);
 
+			/*
+			 * Void messages have no header either.
+			 */
+			if (msg_type_size == 0 && PyBytes_GET_SIZE(serialized) == 0)
+			{
+				Py_DECREF(serialized);
+				Py_DECREF(msg_type);
+				++cmsg;
+				continue;
+			}
+
 			/* realloc the buf for the new copy data */
 			INCSIZET(bufsize, 4 + msg_type_size);
 			INCSIZET(bufsize, PyBytes_GET_SIZE(serialized));
-- 
2.43.0


From 97b256fcdb51813b13687ab2887ff596c255e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 26/65] fix: compose with a sequence that fails in the C
 functools

A sequence whose length or items cannot be had caused a SystemError or a crash.
---
 postgresql/port/_optimized/functools.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/postgresql/port/_optimized/functools.c b/postgresql/port/_optimized/functools.c
index 9a0deea..0bc2325 100644
--- a/postgresql/port/_optimized/functools.c
+++ b/postgresql/port/_optimized/functools.c
@@ -320,9 +320,19 @@ compose(PyObject *self, PyObject *args)
 		 * Arbitrary sequence.
 		 */
 		len = PySequence_Length(seq);
+		if (len < 0)
+		{
+			Py_DECREF(rob);
+			return(NULL);
+		}
 		for (i = 0; i < len; ++i)
 		{
 			x = PySequence_GetItem(seq, i);
+			if (x == NULL)
+			{
+				Py_DECREF(rob);
+				return(NULL);
+			}
 			argt = PyTuple_New(1);
 			PyTuple_SET_ITEM(argt, 0, rob);
 			rob = PyObject_CallObject(x, argt);
-- 
2.43.0


From 64236f500076329f06f284a27ff666b8f19eb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:16 +0000
Subject: [PATCH 27/65] fix: reference leak in the C cat_messages when
 serialize() gives no bytes

---
 postgresql/port/_optimized/element3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index 539a050..742397d 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -601,6 +601,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 					PyObject_TypeName(ob),
 					PyObject_TypeName(serialized)
 				);
+				Py_DECREF(serialized);
 				goto fail;
 			}
 
-- 
2.43.0


From 07652b07dea38c1c6010e3ce24ada7902f89fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 28/65] fix: describing a portal that returns no rows was a
 protocol violation

---
 postgresql/protocol/xact3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..7f8cceb 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -341,6 +341,8 @@ class Instruction(Transaction):
 				element.TupleDescriptor.type : (
 					element.TupleDescriptor.parse, None
 				),
+				# A portal that does not return rows.
+				element.NoData.type : (element.NoData.parse, None),
 			},
 			# NoData or TupleDescriptor
 			{
-- 
2.43.0


From 94eb96cf2ea0d8160691aafd6249648fb8d8db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 29/65] fix: an error in a function call was a protocol
 violation

---
 postgresql/protocol/xact3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 7f8cceb..6722add 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -522,7 +522,11 @@ class Instruction(Transaction):
 					cmd = COMMANDS[offset]
 					paths = HOOK[cmd.type]
 					# On a new command, setup the new step.
-					current_step = 0
+					# A function call that failed has no result,
+					# only its state(Ready) message is left.
+					current_step = (
+						1 if cmd.type == element.Function.type else 0
+					)
 					continue
 				elif x[0] in AsynchronousMap:
 					if x not in self._asyncs:
-- 
2.43.0


From bdd0bdeff87af6a8525426dd552ec57e4682a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 30/65] fix: errors with a localized severity ended the
 connection

---
 postgresql/protocol/xact3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6722add..3800471 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -495,7 +495,9 @@ class Instruction(Transaction):
 				if x[0] == ERROR_TYPE:
 					em = ERROR_PARSE(x[1])
 					# Is it fatal?
-					self.fatal = fatal = em[b'S'].upper() != b'ERROR'
+					# 'S' is in the language of lc_messages; 'V' (9.6) is not.
+					self.fatal = fatal = \
+						em.get(b'V', em.get(b'S', b'')).upper() != b'ERROR'
 					self.error_message = em
 					if fatal is True:
 						# Can't sync up if the session is closed.
-- 
2.43.0


From 9a01d1bdea53fc1ff609929bf14ec3446fba91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 31/65] fix: identical notifications received together were
 delivered once

---
 postgresql/protocol/xact3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 3800471..d097a09 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -531,7 +531,7 @@ class Instruction(Transaction):
 					)
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					if count not in self._asyncs:
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
@@ -540,7 +540,8 @@ class Instruction(Transaction):
 							# notify the user, but continue...
 							sys.excepthook(*sys.exc_info())
 						# it's been processed, so don't process it again.
-						self._asyncs.append(x)
+						# (identified by position; equal messages are separate)
+						self._asyncs.append(count)
 				else:
 					##
 					# Procotol violation.
-- 
2.43.0


From d1869ccdc91264bf4a5ba4b8eb091873ee830efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 32/65] fix: an error in COPY FROM STDIN could leave a surplus
 ready message or hang

---
 postgresql/protocol/xact3.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index d097a09..7c42adc 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -362,7 +362,7 @@ class Instruction(Transaction):
 			{
 				element.Tuple.type : (element.Tuple.parse, 1),
 				element.CopyToBegin.type : (element.CopyToBegin.parse, 2),
-				element.CopyFromBegin.type : (element.CopyFromBegin.parse, 3),
+				element.CopyFromBegin.type : (element.CopyFromBegin.parse, 4),
 				element.Null.type : (element.Null.parse, None),
 				element.Complete.type : (element.Complete.parse, None),
 			},
@@ -381,6 +381,10 @@ class Instruction(Transaction):
 			{
 				element.Complete.type : (element.Complete.parse, None),
 			},
+			# 4: Complete. (COPY FROM STDIN)
+			{
+				element.Complete.type : (element.Complete.parse, None),
+			},
 		),
 
 		element.Synchronize.type : (
@@ -390,6 +394,22 @@ class Instruction(Transaction):
 		element.Flush.type : None,
 	}
 
+	# When a COPY FROM STDIN fails, the Synchronize message sent with the Execute
+	# has either been dropped as part of the COPY, or it has yet to be answered.
+	# The answer to Close identifies the point where both are synchronized.
+	CopyErrorSequence = (
+		element.SynchronizeMessage,
+		element.ClosePortal(b''),
+		element.SynchronizeMessage,
+	)
+	copy_error_hook = dict(hook)
+	copy_error_hook[element.Close.type] = (
+		{
+			element.Ready.type : (element.Ready.parse, 0),
+			element.CloseComplete.type : (element.CloseComplete.parse, None),
+		},
+	)
+
 	initial_state = (
 		(),     # last messages,
 		(0, 0), # request position, response position
@@ -510,6 +530,8 @@ class Instruction(Transaction):
 						element.Function.type, element.Query.type
 					):
 						# Adjust the offset forward until the Sync message is found.
+						copying = cmd.type == element.Execute.type \
+							and current_step == 4
 						for offset in range(offset, NCOMMANDS):
 							if COMMANDS[offset] is element.SynchronizeMessage:
 								break
@@ -518,6 +540,13 @@ class Instruction(Transaction):
 							# It's done.
 							self.state = Complete
 							return count
+						if copying:
+							self.hook = HOOK = self.copy_error_hook
+							self.messages = self.CopyErrorSequence
+							self.commands = COMMANDS = \
+								COMMANDS[:offset] + self.CopyErrorSequence[1:]
+							NCOMMANDS = len(COMMANDS)
+							self.state = (Sending, self.standard_sent)
 					##
 					# Not quite done, the state(Ready) message still
 					# needs to be received.
-- 
2.43.0


From 46b52cef6c8fbf832f431efa1adef9e572ffe730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 33/65] fix: data messages following an error were accepted

---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 7c42adc..0a316d5 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -628,7 +628,8 @@ class Instruction(Transaction):
 		if offset == NCOMMANDS:
 			# transaction complete.
 			self.state = Complete
-		elif cmd.type in SWITCH_TYPES and processed:
+		elif cmd.type in SWITCH_TYPES and processed and current_step != 0:
+			# (After an error the command starts over with step 0.)
 			# Check the context to identify if the state should be
 			# switched to an optimized processor.
 			last = processed[-1]
-- 
2.43.0


From 4895768c1328baae0161336f9baee0e19f4f2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:17 +0000
Subject: [PATCH 34/65] fix: use the severity that is not localized for
 fatality and warnings

---
 postgresql/driver/pq3.py | 4 +++-
 postgresql/exceptions.py | 4 +++-
 postgresql/message.py    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5717576..b4abd5c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -48,6 +48,7 @@ import warnings
 # to names used by message.Message.
 notice_field_to_name = {
 	message_types[b'S'[0]] : 'severity',
+	message_types[b'V'[0]] : 'severity_nonlocalized',
 	message_types[b'C'[0]] : 'code',
 	message_types[b'M'[0]] : 'message',
 	message_types[b'D'[0]] : 'detail',
@@ -578,7 +579,8 @@ class TypeIO(pg_api.TypeIO):
 		m = fields.pop('message')
 		c = fields.pop('code')
 
-		if fields['severity'].upper() == 'WARNING':
+		severity = fields.get('severity_nonlocalized') or fields['severity']
+		if severity.upper() == 'WARNING':
 			MessageType = self.lookup_warning(c)
 
 		message = MessageType(m, code = c, details = fields,
diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index 5d71d01..51c1088 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -100,7 +100,9 @@ class Error(Message, Exception):
 
 	@property
 	def fatal(self):
-		f = self.details.get('severity')
+		# The severity is translated to the server's lc_messages; use
+		# the form that is not, when it is given. (9.6 and later)
+		f = self.details.get('severity_nonlocalized') or self.details.get('severity')
 		return None if f is None else f in ('PANIC', 'FATAL')
 
 class DriverError(Error):
diff --git a/postgresql/message.py b/postgresql/message.py
index 7bbe77d..18d7180 100644
--- a/postgresql/message.py
+++ b/postgresql/message.py
@@ -118,7 +118,9 @@ class Message(Message):
 		)
 
 	# keys to filter in .details
-	standard_detail_coverage = frozenset(['message', 'severity', 'file', 'function', 'line',])
+	standard_detail_coverage = frozenset([
+		'message', 'severity', 'severity_nonlocalized', 'file', 'function', 'line',
+	])
 
 	def emit(self, starting_point = None):
 		"""
-- 
2.43.0


From cc65ff2edbabf9fc0b1b689b218f2fb329b77dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:15 +0000
Subject: [PATCH 35/65] fix: any message following a password was taken for an
 authentication result

---
 postgresql/protocol/xact3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 0a316d5..494c926 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -214,6 +214,17 @@ class Negotiation(Transaction):
 				self.unsupported_auth_request(req)
 				return
 			x = (yield (element.Password(pw),))
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
-- 
2.43.0


From f6c369457facacf54d7138c4037f83a23f501707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:32 +0000
Subject: [PATCH 36/65] fix: Row.get() missed the first item by negative index
 and took no default

---
 postgresql/types/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 45b5355..7a61297 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -581,16 +581,16 @@ class Row(tuple):
 		idx = self.keymap[i]
 		return gi(self, idx)
 
-	def get(self, i, gi = tuple.__getitem__, len = len):
+	def get(self, i, default = None, gi = tuple.__getitem__, len = len):
 		if type(i) is int:
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
 			if idx is not None:
 				return gi(self, idx)
-		return None
+		return default
 
 	def keys(self):
 		return self.keymap.keys()
-- 
2.43.0


From 26620a1d612c83a70775530546fe98c06ca62802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:32 +0000
Subject: [PATCH 37/65] fix: Row.items() paired names with other columns'
 values when a name was repeated

---
 postgresql/types/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 7a61297..08b403b 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -599,7 +599,8 @@ class Row(tuple):
 		return iter(self)
 
 	def items(self):
-		return zip(iter(self.column_names), iter(self))
+		for k, i in sorted(self.keymap.items(), key = get1):
+			yield (k, tuple.__getitem__(self, i))
 
 	def index_from_key(self, key):
 		return self.keymap.get(key)
-- 
2.43.0


From 08fa73b0306f02f466d30badc7712c0a8e201053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:32 +0000
Subject: [PATCH 38/65] fix: rows of cursors made from an identifier could not
 be accessed by name

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index b4abd5c..492c79e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1119,7 +1119,7 @@ class Cursor(Output, pg_api.Cursor):
 				if m.type == tupledesc:
 					typio = self.database.typio
 					self._output = m
-					self._output_attmap = typio.attribute_map(self._output)
+					self._output_attmap = dict(typio.attribute_map(self._output))
 					self._row_constructor = typio.RowTypeFactory(self._output_attmap)
 					# tuple output
 					self._output_io = typio.resolve_descriptor(
-- 
2.43.0


From 6a1001507d5f7204b28ef2a7d796281180501036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 39/65] fix: an advisory lock acquired more than once was
 released by the first release()

---
 postgresql/alock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..28716cc 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,7 +104,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From 8db473f162cdda54a7d2ce13576ae181a32f9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 40/65] fix: notifications received just before a connection
 failed were lost

The notification manager puts failed connections aside before scanning the
rest for received notifications, so those that were received along with the
failure were never emitted.
---
 postgresql/notifyman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..e9e48ce 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -90,6 +90,10 @@ class NotificationManager(object):
 				# failed to collect notifies; put in exception list.
 				# It is very unlikely that this is *not* a FATAL error.
 				x.append(db)
+		if x:
+			# The failing connections will not be scanned again; collect what
+			# was received before the failure.
+			self._pull_from_connections()
 		self.trash(x)
 
 	def trash(self, connections):
-- 
2.43.0


From 67f0b0db9d5535c58753c4c527ccbb6ef076f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 41/65] fix: a zero timeout kept the notification manager from
 polling the wires

With a timeout of zero the iterator stopped before ever checking the
connections for data, so only the notifications that other requests had
happened to receive were emitted.
---
 postgresql/notifyman.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index e9e48ce..f9dfca5 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -80,6 +80,10 @@ class NotificationManager(object):
 		r, w, x = select(check, (), check, max_duration)
 		# Make sure the connection's _notifies get filled.
 		for db in r:
+			if self.timeout == 0 and db.pq.xact is not None:
+				# Polling a connection in use(COPY); what arrived belongs to the
+				# request in progress, which also receives the notifies.
+				continue
 			# Collect any pending events.
 			try:
 				# Even if db is in a failed transaction, this
@@ -200,6 +204,7 @@ class NotificationManager(object):
 
 	def __next__(self, time = time):
 		checked_wire = True
+		polled = False
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
@@ -212,7 +217,7 @@ class NotificationManager(object):
 					# that there are no NOTIFYs to be read.
 					# This can be used to poll a set of
 					# connections instead of listening.
-					if self.timeout == 0 or not self.connections:
+					if not self.connections or (self.timeout == 0 and polled):
 						raise
 
 			# timeout happened? yield the "idle" event.
@@ -224,7 +229,7 @@ class NotificationManager(object):
 			if not checked_wire and self.connections:
 				# Nothing queued up, check connections if any.
 				self._wait_on_wires()
-				checked_wire = True
+				checked_wire = polled = True
 			else:
 				checked_wire = False
 			self._pull_from_connections()
-- 
2.43.0


From 77418ebe19c4a8c2d0478debd8cee6e0216ddc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 42/65] fix: environment variables for settings were not
 collected

PGTZ, PGDATESTYLE, PGCLIENTENCODING and PGGEQO were read into a list that was
never yielded.
---
 postgresql/clientparameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..fc8a419 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -201,9 +201,9 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	envvar_settings_map = ((
 		(modifier(k), v) for k,v in default_envvar_settings_map.items()
 	))
-	settings = [
-		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
-	]
+	for k, v in envvar_settings_map:
+		if k in environ:
+			yield (('settings', v,), environ[k])
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
-- 
2.43.0


From 582e87f1dccbebc581d2581470bd40eed379d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 43/65] fix: PGREQUIRESSL set the sslmode to a tuple

The value is the mode, 'require'; a tuple is not an sslmode.
---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index fc8a419..0a1f510 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield ('sslmode',), 'require'
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
-- 
2.43.0


From a56c2e8a4d647e957f80fc40d477f637f0beadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 44/65] fix: the prompt title given to resolve_password was
 ignored

The argument was overwritten by the parameters' key, and without any title the
prompt could not be built.
---
 postgresql/clientparameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 0a1f510..b81f919 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -391,11 +391,12 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	# Always remove the key, but only use it when no title is given.
+	default_prompt_title = parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
+			prompt = prompt_title or default_prompt_title or ''
 			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
-- 
2.43.0


From dc98820da36c01808d6ef0aeadeb2a2e3d81bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 45/65] fix: a setting option without a value raised NameError

OptionValueError was not imported; the option parser reports it as a usage
error.
---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index b81f919..77f6c7b 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -281,7 +281,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
-- 
2.43.0


From 9aa00ecf620128047bc5e967e426718f7231ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 46/65] fix: IRI path components were not escaped when written
 nor decoded when read

The arguments of the substitution were swapped: the database was used as the
replacement of "/", which left it unescaped and interpreted its backslashes.
Reading did not decode the percent escapes of the database.
---
 postgresql/iri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..6851f9c 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -55,10 +55,10 @@ def structure(d, fieldproc = ri.unescape):
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
+			cpd['database'] = fieldproc(path[0])
 		path = path[1:]
 		if path:
-			cpd['path'] = path
+			cpd['path'] = [fieldproc(x) for x in path]
 
 	settings = {}
 	if query:
@@ -158,7 +158,7 @@ def construct(x, obscure_password = False):
 			None if 'port' not in x else str(x['port'])
 		)),
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
-- 
2.43.0


From 613abe5b1f9e0204d1f93dc91115f194c42e3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 47/65] fix: percent escapes in bracketed IRI hosts were not
 decoded

They are written for zone identifiers of IPv6 addresses and for the paths of
UNIX sockets, but were taken literally when read.
---
 postgresql/iri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 6851f9c..097301e 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -46,9 +46,9 @@ def structure(d, fieldproc = ri.unescape):
 		if host.startswith('[') and host.endswith(']'):
 			host = host[1:-1]
 			if host.startswith('unix:'):
-				cpd['unix'] = host[len('unix:'):].replace(':','/')
+				cpd['unix'] = fieldproc(host[len('unix:'):].replace(':','/'))
 			else:
-				cpd['host'] = host
+				cpd['host'] = fieldproc(host)
 		else:
 			cpd['host'] = fieldproc(host)
 
-- 
2.43.0


From 44d16b80bce0a494804389f8ccfb653d5020d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 48/65] fix: an IRI with a query key without a value could not
 be parsed

`None` stands for the absent value, as it does when IRIs are written.
---
 postgresql/iri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 097301e..8fed53d 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -70,9 +70,9 @@ def structure(d, fieldproc = ri.unescape):
 			if k.startswith('[') and k.endswith(']'):
 				k = k[1:-1]
 				if k != 'settings' and k not in cpd:
-					cpd[fieldproc(k)] = fieldproc(v)
+					cpd[fieldproc(k)] = v if v is None else fieldproc(v)
 			elif k:
-				settings[fieldproc(k)] = fieldproc(v)
+				settings[fieldproc(k)] = v if v is None else fieldproc(v)
 			# else: ignore empty query keys
 
 	if frag:
-- 
2.43.0


From 8e8341ccae03331c8510cd251acd9d918f7e4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 49/65] fix: settings that are not strings could not be written
 in an IRI

Like driver parameters, they are written as text. A parameter of `None` is
written without a value instead of as the text "None".
---
 postgresql/iri.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 8fed53d..8bfef40 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -109,7 +109,9 @@ def construct(x, obscure_password = False):
 			search_path = [(k,v) for k,v in siter if k == 'search_path']
 			search_path.append((None,None))
 			search_path = search_path[-1][1]
-		no_path_settings = [(k,v) for k,v in siter if k != 'search_path']
+		no_path_settings = [
+			(k, v if v is None else str(v)) for k,v in siter if k != 'search_path'
+		]
 		if not no_path_settings:
 			no_path_settings = None
 
@@ -140,7 +142,7 @@ def construct(x, obscure_password = False):
 	if obscure_password and password is not None:
 		password = '***'
 	driver_params = list({
-		'[' + k + ']' : str(v) for k,v in x.items()
+		'[' + k + ']' : v if v is None else str(v) for k,v in x.items()
 		if k not in (
 			'user', 'password', 'port', 'database', 'ssl',
 			'path', 'host', 'unix', 'ipv','settings'
-- 
2.43.0


From 82e89e803e650500d5e9c521b641349c2fc348e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 50/65] fix: an "@" in the host of a resource indicator was not
 escaped

It was read as the end of the user information.
---
 postgresql/resolved/riparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..7da8aa2 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -47,7 +47,7 @@ percent_escapes_re = re.compile('(%[0-9a-fA-F]{2,2})+')
 escape_re = re.compile('[%s]' %(re.escape(unescaped),))
 escape_user_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#'),))
 escape_password_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
-escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
+escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
 escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_path_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_query_key_re = re.compile('[%s]' %(re.escape(unescaped + '&=#'),))
-- 
2.43.0


From 2beb93800f9a7271fd430832b41bfd2e7d813b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 51/65] fix: settings could not be added to an empty
 configuration file

There is no last line to complete.
---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..6ccb488 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -124,7 +124,7 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
 				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
 
-- 
2.43.0


From 3db39c8b709c1dd2b4ea8e88cb41af31adee4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 52/65] fix: settings with qualified names were not recognized
 in configuration files

A line that sets "plpgsql.variable_conflict" was taken for a comment: it was
not read and setting it again appended another line.
---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 6ccb488..5a32a08 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -25,7 +25,7 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		key_len = 0
 		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_'):
+			if not (c.isalpha() or c.isdigit() or c in '_.'):
 				break
 			key_len += 1
 
-- 
2.43.0


From b118d2e6886446f01a4241245e9bf42c54055bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 53/65] fix: deleting a setting of a ConfigFile raised
 TypeError

The altered lines were not passed on to be saved.
---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 5a32a08..aab8d6a 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -244,7 +244,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
-- 
2.43.0


From bae16b6393c99f0d05db649ac176a336c9001c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 54/65] fix: iterating a ConfigFile raised TypeError

__iter__ must return an iterator.
---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index aab8d6a..2a2f304 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -263,7 +263,7 @@ class ConfigFile(pg_api.Settings):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
-- 
2.43.0


From 7d4204f02a4cc5fef42ecb1e4ab2ad2247f8c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 55/65] fix: a ConfigFile could not be used as a context
 manager

Calling it returned nothing to enter, and the values to restore were kept in
a dictionary used as a list.
---
 postgresql/configfile.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2a2f304..33cfa98 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -227,7 +227,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -258,6 +258,7 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
@@ -275,10 +276,7 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
+		self.update(self._restore.pop())
 		return exc is None
 
 	def get(self, k, alt = None):
-- 
2.43.0


From bbb54e73fc5191aecefe5607293489afa7576354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 56/65] fix: pg_dotconf could not apply a file of settings

The names it used were not imported, and only the first character of the key
was searched for a comment.
---
 postgresql/bin/pg_dotconf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..2f04d36 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -36,11 +36,7 @@ def command(args):
 	settings = {}
 	for sfp in co.settings:
 		with open(sfp) as sf:
-			for line in sf:
-				pl = configfile.parse_line(line)
-				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+			configfile.read_config(sf, settings)
 
 	prev = None
 	for p in ca[1:]:
-- 
2.43.0


From 3c1bdbe246790b2e3b04736b73686112560af2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:07 +0000
Subject: [PATCH 57/65] fix: pg_dotconf could not be imported without the
 optional project module

__version__ is only defined along with it; version always is.
---
 postgresql/bin/pg_dotconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 2f04d36..90d5ec9 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -3,7 +3,7 @@ import sys
 import os
 from optparse import OptionParser
 from .. import configfile
-from .. import __version__
+from .. import version as __version__
 
 __all__ = ['command']
 
-- 
2.43.0


From 6ac660b2977de1ec1f28301871800b2260a340fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:25 +0000
Subject: [PATCH 58/65] fix: a failed socket was not recognized when making
 single transitions

step() went on with the transition when writing or reading had failed:
after a failed write the exchange was put back into the receiving state,
and at the end of the stream during a COPY or in rows an IndexError was raised.
---
 postgresql/protocol/client3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..03a6e75 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -414,15 +414,15 @@ class Connection(object):
 		try:
 			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
 				# The "op" callable will either switch the state, or
 				# set the 'messages' attribute with a new sequence
 				# of message objects for more writing.
-				op()
+				if self.write_messages(x.messages):
+					op()
 			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
-				self.state = getattr(x, 'last_ready', self.state)
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
+					self.state = getattr(x, 'last_ready', self.state)
 			else:
 				raise RuntimeError(
 					"unexpected PQ transaction state: " + repr(dir)
-- 
2.43.0


From c76cfbf480f249a1566086114e2ffdc2a8523ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 59/65] fix: a socket failing during SSL negotiation raised the
 error of the socket

The failure was not attributed to the attempt: the remaining addresses were
not tried, the socket was left open, and a plain OSError was raised.
---
 postgresql/protocol/client3.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 03a6e75..b517773 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -160,7 +160,20 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				self.ssl_negotiation = supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				# The socket failed before the endpoint answered.
+				errmsg = self.socket_factory.fatal_exception_message(err)
+				self.xact.fatal = True
+				self.xact.exception = err
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08006'),
+					(b'M', errmsg or "SSL negotiation failed"),
+				))
+				self.xact.state = xact.Complete
+				return
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From 0ddd01d809e4a5b0b296b4b6bb69872a91ef63e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 60/65] fix: forward and backward seeks of cursors read
 backwards were absolute

With the direction of the cursor being backward, seek() with FORWARD or
BACKWARD moved to the absolute position given by the offset, and ALL was
not inverted. Such cursors are documented to act like a cursor declared in
the reverse order.
---
 postgresql/driver/pq3.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 492c79e..92136a1 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1170,22 +1170,22 @@ class Cursor(Output, pg_api.Cursor):
 
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
-				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
-		else:
-			if offset < 0 and rwhence == 'BACKWARD':
-				offset = -offset
 				rwhence = 'FORWARD'
+		elif offset < 0 and rwhence in ('BACKWARD', 'FORWARD'):
+			offset = -offset
+			rwhence = 'FORWARD' if rwhence == 'BACKWARD' else 'BACKWARD'
 
-			if self.direction is False:
-				if offset == 'ALL' and rwhence != 'FORWARD':
-					rwhence = 'BACKWARD'
-				else:
-					if rwhence == 'RELATIVE':
-						offset = -offset
-					elif rwhence == 'ABSOLUTE':
-						rwhence = 'FROM_END'
-					else:
-						rwhence = 'ABSOLUTE'
+		if self.direction is False:
+			# Seek as if the cursor were declared in the reverse order.
+			if rwhence == 'RELATIVE':
+				offset = -offset
+			else:
+				rwhence = {
+					'ABSOLUTE' : 'FROM_END',
+					'FROM_END' : 'ABSOLUTE',
+					'FORWARD' : 'BACKWARD',
+					'BACKWARD' : 'FORWARD',
+				}[rwhence]
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
 			if offset == 'ALL':
-- 
2.43.0


From afa4f9c482d97448765a2409b6f4f800f20bdc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 61/65] fix: a streamed result whose chunk failed during
 another request ended as if complete

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 92136a1..5440436 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1016,6 +1016,11 @@ class MultiXactStream(Chunks):
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
 
+		# The request for the chunk may have been completed by another request,
+		# in which case the error has to be noticed here.
+		if x.fatal is not None:
+			self.database.typio.raise_error(x.error_message, creator = self)
+
 		# get all the element.Tuple messages
 		chunk = [
 			y for y in x.messages_received() if y.__class__ is tuple_type
-- 
2.43.0


From 406ca815024bbb3b7455b1764c7e72e40b77e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 62/65] fix: Statement.column() could not read NULL values

---
 postgresql/driver/pq3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 5440436..036d80a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -756,15 +756,15 @@ class Output(object):
 		l = [y[0] for y in x]
 		# iterate over the range to keep track
 		# of which item we're processing.
-		r = range(len(l))
+		r = iter(range(len(l)))
 		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
-		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
+			return [
+				None if l[i] is None else unpack(l[i]) for i in r
+			]
+		except Exception as e:
+			cause = e
+		# The item that failed is the one before the next one.
+		i = next(r, len(l)) - 1
 		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
 
 	# Process the element.Tuple message in x for rows()
-- 
2.43.0


From b0a47792053035dfd0b903a16c6c96191329488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 63/65] fix: a library file whose preface looks like it has a
 reference could not be parsed

---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 1307a3b..3115e45 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -218,7 +218,7 @@ class ILF(SymbolCollection):
 				blocks.append((curid, curblock))
 				curid = line
 				curblock = []
-			elif line.startswith('*[') and ']' in line:
+			elif curid is not None and line.startswith('*[') and ']' in line:
 				ref, rest = line.split(']', 1)
 				# strip the leading '*['
 				ref = ref[2:]
-- 
2.43.0


From 62f3c38a1e1783d28fb6d1eb0f3125cc10b09175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:03 +0000
Subject: [PATCH 64/65] fix: a category whose name is taken raised a NameError

---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 3115e45..7e26a4a 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -427,7 +427,7 @@ class Category(pg_api.Category):
 			B = Binding(database, l)
 			for n in names:
 				if hasattr(database, n):
-					raise AttributeError("attribute already exists: " + name)
+					raise AttributeError("attribute already exists: " + n)
 				setattr(database, n, B)
 
 def find_libsql(libname, paths, prefix = 'lib', suffix = '.sql'):
-- 
2.43.0


From 24931f211c09767ac82d69eeed526b460549ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:22 +0000
Subject: [PATCH 65/65] fix: a COPY transfer that was broken off could be
 reported as complete

---
 postgresql/copyman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 126a890..06eb6fe 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -712,6 +712,8 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		# Realignment ends the producer; only note what was seen before it.
+		exhausted = self._seen_stop_iteration
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
@@ -745,7 +747,7 @@ class CopyManager(Element, Iterator):
 			except Exception as e:
 				exit_faults[x] = e
 
-		if typ or exit_faults or profail or not self._seen_stop_iteration:
+		if typ or exit_faults or profail or not exhausted:
 			raise CopyFail(self,
 				"could not complete the COPY operation",
 				receiver_faults = exit_faults or None,
-- 
2.43.0

