From 5cefa705e9f0566b1117ba3a498cbb5c0c3e2313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 01/45] fix: don't crash on an Age beyond the range of dates

---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..6ee15d6 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:
+                    pass
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..3ffc355 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -115,8 +115,11 @@ class Response(message.Message):
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
             date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            try:
+                now = date + timedelta(seconds=self.headers.age.value)
+            except OverflowError:
+                now = datetime.max
+            if now > datetime.utcnow() + timedelta(seconds=30):
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From 6652287c98a59a9722cd79f1c7939d2509fdc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 02/45] fix: don't crash on integers with thousands of digits

---
 httpolice/syntax/internal.py |  3 ++-
 httpolice/syntax/rfc6797.py  |  3 ++-
 httpolice/syntax/rfc7230.py  |  3 ++-
 httpolice/syntax/rfc7231.py  |  5 +++--
 httpolice/syntax/rfc7233.py  |  9 +++++----
 httpolice/syntax/rfc7234.py  |  3 ++-
 httpolice/util/data.py       | 23 +++++++++++++++++++++++
 7 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/httpolice/syntax/internal.py b/httpolice/syntax/internal.py
index 3c85ad9..89e659f 100644
--- a/httpolice/syntax/internal.py
+++ b/httpolice/syntax/internal.py
@@ -2,9 +2,10 @@ from httpolice.parse import (fill_names, literal, maybe, pivot, skip, string1,
                              subst)
 from httpolice.syntax.common import DIGIT
 from httpolice.syntax.rfc7230 import RWS, comma_list
+from httpolice.util.data import saturating_int
 
 
-notice_id = int << string1(DIGIT)                                       > pivot
+notice_id = saturating_int << string1(DIGIT)                            > pivot
 resp = subst(True) << literal('resp')                                   > pivot
 HTTPolice_Silence = comma_list(notice_id * maybe(skip(RWS) * resp))     > pivot
 
diff --git a/httpolice/syntax/rfc6797.py b/httpolice/syntax/rfc6797.py
index 027d850..7faecf1 100644
--- a/httpolice/syntax/rfc6797.py
+++ b/httpolice/syntax/rfc6797.py
@@ -3,6 +3,7 @@ from httpolice.parse import auto, fill_names, many, maybe, pivot, skip, string1
 from httpolice.structure import HSTSDirective, Parametrized
 from httpolice.syntax.common import DIGIT
 from httpolice.syntax.rfc7230 import OWS, quoted_string, token
+from httpolice.util.data import saturating_int
 
 
 # This has been slightly adapted to the rules of RFC 7230.
@@ -19,6 +20,6 @@ def _collect_elements(xs):
 Strict_Transport_Security = _collect_elements << (
     maybe(directive) % many(skip(OWS * ';' * OWS) * maybe(directive)))  > pivot
 
-max_age_value = int << string1(DIGIT)                                   > pivot
+max_age_value = saturating_int << string1(DIGIT)                        > pivot
 
 fill_names(globals(), RFC(6797))
diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index d3f57a4..9817011 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -10,6 +10,7 @@ from httpolice.syntax.common import ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR
 from httpolice.syntax.rfc3986 import (absolute_URI, authority,
                                       host as uri_host, port, query,
                                       relative_part, segment)
+from httpolice.util.data import saturating_int
 
 
 obs_text = octet_range(0x80, 0xFF)                                      > auto
@@ -161,6 +162,6 @@ Via = comma_list1(received_protocol * skip(RWS) *
                   received_by *
                   maybe(skip(RWS) * comment(include_parens=False)))     > pivot
 
-Content_Length = int << string1(DIGIT)                                  > pivot
+Content_Length = saturating_int << string1(DIGIT)                       > pivot
 
 fill_names(globals(), RFC(7230))
diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..aa31d51 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -14,6 +14,7 @@ from httpolice.syntax.rfc5646 import Language_Tag as language_tag
 from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
                                       comment, field_name, method, partial_URI,
                                       quoted_string, token, token__excluding)
+from httpolice.util.data import saturating_int
 
 
 # The standard library's day and month names are locale-dependent,
@@ -213,7 +214,7 @@ Accept_Encoding = comma_list(Parametrized << codings * maybe(weight))   > pivot
 Accept_Language = comma_list1(
     Parametrized << language_range * maybe(weight))                     > pivot
 
-delay_seconds = int << string1(DIGIT)                                   > pivot
+delay_seconds = saturating_int << string1(DIGIT)                        > pivot
 Retry_After = HTTP_date | delay_seconds                                 > pivot
 
 Allow = comma_list(method)                                              > pivot
@@ -223,7 +224,7 @@ Content_Location = absolute_URI | partial_URI                           > pivot
 Content_Type = media_type                                               > pivot
 Date = HTTP_date                                                        > pivot
 Location = URI_reference                                                > pivot
-Max_Forwards = int << string1(DIGIT)                                    > pivot
+Max_Forwards = saturating_int << string1(DIGIT)                         > pivot
 Referer = absolute_URI | partial_URI                                    > pivot
 Vary = '*' | comma_list1(field_name)                                    > pivot
 Expect = CaseInsensitive << literal('100-continue')                     > pivot
diff --git a/httpolice/syntax/rfc7233.py b/httpolice/syntax/rfc7233.py
index 18d1c83..211def4 100644
--- a/httpolice/syntax/rfc7233.py
+++ b/httpolice/syntax/rfc7233.py
@@ -7,6 +7,7 @@ from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR
 from httpolice.syntax.rfc7230 import comma_list1, token__excluding
 from httpolice.syntax.rfc7231 import HTTP_date
 from httpolice.syntax.rfc7232 import entity_tag
+from httpolice.util.data import saturating_int
 
 
 bytes_unit = RangeUnit << literal('bytes')                              > auto
@@ -22,12 +23,12 @@ def _well_formed1(complain, first, last):
         complain(1133)
     return (first, last)
 
-first_byte_pos = int << string1(DIGIT)                                  > auto
-last_byte_pos = int << string1(DIGIT)                                   > auto
+first_byte_pos = saturating_int << string1(DIGIT)                       > auto
+last_byte_pos = saturating_int << string1(DIGIT)                        > auto
 byte_range_spec = _well_formed1 << (first_byte_pos * skip('-') *
                                     maybe(last_byte_pos))               > pivot
 
-suffix_length = int << string1(DIGIT)                                   > auto
+suffix_length = saturating_int << string1(DIGIT)                        > auto
 suffix_byte_range_spec = \
     (lambda x: (None, x)) << skip('-') * suffix_length                  > pivot
 
@@ -42,7 +43,7 @@ other_ranges_specifier = RangeSpecifier << (
 Range = byte_ranges_specifier | other_ranges_specifier                  > pivot
 
 byte_range = first_byte_pos * skip('-') * last_byte_pos                 > auto
-complete_length = int << string1(DIGIT)                                 > auto
+complete_length = saturating_int << string1(DIGIT)                      > auto
 byte_range_resp = (
     byte_range * skip('/') *
     (complete_length | subst(None) << literal('*')))                    > pivot
diff --git a/httpolice/syntax/rfc7234.py b/httpolice/syntax/rfc7234.py
index 6e2a0a9..dcd51b9 100644
--- a/httpolice/syntax/rfc7234.py
+++ b/httpolice/syntax/rfc7234.py
@@ -8,9 +8,10 @@ from httpolice.syntax.rfc7230 import (comma_list, comma_list1, field_name,
                                       port, pseudonym, quoted_string, token,
                                       token__excluding, uri_host)
 from httpolice.syntax.rfc7231 import HTTP_date
+from httpolice.util.data import saturating_int
 
 
-delta_seconds = int << string1(DIGIT)                                   > pivot
+delta_seconds = saturating_int << string1(DIGIT)                        > pivot
 Age = delta_seconds                                                     > pivot
 
 cache_directive = Parametrized << (
diff --git a/httpolice/util/data.py b/httpolice/util/data.py
index eb25807..81b59bf 100644
--- a/httpolice/util/data.py
+++ b/httpolice/util/data.py
@@ -17,3 +17,26 @@ def iterbytes(bs):
     """
     for b in bs:
         yield bytes((b,))
+
+
+# Python's own limit on converting between integers and strings
+# (``sys.set_int_max_str_digits``) cannot be set lower than 640.
+MAX_INT = 10 ** 600
+
+
+def saturating_int(s, base=10):
+    """
+    Like ``int(s, base)``, but replaces an absurdly big number
+    (which Python may refuse to convert from or to a string) with `MAX_INT`.
+
+    >>> saturating_int('0042')
+    42
+    >>> saturating_int('ff', 16)
+    255
+    >>> saturating_int('9' * 10000) == MAX_INT
+    True
+    """
+    s = s.lstrip('0') or '0'
+    if len(s) > 600:
+        return MAX_INT
+    return min(int(s, base), MAX_INT)
-- 
2.43.0


From 1b8204384061b2e7108212857ecdfec6fddfd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 03/45] fix: accept nothing but hex digits as a chunk size

int(s, 16) also takes signs, underscores, a 0x prefix, and whitespace.
---
 httpolice/framing1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..7692fe2 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -11,6 +11,7 @@ from httpolice.request import Request
 from httpolice.response import Response
 from httpolice.structure import (FieldName, HeaderEntry, HTTPVersion, Method,
                                  StatusCode, Unavailable, okay)
+from httpolice.util.data import saturating_int
 
 
 # Create empty symbols just for referring to them in parse errors.
@@ -26,6 +27,7 @@ chunk_size = Symbol(u'chunk-size', RFC(7230, section=u'4.1'))
 
 HTTP_VERSION = re.compile(u'^HTTP/[0-9]\\.[0-9]$')
 STATUS_CODE = re.compile(u'^[0-9]{3}$')
+CHUNK_SIZE = re.compile(u'^[0-9A-Fa-f]+$')
 
 
 MAX_BODY_SIZE = 1024 * 1024 * 1024
@@ -299,10 +301,10 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')            # RFC errata ID: 4667
+            if not CHUNK_SIZE.match(size_s):
                 raise stream.error(pos)
+            size = saturating_int(size_s, 16)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From ee26287a5e74848d394460a01be52b97f7ca3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 04/45] fix: don't crash on IP literals that urllib does not
 understand

---
 httpolice/request.py  | 10 ++++++----
 httpolice/response.py | 19 +++++++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..f1f7309 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -182,7 +182,10 @@ class Request(message.Message):
         # so this property should be understood as "salvageable query params."
         if not okay(self.effective_uri):
             return {}
-        return parse_qs(urlparse(self.effective_uri).query)
+        # Not `urlparse`: it raises an exception on some valid IP literals.
+        (uri, _, _) = self.effective_uri.partition(u'#')
+        (_, _, query) = uri.partition(u'?')
+        return parse_qs(query)
 
     @derived_property
     def has_body(self):
@@ -272,8 +275,7 @@ def check_request(req):
 
     if headers.referer.is_okay:
         if req.is_tls is False:
-            parsed = urlparse(headers.referer.value)
-            if parsed.scheme == u'https':
+            if headers.referer.value.lower().startswith(u'https:'):
                 complain(1068)
 
     if headers.user_agent.is_absent:
diff --git a/httpolice/response.py b/httpolice/response.py
index 3ffc355..31fbada 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,5 @@
 from datetime import datetime, timedelta
-from urllib.parse import urljoin, urlparse
+from urllib.parse import urljoin
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -295,7 +295,7 @@ def check_response_itself(resp):
         complain(1110)
 
     if status == st.created and headers.location.is_okay and \
-            urlparse(headers.location.value).fragment:
+            headers.location.value.partition(u'#')[2]:
         complain(1111)
 
     if headers.date < headers.last_modified.value:
@@ -545,8 +545,8 @@ def check_response_in_context(resp, req):
         complain(1071)
 
     if resp.headers.content_location.is_okay and req.effective_uri:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.content_location.value):
+        if _is_same_uri(req.effective_uri,
+                        resp.headers.content_location.value):
             if method in [m.GET, m.HEAD] and \
                     status in [st.ok, st.non_authoritative_information,
                                st.no_content, st.partial_content,
@@ -556,8 +556,7 @@ def check_response_in_context(resp, req):
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.location.value):
+        if _is_same_uri(req.effective_uri, resp.headers.location.value):
             if status in [st.multiple_choices, st.temporary_redirect,
                           st.permanent_redirect]:
                 complain(1085)
@@ -798,6 +797,14 @@ def check_response_in_context(resp, req):
         complain(1291)
 
 
+def _is_same_uri(uri, reference):
+    try:
+        return uri == urljoin(uri, reference)
+    except ValueError:
+        # `urljoin` does not understand some valid IP literals.
+        return uri == reference
+
+
 def _check_basic_challenge(resp, hdr, challenge):
     if isinstance(challenge.param, str):      # ``token68`` form
         resp.complain(1273, header=hdr)
-- 
2.43.0


From 459776cf2e8cf7d6f616f5e9153be146b1bcaf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 05/45] fix: don't crash on charset=hex and other non-text
 codecs

---
 httpolice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..01929ff 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,8 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` is for codecs that are not text encodings.
                 return None
         return charset
 
-- 
2.43.0


From cff4c97f26c9a039564084ed8d375b70907d987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 06/45] fix: don't crash on JSON that is nested too deeply for
 Python

Also, don't report valid JSON with very long numbers as malformed.
---
 httpolice/message.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 01929ff..c799a07 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -133,9 +133,12 @@ class Message(Blackboard):
                 okay(self.unicode_body) and self.content_is_full:
             try:
                 r = json.loads(self.unicode_body)
-            except ValueError as e:
+            except json.JSONDecodeError as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
+            except (ValueError, RecursionError):
+                # Beyond the limits of Python (very big numbers, deep nesting).
+                r = Unavailable(self.unicode_body)
             else:
                 if self.guessed_charset not in ['ascii', 'utf-8', None]:
                     self.complain(1281)
@@ -211,8 +214,16 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        pretty_json = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                pretty_json = json.dumps(self.json_data, indent=2,
+                                         ensure_ascii=False)
+            except RecursionError:
+                pass
+
+        if pretty_json is not None:
+            r = pretty_json
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From 0bc43ccd9e3304416a04da39c28257575c7a6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 07/45] fix: don't crash on XML in an encoding not supported by
 Expat

---
 httpolice/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpolice/message.py b/httpolice/message.py
index c799a07..68e2889 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -161,6 +161,9 @@ class Message(Blackboard):
             except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
+            except (LookupError, ValueError):
+                # Unknown encoding, or one that Expat does not support.
+                return Unavailable(self.decoded_body)
         else:
             return None
 
-- 
2.43.0


From 024fc396b064d50cbea3f5d8b54b3c4cff924007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 08/45] fix: show status codes and warn codes as plain numbers
 in reports

---
 httpolice/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index c05700f..5c6b844 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -198,6 +198,9 @@ class StatusCode(int):
     def __repr__(self):
         return 'StatusCode(%d)' % self
 
+    # Since Python 3.8, `int` does not have its own ``__str__``.
+    __str__ = int.__repr__
+
     informational = property(lambda self: 100 <= self <= 199)
     successful = property(lambda self: 200 <= self <= 299)
     redirection = property(lambda self: 300 <= self <= 399)
@@ -367,6 +370,8 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
+    __str__ = int.__repr__
+
 
 class AuthScheme(CaseInsensitive):
 
-- 
2.43.0


From ea0a451ba16b65a6f8ce0f4cc285ec7c682b27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 09/45] fix: typo in the name of Saturday

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index aa31d51..50faca1 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -20,7 +20,7 @@ from httpolice.util.data import saturating_int
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From 07d09f87e643bc409c8ecafd64271b93a9676983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 10/45] fix: don't crash on Link parameters without a value or
 with a bad rel

---
 httpolice/response.py       | 4 ++--
 httpolice/syntax/rfc8288.py | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 31fbada..4334e46 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -328,8 +328,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
-                   for link in headers.link):
+        rels = [link.param.get(u'rel') for link in headers.link]
+        if not any(u'blocked-by' in rel for rel in rels if okay(rel)):
             complain(1243)
 
     if headers.content_disposition.is_okay:
diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..ac9c7a7 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,8 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
-        if value is not None:
-            (parsed_as, value) = value
+        (parsed_as, value) = (None, None) if value is None else value
         if name == u'title' and parsed_as is token:
             complain(1307)
         if name == u'hreflang' and parsed_as is quoted_string:
@@ -33,7 +32,7 @@ def _process_params(complain, params):
             u'anchor': URI_Reference, u'rel': rel, u'rev': rev,
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
-        if symbol is not None:
+        if symbol is not None and value is not None:
             value = parse(value, symbol, complain, 1158,
                           name=name, value=value)
         r.append((name, value))
-- 
2.43.0


From c7a5e5255718eafedb5a33139525384146da241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 11/45] fix: report wrong types and values in HAR files as
 input errors

---
 httpolice/inputs/har.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..46d1c76 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,13 +26,14 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (TypeError, KeyError, AttributeError, ValueError,
+                    OverflowError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
@@ -80,7 +81,7 @@ def _process_request(data, creator, path):
     text = None
     post = data.get('postData')
     if post and post.get('text'):
-        text = post['text']
+        text = _check_text(post['text'])
         if creator in FIDDLER and method == m.CONNECT and u'Fiddler' in text:
             # Fiddler's HAR export adds a body with debug information
             # to CONNECT requests.
@@ -143,11 +144,17 @@ def _process_response(data, req, creator, path):
                     resp.decoded_body = decoded_body
 
         elif 'encoding' not in data['content']:
-            resp.unicode_body = data['content']['text']
+            resp.unicode_body = _check_text(data['content']['text'])
 
     return resp
 
 
+def _check_text(text):
+    if not isinstance(text, str):
+        raise TypeError('text is not a string: %r' % text)
+    return text
+
+
 def _process_message(data, creator):
     header_entries = [(FieldName(d['name']), d['value'])
                       for d in data['headers']]
-- 
2.43.0


From 6ff2b91398167bfaa6416e3e889bc2f7f4bb2c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 12/45] fix: report an out-of-range tcpflow timestamp as an
 input error

---
 httpolice/inputs/streams.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 6ee15d6..21637e5 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -84,10 +84,14 @@ def tcpflow_input(dir_paths):
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (ValueError, OverflowError, OSError) as exc:
+                raise InputError(u'wrong timestamp in tcpflow filename %s' %
+                                 name) from exc
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
-                sort_hint=timestamp))
+                time_hint=time_hint, sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
     return _path_pairs_input(path_pairs, sniff_direction=True,
-- 
2.43.0


From 5312f51273c769cfaa4ea004af2958c0a66f5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 13/45] fix: don't depend on the order in which the OS lists a
 directory

---
 httpolice/inputs/streams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 21637e5..9137868 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -38,7 +38,7 @@ def tcpick_input(dir_paths):
         # tcpick's ``-F2`` option.
         dir_path = decode_path(dir_path)
         streams_info = []
-        for name in os.listdir(dir_path):
+        for name in sorted(os.listdir(dir_path)):
             path = os.path.join(dir_path, name)
             match = re.match(
                 r'^tcpick_(\d+)_([^_]+)_([^_]+)_[^.]+.(serv|clnt)\.dat$', name)
@@ -70,7 +70,7 @@ def tcpflow_input(dir_paths):
         dir_path = decode_path(dir_path)
         streams_info = []
         seen = {}
-        for name in os.listdir(dir_path):
+        for name in sorted(os.listdir(dir_path)):
             if name in ['report.xml', 'alerts.txt']:
                 continue
             path = os.path.join(dir_path, name)
-- 
2.43.0


From 256af29bdb4f9782bcbab2dac47aa9993f412994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 14/45] fix: don't silently drop a tcpick file that duplicates
 another one

---
 httpolice/inputs/streams.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 9137868..92acae2 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -38,6 +38,7 @@ def tcpick_input(dir_paths):
         # tcpick's ``-F2`` option.
         dir_path = decode_path(dir_path)
         streams_info = []
+        seen = {}
         for name in sorted(os.listdir(dir_path)):
             path = os.path.join(dir_path, name)
             match = re.match(
@@ -49,6 +50,11 @@ def tcpick_input(dir_paths):
             counter = int(counter)
             if direction == 'serv':
                 (src, dest) = (dest, src)
+            if (counter, src, dest) in seen:
+                raise InputError(u'duplicate counter+source+destination: '
+                                 u'%s vs. %s' %
+                                 (path, seen[(counter, src, dest)]))
+            seen[(counter, src, dest)] = path
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
                                             connection_hint=counter,
                                             time_hint=None, sort_hint=counter))
-- 
2.43.0


From d8a580449fbcf041ee1600866f17448f3d24434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 15/45] fix: make the contents of reports reproducible

Sets of symbols and of strings are iterated in a different order every time.
---
 httpolice/parse.py    | 9 ++++++---
 httpolice/response.py | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..0e2dc23 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -986,8 +986,9 @@ def _build_parse_error(data, target_symbol, chart):
         if isinstance(next_symbol, Terminal):
             chars = format_chars(next_symbol.chars())
             # And why did we expect it? As part of what nonterminals?
-            expected.setdefault(chars, set()).update(
-                _find_pivots(chart, symbol, start))
+            # (Not a `set` because we need a stable order.)
+            expected.setdefault(chars, OrderedDict()).update(
+                (pivot_, None) for pivot_ in _find_pivots(chart, symbol, start))
 
         if symbol is target_symbol and next_symbol is None:
             # This item indicates a complete parse of `target_symbol`,
@@ -995,7 +996,9 @@ def _build_parse_error(data, target_symbol, chart):
             expected[u'end of data'] = None
 
     return ParseError(name=None, position=i,
-                      expected=list(expected.items()), found=found)
+                      expected=[(chars, symbols and list(symbols))
+                                for (chars, symbols) in expected.items()],
+                      found=found)
 
 
 def _find_pivots(chart, symbol, start, stack=None):
diff --git a/httpolice/response.py b/httpolice/response.py
index 4334e46..15e25b7 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -814,8 +814,9 @@ def _check_basic_challenge(resp, hdr, challenge):
     for charset in challenge.param.getall(u'charset'):
         if charset.lower() != u'utf-8':
             resp.complain(1208, header=hdr, charset=charset)
-    for name in set(challenge.param) - {u'charset', u'realm'}:
-        resp.complain(1207, header=hdr, param=name)
+    for name in challenge.param:
+        if name not in [u'charset', u'realm']:
+            resp.complain(1207, header=hdr, param=name)
 
 
 def _check_bearer_challenge(resp, hdr, challenge):
-- 
2.43.0


From 7124467c721b48c7db94f78de59b361747842590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 16/45] fix: don't suggest end of data in the middle of a
 recursive construct

---
 httpolice/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 0e2dc23..610eed6 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -990,7 +990,7 @@ def _build_parse_error(data, target_symbol, chart):
             expected.setdefault(chars, OrderedDict()).update(
                 (pivot_, None) for pivot_ in _find_pivots(chart, symbol, start))
 
-        if symbol is target_symbol and next_symbol is None:
+        if symbol is target_symbol and next_symbol is None and start == 0:
             # This item indicates a complete parse of `target_symbol`,
             # so if the input data just stopped there, that would work, too,
             expected[u'end of data'] = None
-- 
2.43.0


From 728c190261b5e4c2e36e2cf114dd576df8694228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 17/45] fix: don't crash on header values nested too deeply for
 the parser

---
 httpolice/parse.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 610eed6..874778e 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -112,6 +112,9 @@ def parse(data, symbol, complain=None, fail_notice_id=None,
                 raise
             complaint = (fail_notice_id, {'error': e})
             parse_result = (Unavailable(data), [complaint], [])
+        except RecursionError:
+            # Too many levels of nesting for us to make sense of this.
+            parse_result = (Unavailable(data), [], [])
         else:
             _memo[key] = parse_result
             while len(_memo) > MEMO_LIMIT:
@@ -1001,14 +1004,20 @@ def _build_parse_error(data, target_symbol, chart):
                       found=found)
 
 
-def _find_pivots(chart, symbol, start, stack=None):
-    if symbol.is_pivot:
-        yield symbol
-    else:
-        stack = (stack or []) + [(symbol, start)]
-        (_, items_idx, _) = chart[start]
-        parents = items_idx.get(symbol, [])
-        for (parent, _, _, parent_start) in parents:
-            if (parent, parent_start) not in stack:
-                for p in _find_pivots(chart, parent, parent_start, stack):
-                    yield p
+def _find_pivots(chart, symbol, start):
+    # This is a depth-first search, coded without recursion because it would
+    # hit maximum recursion depth on input with many levels of nesting.
+    seen = set()
+    todo = [(symbol, start)]
+    while todo:
+        (symbol, start) = todo.pop()
+        if (symbol, start) in seen:
+            continue
+        seen.add((symbol, start))
+        if symbol.is_pivot:
+            yield symbol
+        else:
+            (_, items_idx, _) = chart[start]
+            todo.extend((parent, parent_start)
+                        for (parent, _, _, parent_start)
+                        in reversed(items_idx.get(symbol, [])))
-- 
2.43.0


From 0b7e67dffbe1672a87e7f1eaf4c6db0b91c8bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 18/45] fix: don't let line breaks in a message break lines of
 the text report

---
 httpolice/reports/text.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/reports/text.py b/httpolice/reports/text.py
index 2ce6234..90ed89a 100644
--- a/httpolice/reports/text.py
+++ b/httpolice/reports/text.py
@@ -1,5 +1,6 @@
 import codecs
 from functools import singledispatch
+import re
 
 from httpolice import notice
 from httpolice.reports.common import (expand_piece, find_reason_phrase,
@@ -34,11 +35,16 @@ def text_report(exchanges, buf):
                 _write_complaint_line(complaint, f2)
 
 
+def _printable_line(s):
+    # Like `printable`, but also makes sure not to break the line in two.
+    return re.sub(u'[\r\n]', u'\N{REPLACEMENT CHARACTER}', printable(s))
+
+
 def _exchange_marker(exchange):
     if exchange.request:
         marker = u'------------ request: %s %s' % (
-            printable(exchange.request.method),
-            printable(exchange.request.target))
+            _printable_line(exchange.request.method),
+            _printable_line(exchange.request.target))
     elif exchange.responses:
         marker = u'------------ unknown request'
     else:
@@ -50,7 +56,7 @@ def _exchange_marker(exchange):
 def _response_marker(response):
     return ellipsize(u'------------ response: %d %s' % (
                         response.status,
-                        printable(find_reason_phrase(response)))) + u'\n'
+                        _printable_line(find_reason_phrase(response)))) + u'\n'
 
 
 def _write_complaint_line(complaint, f):
@@ -66,7 +72,7 @@ def _piece_to_text(piece, ctx):
 
 @_piece_to_text.register(str)
 def _text_to_text(text, _):
-    return printable(text)
+    return _printable_line(text)
 
 @_piece_to_text.register(list)
 def _list_to_text(xs, ctx):
-- 
2.43.0


From 1f3b5bcf0890b465bf319fbdfeb838ac14092094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 19/45] fix: report incomplete gzip data, and decode all of its
 members

decode_gzip() returned whatever prefix could be decompressed, so a truncated
body was silently taken for the complete one, and only the first member
of a multi-member gzip body was used.
---
 httpolice/codings.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/httpolice/codings.py b/httpolice/codings.py
index b827432..b55ccf9 100644
--- a/httpolice/codings.py
+++ b/httpolice/codings.py
@@ -6,8 +6,15 @@ import brotli
 
 
 def decode_gzip(data):
-    # Just ``decompress(data, 16 + zlib.MAX_WBITS)`` doesn't work.
-    return zlib.decompressobj(16 + zlib.MAX_WBITS).decompress(data)
+    # There may be more than one member in the data (RFC 1952 section 2.2).
+    decoded = b''
+    while data:
+        member = zlib.decompressobj(16 + zlib.MAX_WBITS)
+        decoded += member.decompress(data)
+        if not member.eof:
+            raise zlib.error('incomplete gzip data')
+        data = member.unused_data
+    return decoded
 
 
 def decode_deflate(data):
-- 
2.43.0


From dc6371228aa55f1e3920a0faf12c231431e2eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 20/45] fix: make left-recursive grammars work in the parser

Finding out whether a left-recursive symbol is nullable led to
infinite recursion, even though the Earley algorithm supports such grammars.
---
 httpolice/parse.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 874778e..46e34a6 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -379,12 +379,33 @@ class Nonterminal(Symbol):
 
     def is_nullable(self):
         if self._is_nullable is None:
-            self._is_nullable = any(all(sym.is_nullable()
-                                        for sym in rule.symbols)
-                                    for rule in self.rules)
+            _find_nullable(self)
         return self._is_nullable
 
 
+def _find_nullable(symbol):
+    # This can't be a simple recursion over rules, because then any
+    # left-recursive symbol would be asking itself if it is nullable.
+    # So we find the least fixed point over all symbols reachable from this.
+    symbols = OrderedDict()
+    todo = [symbol]
+    while todo:
+        sym = todo.pop()
+        if isinstance(sym, Nonterminal) and sym not in symbols:
+            symbols[sym] = None
+            todo.extend(sym1 for rule in sym.rules for sym1 in rule.symbols)
+    nullable = set()
+    n_nullable = None
+    while n_nullable != len(nullable):
+        n_nullable = len(nullable)
+        nullable.update(sym for sym in symbols
+                        if any(all(sym1 in nullable for sym1 in rule.symbols)
+                               for rule in sym.rules))
+    for sym in symbols:
+        # pylint: disable=protected-access
+        sym._is_nullable = sym in nullable
+
+
 class SimpleNonterminal(Nonterminal):
 
     def __init__(self, name=None, citation=None, is_pivot=False,
-- 
2.43.0


From c1bc8f969a5f3d77cb144cd954b47a78f6b76b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 21/45] fix: report an empty path of a stream file as an error

---
 httpolice/inputs/streams.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 92acae2..766567e 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -204,7 +204,7 @@ def _path_pairs_input(path_pairs, sniff_direction=False,
             else:
                 (inbound_path, outbound_path) = direction
 
-        if inbound_path or outbound_path:
+        if inbound_path is not None or outbound_path is not None:
             # Finally we can parse the streams as HTTP/1.x,
             # appending them to the complaint boxes we may have produced above.
             sequence = itertools.chain(sequence,
@@ -220,10 +220,10 @@ def _parse_paths(inbound_path, outbound_path, scheme=u'http'):
     inbound_file = inbound = outbound_file = outbound = None
 
     try:
-        if inbound_path:
+        if inbound_path is not None:
             inbound_file = io.open(inbound_path, 'rb')
             inbound = Stream(inbound_file, name=decode_path(inbound_path))
-        if outbound_path:
+        if outbound_path is not None:
             outbound_file = io.open(outbound_path, 'rb')
             outbound = Stream(outbound_file, name=decode_path(outbound_path))
         for exch in parse_streams(inbound, outbound, scheme):
-- 
2.43.0


From f28bb81cc2b65b5e23f2dc626416c7774e16e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 22/45] fix: keep a leading line break of a body in the HTML
 report

---
 httpolice/reports/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/reports/html.py b/httpolice/reports/html.py
index 11959ae..e69f7f9 100644
--- a/httpolice/reports/html.py
+++ b/httpolice/reports/html.py
@@ -187,7 +187,8 @@ def _render_message(msg):
             else:
                 if transforms:
                     H.h3(u'Body after %s' % nicely_join(transforms))
-                H.pre(body)
+                # A newline right after ``<pre>`` is dropped by HTML parsers.
+                H.pre(u'\n' + body if body.startswith(u'\n') else body)
 
     if msg.trailer_entries:
         with H.div(_class=u'trailer'):
-- 
2.43.0


From 6f23d8b3101f25c453bbdbe8c50b95c4ab2b8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 23/45] fix: show leading zeros of a warn code in the HTML
 report

---
 httpolice/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/structure.py b/httpolice/structure.py
index 5c6b844..8e98dc9 100644
--- a/httpolice/structure.py
+++ b/httpolice/structure.py
@@ -370,7 +370,8 @@ class WarnCode(int):
     def __repr__(self):
         return 'WarnCode(%d)' % self
 
-    __str__ = int.__repr__
+    def __str__(self):
+        return '%03d' % self        # It is always exactly 3 digits.
 
 
 class AuthScheme(CaseInsensitive):
-- 
2.43.0


From dc65fb50cd4255e113f6d88e615627d6429e8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 24/45] fix: silence an exchange's messages even if notice IDs
 come from an iterator

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..39156ea 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)       # It may be an iterator.
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From c6ac625e9dcaf372fb30b69e6331ecb9d8b23ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 25/45] fix: pair tcpick files of a loopback connection

---
 httpolice/inputs/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 766567e..463f49c 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -48,6 +48,8 @@ def tcpick_input(dir_paths):
                                  u'(did you use the -F2 option?)' % name)
             (counter, src, dest, direction) = match.groups()
             counter = int(counter)
+            # Both ends of a loopback connection have the same address.
+            (src, dest) = ('client ' + src, 'server ' + dest)
             if direction == 'serv':
                 (src, dest) = (dest, src)
             if (counter, src, dest) in seen:
-- 
2.43.0


From eba4608314a32fa1fa8194bcb8305c4111490652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 26/45] fix: keep path parameters in the targets of requests
 from HAR files

---
 httpolice/inputs/har.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 46d1c76..63b7df9 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -1,7 +1,7 @@
 import base64
 import io
 import json
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 
 from httpolice.exchange import Exchange
 from httpolice.helpers import pop_pseudo_headers
@@ -47,7 +47,7 @@ def _process_entry(data, creator, path):
 def _process_request(data, creator, path):
     version, header_entries = _process_message(data, creator)
     method = data['method']
-    parsed = urlparse(data['url'])
+    parsed = urlsplit(data['url'])
     scheme = parsed.scheme
 
     if method == m.CONNECT:
@@ -55,7 +55,7 @@ def _process_request(data, creator, path):
     elif any(name == h.host for (name, _) in header_entries):
         # With HAR, we can't tell if the request was to a proxy or to a server.
         # So we force most requests into the "origin form" of the target,
-        target = parsed.path
+        target = parsed.path or u'/'
         if parsed.query:
             target += u'?' + parsed.query
     else:
-- 
2.43.0


From f5cf132c31519f27df5fdbfd7a13bafd8fcd70d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 27/45] fix: do not lose a CONTENT_LENGTH of 0 given as an
 integer

---
 httpolice/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/helpers.py b/httpolice/helpers.py
index 8cfa7aa..4115d42 100644
--- a/httpolice/helpers.py
+++ b/httpolice/helpers.py
@@ -45,7 +45,7 @@ def headers_from_cgi(cgi_dict):
     names = []
     # ``Host`` should come first according to RFC 7230 Section 5.4.
     for default_name in ['HTTP_HOST', 'CONTENT_LENGTH', 'CONTENT_TYPE']:
-        if cgi_dict.get(default_name):
+        if cgi_dict.get(default_name) not in [None, '', b'']:
             names.append(default_name)
     for name in cgi_dict:
         if name.startswith('HTTP_') and name not in names:
-- 
2.43.0


From 34cc5d070f3c53ca29c982999fb5638b032e0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 28/45] fix: compare media ranges case-insensitively in Accept
 (notice 1276)

---
 httpolice/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index f1f7309..5dd19ea 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -447,8 +447,8 @@ def _accept_subsumptions(items):
 
     for ((item1, q1), (item2, q2)) in itertools.permutations(normalized, 2):
         if (item1 == u'*' or item1.endswith(u'/*')) and \
-                fnmatch.fnmatch(item2, item1) and \
-                not fnmatch.fnmatch(item1, item2) and \
+                fnmatch.fnmatch(item2.lower(), item1.lower()) and \
+                not fnmatch.fnmatch(item1.lower(), item2.lower()) and \
                 q1 == q2:
             yield (item1, item2)
 
-- 
2.43.0


From 2b8aac50b3477c9be9e5073799ac90410852fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 29/45] fix: compare scheme and host case-insensitively when
 detecting self-redirects (notice 1085)

---
 httpolice/response.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 15e25b7..99fb075 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta
+import re
 from urllib.parse import urljoin
 
 from httpolice import known, message
@@ -799,10 +800,19 @@ def check_response_in_context(resp, req):
 
 def _is_same_uri(uri, reference):
     try:
-        return uri == urljoin(uri, reference)
+        reference = urljoin(uri, reference)
     except ValueError:
         # `urljoin` does not understand some valid IP literals.
-        return uri == reference
+        pass
+    return _normalize_uri(uri) == _normalize_uri(reference)
+
+
+def _normalize_uri(uri):
+    # The scheme and host are case-insensitive (RFC 7230 section 2.7.3).
+    return re.sub(u'^([^/?#]*://)([^/?#]*@)?([^/?#]*)',
+                  lambda m: (m.group(1).lower() + (m.group(2) or u'') +
+                             m.group(3).lower()),
+                  uri)
 
 
 def _check_basic_challenge(resp, hdr, challenge):
-- 
2.43.0


From 6fe5adc25fb41dc2d364e78cb7f97eb2d2ef55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 30/45] fix: report notice 1060 only for successful responses
 to DELETE

---
 httpolice/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 99fb075..b6f568b 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -553,7 +553,7 @@ def check_response_in_context(resp, req):
                                st.no_content, st.partial_content,
                                st.not_modified]:
                 complain(1055)
-            if method == m.DELETE:
+            if method == m.DELETE and status.successful:
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-- 
2.43.0


From c1d520a6db8f8fa5ff2d46a7a37d0cdc663b18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 31/45] fix: allow Content-Location in 304 responses (notice
 1127)

---
 httpolice/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index b6f568b..d8ec187 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -308,7 +308,7 @@ def check_response_itself(resp):
             # if the response does not have an ETag field",
             # but really it doesn't hurt even if there is an ETag,
             # and this is widely seen in practice.
-            if hdr.name in [h.etag, h.last_modified]:
+            if hdr.name in [h.etag, h.last_modified, h.content_location]:
                 continue
             elif known.header.is_representation_metadata(hdr.name):
                 complain(1127, header=hdr)
-- 
2.43.0


From c9df3103da1d1a4ca2ff2adfb56994035fa6e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 32/45] fix: do not expect If-Modified-Since to work along with
 If-None-Match (notice 1123)

---
 httpolice/response.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index d8ec187..8a10015 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -674,7 +674,11 @@ def check_response_in_context(resp, req):
                      for tag in req.headers.if_none_match):
                 complain(1121)
 
-        elif req.headers.if_modified_since >= resp.headers.last_modified.value:
+        # ``If-Modified-Since`` must be ignored when there is ``If-None-Match``
+        # (RFC 7232 section 3.3).
+        elif req.headers.if_none_match.is_absent and \
+                (req.headers.if_modified_since >=
+                 resp.headers.last_modified.value):
             complain(1123)
 
     if status in [st.not_modified, st.precondition_failed]:
-- 
2.43.0


From 47afcb2415190d01a2a15023cbfdce0fb0a21291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 33/45] fix: do not recommend Connection: close in HTTP/2
 (notice 1094)

---
 httpolice/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 8a10015..41a7cff 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -288,7 +288,9 @@ def check_response_itself(resp):
     if status == st.method_not_allowed and headers.allow.is_absent:
         complain(1089)
 
-    if status == st.request_timeout and u'close' not in headers.connection:
+    # HTTP/2 does not use the ``Connection`` header (RFC 7540 section 8.1.2.2).
+    if status == st.request_timeout and version != http2 and \
+            u'close' not in headers.connection:
         complain(1094)
 
     if headers.date.is_absent and (status.successful or status.redirection or
-- 
2.43.0


From 58ba11d8d17f3fd2c36e8920486f2ee83faec54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 34/45] fix: do not demand that the server act on Upgrade in
 HTTP/1.0 requests (notices 1102, 1103)

---
 httpolice/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 41a7cff..e4ee5f6 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -644,7 +644,9 @@ def check_response_in_context(resp, req):
         complain(1100)
 
     for protocol in resp.headers.upgrade:
-        if protocol in req.headers.upgrade:
+        # The server must ignore ``Upgrade`` in an HTTP/1.0 request
+        # (RFC 7230 section 6.7).
+        if protocol in req.headers.upgrade and req.version != http10:
             if status == st.upgrade_required:
                 complain(1102, protocol=protocol)
             elif status.successful:
-- 
2.43.0


From 6728eb20924bc554e4900de288fedae6c1da126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 35/45] fix: do not accept NaN and Infinity as JSON

---
 httpolice/message.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 68e2889..d743dc7 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -35,6 +35,16 @@ URL_ENCODED_GOOD_CHARS = Bits(
 )
 
 
+class _BadJSONConstant(ValueError):
+
+    pass
+
+
+def _bad_json_constant(name):
+    # By default, Python accepts ``NaN`` etc., which are not JSON.
+    raise _BadJSONConstant(u'%s is not allowed in JSON' % name)
+
+
 class Message(Blackboard):
 
     """An HTTP message (request or response)."""
@@ -132,8 +142,9 @@ class Message(Blackboard):
                 known.media_type.is_json(self.headers.content_type.item) and \
                 okay(self.unicode_body) and self.content_is_full:
             try:
-                r = json.loads(self.unicode_body)
-            except json.JSONDecodeError as e:
+                r = json.loads(self.unicode_body,
+                               parse_constant=_bad_json_constant)
+            except (json.JSONDecodeError, _BadJSONConstant) as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
             except (ValueError, RecursionError):
-- 
2.43.0


From b34a363abfb2d5631b6082ba049379f0846b272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 36/45] fix: do not judge the absent body of 1xx and 204
 responses by its Content-Type

---
 httpolice/response.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index e4ee5f6..7bee8c9 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -98,7 +98,8 @@ class Response(message.Message):
     @derived_property
     def content_is_full(self):
         """Does this response carry a complete instance of its Content-Type?"""
-        if self.status in [st.not_modified, st.early_hints]:
+        if self.status.informational or \
+                self.status in [st.no_content, st.not_modified]:
             return False
         if self.status == st.partial_content and \
                 self.headers.content_type != media.multipart_byteranges:
-- 
2.43.0


From eb8b6b911779b392a4d4c2a0fcfd7bbb30fe3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 37/45] fix: do not judge the absent body of a request by its
 Content-Type

---
 httpolice/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httpolice/request.py b/httpolice/request.py
index 5dd19ea..03554f0 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -200,6 +200,10 @@ class Request(message.Message):
                     self.headers.transfer_encoding.is_present)
         return None
 
+    @derived_property
+    def content_is_full(self):
+        return self.has_body is not False
+
 
 def check_request(req):
     """Apply all checks to the request `req`."""
-- 
2.43.0


From 613932edd8c5e94776775cd15c9043ff00be55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 38/45] fix: take the multipart boundary from the Content-Type
 that counts

---
 httpolice/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index d743dc7..1ea0769 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -187,7 +187,7 @@ class Message(Blackboard):
             # All multipart media types obey the same general syntax
             # specified in RFC 2046 Section 5.1,
             # and should be parseable as email message payloads.
-            multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
+            multipart_code = (b'Content-Type: ' + ctype.entries[-1].value +
                               b'\r\n\r\n' + self.decoded_body)
             parsed = parse_email_message(multipart_code)
             for d in parsed.defects:
-- 
2.43.0


From 7131542358b391de98affed0e7275c78f44fb9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 39/45] fix: honor the charset parameter of XML media types
 (RFC 7303)

---
 httpolice/message.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 1ea0769..de1a6d5 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -164,7 +164,7 @@ class Message(Blackboard):
             try:
                 # It's not inconceivable that a message might contain
                 # maliciously constructed XML data, so we use `defusedxml`.
-                return defusedxml.ElementTree.fromstring(self.decoded_body)
+                return defusedxml.ElementTree.fromstring(self._xml_source)
             except defusedxml.EntitiesForbidden:
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
@@ -178,6 +178,18 @@ class Message(Blackboard):
         else:
             return None
 
+    @property
+    def _xml_source(self):
+        # The ``charset`` parameter takes precedence over the XML declaration,
+        # and a byte order mark takes precedence over both (RFC 7303).
+        if u'charset' in self.headers.content_type.param and \
+                okay(self.unicode_body) and \
+                not self.decoded_body.startswith((codecs.BOM_UTF8,
+                                                  codecs.BOM_UTF16_LE,
+                                                  codecs.BOM_UTF16_BE)):
+            return self.unicode_body
+        return self.decoded_body
+
     @derived_property
     def multipart_data(self):
         ctype = self.headers.content_type
-- 
2.43.0


From a9271493fab14d7a7d4cd9d28fde83cb98cf94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 40/45] fix: do not expect a range of an encoded representation
 to be decodable (notice 1037)

---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index de1a6d5..8e5afba 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -93,7 +93,10 @@ class Message(Blackboard):
                 try:
                     r = decoder(r)
                 except Exception as e:
-                    self.complain(1037, coding=coding, error=e)
+                    # A range of an encoded representation (RFC 7233)
+                    # need not be decodable on its own.
+                    if self.content_is_full is not False:
+                        self.complain(1037, coding=coding, error=e)
                     r = Unavailable(r)
             elif okay(coding):
                 self.complain(1036, coding=coding)
-- 
2.43.0


From faa92e689e230ee2062e17da2f0642e7dc4b7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 41/45] fix: look for access_token in the target even when the
 scheme or host is unknown (notice 1269)

---
 httpolice/request.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 03554f0..a3a4c5c 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -180,11 +180,12 @@ class Request(message.Message):
     def query_params(self):
         # `parse_qs` returns an empty dictionary on garbage,
         # so this property should be understood as "salvageable query params."
-        if not okay(self.effective_uri):
+        # This doesn't need `effective_uri`, which may well be unknown.
+        if self.target_form not in [origin_form, absolute_form]:
             return {}
         # Not `urlparse`: it raises an exception on some valid IP literals.
-        (uri, _, _) = self.effective_uri.partition(u'#')
-        (_, _, query) = uri.partition(u'?')
+        (target, _, _) = self.target.partition(u'#')
+        (_, _, query) = target.partition(u'?')
         return parse_qs(query)
 
     @derived_property
-- 
2.43.0


From 5686bb5e1c8ce7d59cdd751def3ad64b11f0a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 42/45] fix: a partial response without Content-Type is not
 full content, either (notice 1037)

---
 httpolice/response.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 7bee8c9..6b74fe6 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -101,9 +101,10 @@ class Response(message.Message):
         if self.status.informational or \
                 self.status in [st.no_content, st.not_modified]:
             return False
-        if self.status == st.partial_content and \
-                self.headers.content_type != media.multipart_byteranges:
-            return False
+        if self.status == st.partial_content:
+            # Not `!=`, which is false when there is no Content-Type.
+            if not self.headers.content_type == media.multipart_byteranges:
+                return False
         if okay(self.request):
             return self.request.method != m.HEAD
         if self.body:
-- 
2.43.0


From 310ece3f3379d0c0f35e45aa0e478fd52d962807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 43/45] fix: do not demand Connection: close on 408 when the
 version is unknown (notice 1094)

---
 httpolice/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 6b74fe6..1cbd30c 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -291,7 +291,7 @@ def check_response_itself(resp):
         complain(1089)
 
     # HTTP/2 does not use the ``Connection`` header (RFC 7540 section 8.1.2.2).
-    if status == st.request_timeout and version != http2 and \
+    if status == st.request_timeout and version in [http10, http11] and \
             u'close' not in headers.connection:
         complain(1094)
 
-- 
2.43.0


From 8ec891b8416a7b6774e8f3fed37375acbbde96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 44/45] fix: do not demand that the server act on Upgrade in a
 request of unknown version (notices 1102, 1103)

---
 httpolice/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 1cbd30c..51e5af0 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -647,8 +647,9 @@ def check_response_in_context(resp, req):
 
     for protocol in resp.headers.upgrade:
         # The server must ignore ``Upgrade`` in an HTTP/1.0 request
-        # (RFC 7230 section 6.7).
-        if protocol in req.headers.upgrade and req.version != http10:
+        # (RFC 7230 section 6.7), and this may be one if we don't know.
+        if protocol in req.headers.upgrade and \
+                req.version not in [None, http10]:
             if status == st.upgrade_required:
                 complain(1102, protocol=protocol)
             elif status.successful:
-- 
2.43.0


From fc0d18ccb4a5f9130003b7cf9da17095b1ba8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 45/45] fix: do not say that a request has no bearer token when
 its body is unknown (notice 1269)

---
 httpolice/response.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 51e5af0..085e3f2 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -871,6 +871,11 @@ def _check_bearer_challenge(resp, hdr, challenge):
             ) or
             u'access_token' in req.query_params
         )
+        if not request_has_token and req.content_is_full and \
+                req.headers.content_type == \
+                media.application_x_www_form_urlencoded and \
+                not okay(req.url_encoded_data):
+            request_has_token = None        # It may be in the body.
 
     params = challenge.param
 
@@ -908,7 +913,8 @@ def _check_bearer_challenge(resp, hdr, challenge):
             resp.complain(1268, error_code=error_code,
                           expected_status=expected_status)
 
-    if req and req.headers.authorization.is_absent and not request_has_token:
+    if req and req.headers.authorization.is_absent and \
+            request_has_token is False:
         for param in [u'error', u'error_description', u'error_uri']:
             if param in params:
                 resp.complain(1269, param=param)
-- 
2.43.0

