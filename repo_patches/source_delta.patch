From cd63b9bd45a8909d88450af4a3a7af3b4b6ff75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 01/66] fix: keep uploaded files that are empty

An UploadedFile has a length, so an empty one is false and was dropped from FILES.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..8c3fc8a 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -321,7 +321,7 @@ class MultiPartParser:
         """
         for i, handler in enumerate(self._upload_handlers):
             file_obj = handler.file_complete(counters[i])
-            if file_obj:
+            if file_obj is not None:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
                 break
-- 
2.43.0


From 505abda0158607f769ac68e8a425504660fe8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 02/66] fix: do not loop forever on a base64 file part of
 truncated length

---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 8c3fc8a..4b7d2ac 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -261,6 +261,8 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From 36b71606fe478f817a056e89706b9b19db0132e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 03/66] fix: raise the intended exception instead of a
 TypeError

six.reraise takes (type, value, traceback); called with (instance, cause) it raises TypeError.
---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 2 +-
 request_parser/utils/http.py           | 2 +-
 request_parser/utils/module_loading.py | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 4b7d2ac..93134b4 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -8,7 +8,7 @@ import base64
 import binascii
 import cgi
 
-from six import reraise as raise_from
+from six import raise_from
 from future.backports.urllib.parse import unquote
 
 from request_parser.conf.settings import Settings
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..ca820de 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -16,7 +16,7 @@ from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_ir
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
-from six import reraise as raise_
+from six import raise_from as raise_
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..f2e99a8 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -16,7 +16,7 @@ from request_parser.exceptions.exceptions import TooManyFieldsSent
 from request_parser.utils.datastructures import MultiValueDict
 
 #Python 2 replacement for raise_from
-from six import reraise as raise_
+from six import raise_from as raise_
 
 # based on RFC 7232, Appendix C
 ETAG_MATCH = re.compile(r'''
diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..4774c6b 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -4,7 +4,7 @@ from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
 
-from six import reraise as raise_
+from six import raise_from as raise_
 
 def import_string(dotted_path):
     """
@@ -15,7 +15,7 @@ def import_string(dotted_path):
         module_path, class_name = dotted_path.rsplit('.', 1)
     except ValueError as err:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise_(ImportError("%s doesn't look like a module path" % dotted_path), err)
 
     module = import_module(module_path)
 
@@ -25,7 +25,7 @@ def import_string(dotted_path):
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise_(ImportError('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name)), err)
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From 21e4ecfd83e3a7e8e8aeccc9dbfd2d4ca7e4ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 04/66] fix: fall back to the raw data of a base64 field that
 does not decode

Python 2's b64decode reports malformed input with TypeError.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 93134b4..a31cce3 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -189,7 +189,7 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (binascii.Error, TypeError):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From cba800b5329347008be37a8afff3697dc48ff0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 05/66] fix: report a missing multipart boundary as
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index a31cce3..8d78dea 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -64,7 +64,7 @@ class MultiPartParser:
         content_types, opts = parse_header(content_type.encode('ascii'))
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From 375fa2d741eca0dde208fffa65be3ae88ce941d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 06/66] fix: make QueryDict copies and fromkeys() work

They passed '' where the constructor takes settings, and the encoding argument was ignored.
---
 request_parser/http/request.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index ca820de..532c74f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -619,7 +619,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
@@ -642,12 +642,14 @@ class QueryDict(MultiValueDict):
         self._mutable = mutable
 
     @classmethod
-    def fromkeys(cls, iterable, value='', mutable=False, encoding=None):
+    def fromkeys(cls, iterable, value='', mutable=False, encoding=None, settings=None):
         """
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        if settings is None:
+            settings = Settings.default()
+        q = cls(settings, mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -679,13 +681,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From 1232e14d0d34db504f45f4f5897c14e0f7b0c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 07/66] fix: make MultiValueDict and its subclasses picklable

---
 request_parser/utils/datastructures.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..7be10fd 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -1,4 +1,5 @@
 import copy
+import copy_reg
 from io import BytesIO
 
 from request_parser.exceptions.exceptions import SuspiciousMultipartForm, InputStreamExhausted
@@ -73,10 +74,15 @@ class MultiValueDict(dict):
                             copy.deepcopy(value, memo))
         return result
 
+    def __reduce_ex__(self, protocol):
+        #the data is part of the state; do not let pickle set the items through __setitem__()
+        #of an instance that does not have its attributes yet
+        return copy_reg.__newobj__, (self.__class__,), self.__getstate__()
+
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
@@ -85,7 +91,7 @@ class MultiValueDict(dict):
         #for each (key, value) tuple in data
         for k, v in data.items():
             #create the list with value v for key k
-            self.setlist(k, v)
+            dict.__setitem__(self, k, v)
         #update the attribute dictionary from the returned obj_dict
         #the update automatically iterates through the key, value pair in #obj_dict and populates the attributes; since there's no parameter
         #with '_dict' key, that item is ignored.
-- 
2.43.0


From 8d733e0e4eff9a2df4de21527ef01922113aec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 08/66] fix: accept extended (RFC 2231) parameters that are not
 ASCII

Text was forced through str(), and an unknown charset raised LookupError.
---
 request_parser/http/multipartparser.py | 6 +++++-
 request_parser/utils/encoding.py       | 2 +-
 request_parser/utils/text.py           | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 8d78dea..08f34e5 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -594,7 +594,11 @@ def parse_header(line):
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-                value = unquote(value.decode(), encoding=encoding.decode())
+                try:
+                    value = unquote(value.decode(), encoding=encoding.decode())
+                except Exception:
+                    #unknown encoding or not encoded in it: the value is not usable
+                    continue
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..54c2356 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -42,7 +42,7 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
     If strings_only is True, don't convert (some) non-string-like objects.
     """
     # Handle the common case first for performance reasons.
-    if issubclass(type(s), str):
+    if issubclass(type(s), (str, type(u''))):
         return s
     if strings_only and is_protected_type(s):
         return s
diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..c033e41 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -22,4 +22,6 @@ def _replace_entity(match):
             return match.group(0)
 
 def unescape_entities(text):
-    return _entity_re.sub(_replace_entity, str(text))
\ No newline at end of file
+    if not isinstance(text, (str, type(u''))):
+        text = str(text)
+    return _entity_re.sub(_replace_entity, text)
\ No newline at end of file
-- 
2.43.0


From 8aae0c53c1e6093047bd0e9a48fa5861e76e4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 09/66] fix: unescape any numeric entity in a file name without
 an error

---
 request_parser/utils/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index c033e41..0d31006 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -5,6 +5,8 @@ _entity_re = re.compile(r"&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));")
 
 def _replace_entity(match):
     text = match.group(1)
+    #keep the type of the text the character goes into
+    char = unichr if isinstance(text, type(u'')) else chr
     if text[0] == '#':
         text = text[1:]
         try:
@@ -12,12 +14,12 @@ def _replace_entity(match):
                 c = int(text[1:], 16)
             else:
                 c = int(text)
-            return chr(c)
-        except ValueError:
+            return char(c)
+        except (ValueError, OverflowError, TypeError):
             return match.group(0)
     else:
         try:
-            return chr(htmlentitydefs.name2codepoint[text])
+            return char(htmlentitydefs.name2codepoint[text])
         except (ValueError, KeyError):
             return match.group(0)
 
-- 
2.43.0


From 9290caa9893c095c24cc39b342f0568e0c9c8a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 10/66] fix: store an upload in a temporary file whatever its
 extension

A long, undecodable or NUL-containing extension made the upload fail with an OSError or UnicodeDecodeError.
---
 request_parser/files/uploadedfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..992f36b 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -3,6 +3,7 @@ Classes representing uploaded files.
 """
 
 import os
+import re
 from io import BytesIO
 
 from request_parser.conf.settings import Settings
@@ -56,6 +57,9 @@ class TemporaryUploadedFile(UploadedFile, object):
     """
     def __init__(self, name, content_type, size, charset, settings = None, content_type_extra=None, transfer_encoding=None):
         _, ext = os.path.splitext(name)
+        # The extension is the client's; leave out one that may not be usable in a file name.
+        if not re.match(r'\.[\w-]{1,32}\Z', ext):
+            ext = ''
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
-- 
2.43.0


From 2f4b11b287e31fd2280cfef57e88802a10bedd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 11/66] fix: use up the content of a multipart part that is
 ignored

What was not in the buffer yet was parsed as further parts, headers included.
---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 08f34e5..6f4dca7 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -159,6 +159,8 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    # Use up the part; what is left of it is not another part.
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -225,6 +227,7 @@ class MultiPartParser:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
                     if not file_name:
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From 666acbe96db2477e1e5747f4c3e530b34646b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 12/66] fix: do not accept '.' and '..' as the name of an
 uploaded file

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 6f4dca7..a730eba 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -334,7 +334,11 @@ class MultiPartParser:
     #What the hell is this for?
     def IE_sanitize(self, filename):
         """Cleanup filename from Internet Explorer full paths."""
-        return filename and filename[filename.rfind("\\") + 1:].strip()
+        filename = filename and filename[filename.rfind("\\") + 1:].strip()
+        # These name a directory, not a file.
+        if filename and filename[filename.rfind("/") + 1:] in ('', '.', '..'):
+            return ''
+        return filename
 
     def _close_files(self):
         # Free up all file handles.
-- 
2.43.0


From 2623548ba078d8fe6b84ef665b183d1a612b8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 13/66] fix: reject a request target or header that is not
 ASCII with InvalidHttpRequest

---
 request_parser/http/request.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 532c74f..c6e4c13 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -830,10 +830,13 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
+            try:
+                header = header.encode('ascii')
+                value = value.encode('ascii')
+            except UnicodeError:
+                raise InvalidHttpRequest("Invalid request header: {!r}".format(request_header), 400)
             if header in request_headers:
                 request_headers[header].append(value)
             else:
@@ -866,7 +869,11 @@ def parse_request_line(request_line=''):
 #    if not method or not uri or not protocol_version:
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
-    request_uri_result = urlparse(uri)
+    try:
+        request_uri_result = urlparse(uri)
+    except ValueError:
+        #not ASCII, or a malformed IPv6 address
+        raise InvalidHttpRequest("Invalid request target.", 400)
     request_line_result = {}
     request_line_result[MetaDict.ReqLine.SCHEME] = request_uri_result[0]
     request_line_result[MetaDict.ReqLine.DOMAIN] = request_uri_result[1]
-- 
2.43.0


From 14620274f4410f415ed99dfeca3dc9b217ed540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 14/66] fix: ignore an unknown charset in the Content-Type of a
 request

Any value the client sent was used for decoding and raised LookupError, TypeError, ...
---
 request_parser/http/request.py   |  5 +++--
 request_parser/utils/encoding.py | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index c6e4c13..8c7e168 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -12,7 +12,7 @@ from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
-from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
+from request_parser.utils.encoding import escape_uri_path, iri_to_uri, is_text_encoding, uri_to_iri
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
@@ -479,7 +479,8 @@ class HttpRequest(object,):
         #sanity check for when Content-Type is not present
         if header_dict is not None:        
             for key, value in header_dict.items():
-                if 'charset' == key.lower():
+                #the client chooses the charset; leave the default in place of one we don't know
+                if 'charset' == key.lower() and is_text_encoding(value):
                     self.encoding = value
                     break
 
diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 54c2356..a7e200d 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -25,6 +25,17 @@ _PROTECTED_TYPES = (
 )
 
 
+def is_text_encoding(name):
+    """
+    Determine if name is a known encoding that turns any bytes into text.
+    """
+    try:
+        name = name.encode('ascii')
+        return isinstance(bytes(bytearray(range(256))).decode(name, 'replace'), type(u''))
+    except Exception:
+        return False
+
+
 def is_protected_type(obj):
     """Determine if the object instance is of a protected type.
 
-- 
2.43.0


From 3abbefd79d3710d024587810dd04bcac0a93ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 15/66] fix: accept a urlencoded body that is not valid in the
 charset, as QueryDict does

---
 request_parser/http/request.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8c7e168..33424f8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -543,9 +543,9 @@ class HttpRequest(object,):
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
         #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
-            or self.content_type == 'application/json':
-            self._body = self.body().decode(self.encoding)
+        if self.content_type == 'application/x-www-form-urlencoded':
+            #not available as text, and POST also takes what is not valid in the charset
+            self._body = self.body()
         else:
             self._body = self.body().decode(self.encoding)
         
@@ -635,7 +635,7 @@ class QueryDict(MultiValueDict):
             # query_string normally contains URL-encoded data, a subset of ASCII.
             try:
                 query_string = query_string.decode(self.encoding)
-            except UnicodeDecodeError:
+            except UnicodeError:
                 # ... but some user agents are misbehaving :-(
                 query_string = query_string.decode('iso-8859-1')
         for key, value in limited_parse_qsl(query_string, **parse_qsl_kwargs):
-- 
2.43.0


From 618ce960be647c8c93164b7be26c96fdff7b2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 16/66] fix: make ImmutableMultiValueDict refuse pop(),
 popitem() and clear()

Also, the other methods lost return values or arguments when it was made mutable.
---
 request_parser/utils/datastructures.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 7be10fd..ad04bd3 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -296,7 +296,7 @@ class ImmutableMultiValueDict(MultiValueDict):
     def __setitem__(self, key, value):
         #set the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
@@ -328,14 +328,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
@@ -345,7 +345,19 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
+
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
 
 class LazyStream:
     """
-- 
2.43.0


From 6d2fcf3713cd6eae84f7b67f1e8d385cd066b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 17/66] fix: make a closed LazyStream readable

next() on the empty list raised TypeError instead of ending the stream.
---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index ad04bd3..e2ad804 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -436,7 +436,7 @@ class LazyStream:
         Replace the producer with an empty list. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From 9c12b9c346e95e742d75f1fb88c4663c1c2692b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 18/66] fix: make is_safe_url() work with native strings, and
 with one unicode host

A native url raised TypeError; a unicode host was searched for the netloc as a substring.
---
 request_parser/utils/http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index f2e99a8..3551323 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -16,7 +16,7 @@ from request_parser.exceptions.exceptions import TooManyFieldsSent
 from request_parser.utils.datastructures import MultiValueDict
 
 #Python 2 replacement for raise_from
-from six import raise_from as raise_
+from six import raise_from as raise_, string_types, text_type
 
 # based on RFC 7232, Appendix C
 ETAG_MATCH = re.compile(r'''
@@ -289,7 +289,7 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         return False
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, string_types):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
@@ -363,7 +363,7 @@ def _is_safe_url(url, allowed_hosts, require_https=False):
     # Forbid URLs that start with control characters. Some browsers (like
     # Chrome) ignore quite a few control characters at the start of a
     # URL and might consider the URL as scheme relative.
-    if unicodedata.category(url[0])[0] == 'C':
+    if unicodedata.category(text_type(url[0]))[0] == 'C':
         return False
     scheme = url_info.scheme
     # Consider URLs without a scheme (e.g. //example.com/p) to be http.
-- 
2.43.0


From ccec98f636ccdab343f6f68e2e216ccf18ff3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 19/66] fix: report invalid padding in urlsafe_base64_decode()
 as ValueError

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 3551323..dbf8060 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -225,7 +225,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (LookupError, BinasciiError, TypeError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From f63a503832e9fa578c1994dfc2b1750da0df00be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 20/66] fix: make iri_to_uri() work with unicode

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index a7e200d..93c74cb 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -96,7 +96,7 @@ def iri_to_uri(iri):
         return iri
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
-    else:
+    elif not isinstance(iri, (str, type(u''))):
         iri = str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
-- 
2.43.0


From 290950dd2fe011b506464487ec6db923055c5096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 21/66] fix: make QueryDict.urlencode() work with text that is
 not ASCII

---
 request_parser/http/request.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 33424f8..5fbc98f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -746,6 +746,10 @@ class QueryDict(MultiValueDict):
             'next=/a%26b/'
         """
         output = []
+
+        def to_bytes(s):
+            return s.encode(self.encoding) if isinstance(s, type(u'')) else str(s)
+
         if safe:
             safe = safe.encode(self.encoding)
 
@@ -756,7 +760,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(to_bytes(k), to_bytes(v))
                 for v in list_
             )
         return '&'.join(output)
-- 
2.43.0


From 84d948b1e9427c906f304efc20a49570fdab6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 22/66] fix: make urlencode() treat unicode values as strings

---
 request_parser/utils/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index dbf8060..6e0a840 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -97,7 +97,7 @@ def urlencode(query, doseq=False):
                 'Cannot encode None in a query string. Did you mean to pass '
                 'an empty string or omit the value?'
             )
-        elif isinstance(value, (str, bytes)):
+        elif isinstance(value, string_types):
             query_val = value
         else:
             try:
@@ -114,7 +114,7 @@ def urlencode(query, doseq=False):
                             'Cannot encode None in a query string. Did you '
                             'mean to pass an empty string or omit the value?'
                         )
-                    elif not isinstance(item, bytes):
+                    elif not isinstance(item, string_types):
                         item = str(item)
                     query_val.append(item)
         query_params.append((key, query_val))
-- 
2.43.0


From 977696180fade9022072695e8fec65c70fd58b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 23/66] fix: do not take Python's own encodings for a charset
 of a request

---
 request_parser/utils/encoding.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 93c74cb..33e6d9c 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -25,12 +25,18 @@ _PROTECTED_TYPES = (
 )
 
 
+# Encodings of Python's own, which are not character sets of text.
+_PYTHON_ENCODINGS = ('punycode', 'idna', 'rot-13', 'unicode-escape', 'raw-unicode-escape', 'unicode-internal')
+
+
 def is_text_encoding(name):
     """
-    Determine if name is a known encoding that turns any bytes into text.
+    Determine if name is a known character set that turns any bytes into text.
     """
     try:
         name = name.encode('ascii')
+        if codecs.lookup(name).name.replace('_', '-') in _PYTHON_ENCODINGS:
+            return False
         return isinstance(bytes(bytearray(range(256))).decode(name, 'replace'), type(u''))
     except Exception:
         return False
-- 
2.43.0


From 50cc55b11e8a3b6af25be0260d2b7cbece235b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 24/66] fix: do not accept a newline at the end of a host

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5fbc98f..af97c9d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -20,7 +20,7 @@ from six import raise_from as raise_
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From 59cc8d4b39a1d8dc2d278e81f58ed1c3874a664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 25/66] fix: use the upload handlers that were set on the
 request

parse_request_body() always replaced them, and the getter failed before it.
---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index af97c9d..70e1204 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -73,6 +73,9 @@ class HttpRequest(object,):
         self._request_header_parsed = False
         self._request_body_parsed = False
 
+        #initialized from settings when they are needed
+        self._upload_handlers = []
+
         # POST dictionary in a multipart/form-data is of the form
         # POST['key'] = { 'data'              : data,
         #                 'content-type'      : type,
@@ -502,9 +505,6 @@ class HttpRequest(object,):
         if self._request_body_parsed:
             return
         
-        #initialize the upload_hanldlers
-        self._initialize_handlers()
-
         #if header not parsed already
         #if parse_request_body is called, then it means
         #that we're retaining the request header data but
-- 
2.43.0


From 0a86e13b948da4628ea1e6d5a6d4de858d1f81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 26/66] fix: do not take over the body of the previous request
 when a new stream is set

A second urlencoded request was parsed from the first one's body, an empty second body left POST and FILES of the first, and upload handlers kept their state.
---
 request_parser/http/request.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 70e1204..e90adf9 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -75,6 +75,7 @@ class HttpRequest(object,):
 
         #initialized from settings when they are needed
         self._upload_handlers = []
+        self._upload_handlers_used = False
 
         # POST dictionary in a multipart/form-data is of the form
         # POST['key'] = { 'data'              : data,
@@ -226,7 +227,7 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
+        This reset doesn't reset POST and FILES. However, calling parse_request_body() is
         possible.
         """
         self._stream = val
@@ -237,6 +238,8 @@ class HttpRequest(object,):
 
         #reset the header META data
         self._reset_header_meta_data()
+        #forget the body of the previous request
+        self._reset_body_data()
         #reset parse status flags
         self._request_header_parsed = False
         self._request_body_parsed = False
@@ -267,8 +270,7 @@ class HttpRequest(object,):
             del self.POST
         if hasattr(self, 'FILES'):
             del self.FILES
-        if hasattr(self, '_body'):
-            del self._body
+        self._reset_body_data()
         
         #re-init POST and FILES
         self.POST = QueryDict(self.settings, mutable=True)
@@ -277,6 +279,18 @@ class HttpRequest(object,):
         #reset the body parsing flag
         self._request_body_parsed = False
 
+    def _reset_body_data(self):
+        """
+        Remove what parse_request_body() and body() keep of the body of a request.
+        """
+        for name in ('_body', '_post', '_files'):
+            if hasattr(self, name):
+                delattr(self, name)
+        #upload handlers have a state and serve one upload
+        if self._upload_handlers_used:
+            self._upload_handlers = []
+            self._upload_handlers_used = False
+
     def _reset_header_meta_data(self):
         """
         Remove the listed below META data for a parser instance.
@@ -354,6 +368,7 @@ class HttpRequest(object,):
 
     def _parse_file_upload(self, META, post_data):
         """Return a tuple of (POST QueryDict, FILES MultiValueDict)."""
+        self._upload_handlers_used = True
         parser = MultiPartParser(META, post_data, self.upload_handlers, self.settings ,self.encoding)        
         return parser.parse()
     
@@ -520,6 +535,8 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
@@ -555,9 +572,9 @@ class HttpRequest(object,):
         return
 
     def close(self):
-        if hasattr(self, '_files'):
-            for f in chain.from_iterable(l[1] for l in self._files.lists()):
-                f.close()
+        files = self._files if hasattr(self, '_files') else self.FILES
+        for f in chain.from_iterable(l[1] for l in files.lists()):
+            f.close()
 
     # File-like and iterator interface.
     #
-- 
2.43.0


From ad331c73142598cb64a0d6ae395f206cdfa6a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 27/66] fix: keep the charset of one request out of others

It was stored in the settings object, which requests share, and stayed when a new stream was set.
---
 request_parser/http/request.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e90adf9..3833883 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -65,9 +65,12 @@ class HttpRequest(object,):
 
         #take care of settings to use default settings
         if settings is not None:
-            self.settings = settings
+            #the charset of a request is kept in its settings; it is not for other requests
+            self.settings = copy.copy(settings)
         else:
-            self.settings = Settings.default()        
+            self.settings = Settings.default()
+        #the charset of a request that doesn't declare one
+        self._default_charset = self.settings.DEFAULT_CHARSET
 
         #Parsing status flags
         self._request_header_parsed = False
@@ -204,6 +207,10 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
+        self._default_charset = val
+        self._set_charset(val)
+
+    def _set_charset(self, val):
         self.settings.DEFAULT_CHARSET = val
         if hasattr(self, 'GET'):
             del self.GET
@@ -237,6 +244,7 @@ class HttpRequest(object,):
         self._stream = LazyStream(self._stream)
 
         #reset the header META data
+        self.settings.DEFAULT_CHARSET = self._default_charset
         self._reset_header_meta_data()
         #forget the body of the previous request
         self._reset_body_data()
@@ -499,7 +507,7 @@ class HttpRequest(object,):
             for key, value in header_dict.items():
                 #the client chooses the charset; leave the default in place of one we don't know
                 if 'charset' == key.lower() and is_text_encoding(value):
-                    self.encoding = value
+                    self._set_charset(value)
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-- 
2.43.0


From 730cc22606a3645885df619bacd0585f05d35a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 28/66] fix: keep GET and the body available when the encoding
 of a request is set

---
 request_parser/http/request.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 3833883..3594fae 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -213,11 +213,10 @@ class HttpRequest(object,):
     def _set_charset(self, val):
         self.settings.DEFAULT_CHARSET = val
         if hasattr(self, 'GET'):
-            del self.GET
+            query_string = self.META.get(MetaDict.Info.QUERY_STRING)
+            self.GET = QueryDict(self.settings, query_string, mutable=not query_string)
         if hasattr(self, '_post'):
             del self._post
-        if hasattr(self, '_body'):
-            del self._body
     
     @property
     def stream(self):
-- 
2.43.0


From f49bb38aa680706b5a2e407b0ef299c59834fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 29/66] fix: leave the body available to parse_request_body()
 after body()

POST and FILES were empty when body() had been called before.
---
 request_parser/http/request.py | 69 +++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 3594fae..98ee9d8 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -390,36 +390,44 @@ class HttpRequest(object,):
             raise RawPostDataException("You cannot access raw body after reading from request's data stream.")
     
         elif self._request_header_parsed and not hasattr(self, '_body'):
-            # Limit the maximum request data size that will be handled in-memory.
-            
-            #QUESTION: How/where is this used - is the self.read() used based on this?
-            #ANSWER: Please see settings.py for what DATA_UPLOAD_MAX_MEMORY_SIZE is for.
-
-            #default chunk_size is 64KB
-            chunk_size = 64 * (2 ** 10)
-            read_size = 0
-            chunk = ''
-            _body = ''
-            try:                
-                chunk = self.read(chunk_size)
-                read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
-                        chunk:
-                    _body += chunk
-                    chunk = self.read(chunk_size)
-                    read_size += len(chunk)
-            except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
-            
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
-                raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
-            self._body = _body
-            
+            self._body = self._read_body()
+            #leave the body in the stream for parse_request_body()
+            self._stream.unget(self._body)
+
         elif not self._request_header_parsed:
             self.parse_request_header()
             return self.body()
         return self._body
 
+    def _read_body(self):
+        """
+        Read what is left of the request stream.
+        """
+        # Limit the maximum request data size that will be handled in-memory.
+
+        #QUESTION: How/where is this used - is the self.read() used based on this?
+        #ANSWER: Please see settings.py for what DATA_UPLOAD_MAX_MEMORY_SIZE is for.
+
+        #default chunk_size is 64KB
+        chunk_size = 64 * (2 ** 10)
+        read_size = 0
+        chunk = ''
+        _body = ''
+        try:
+            chunk = self.read(chunk_size)
+            read_size += len(chunk)
+            while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
+                    chunk:
+                _body += chunk
+                chunk = self.read(chunk_size)
+                read_size += len(chunk)
+        except IOError as e:
+            raise_(UnreadablePostError(*e.args), e)
+
+        if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
+        return _body
+
     def parse_request_header(self):
         """
         Parse the request headers and populate the META dictionary.
@@ -561,17 +569,16 @@ class HttpRequest(object,):
         elif self.content_type == 'application/x-www-form-urlencoded':
             #if the content-type is of form-urlencoded, then all we need to do is to parse the body
             #as a key-value pair. This gives our _post and an empty _files of MultiValueDict
-            self._post, self._files = QueryDict(self.settings, self.body(), encoding=self.encoding), MultiValueDict()
+            self._body = self._read_body()
+            self._post, self._files = QueryDict(self.settings, self._body, encoding=self.encoding), MultiValueDict()
         #for any other CONTENT_TYPE, an empty QueryDict for _post and empty MultiValueDict for _files
         else:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
         #restart content-type check
-        if self.content_type == 'application/x-www-form-urlencoded':
-            #not available as text, and POST also takes what is not valid in the charset
-            self._body = self.body()
-        else:
-            self._body = self.body().decode(self.encoding)
+        #a urlencoded body is not available as text, and POST also takes what is not valid in the charset
+        if self.content_type != 'application/x-www-form-urlencoded':
+            self._body = self._read_body().decode(self.encoding)
         
         self._request_body_parsed = True
         self.POST = self._post
-- 
2.43.0


From 330d858c010a527003c75023188ba2ed286eb44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 30/66] fix: make is_ajax() look at the X-Requested-With header

---
 request_parser/http/request.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 98ee9d8..7b1ee09 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -179,9 +179,7 @@ class HttpRequest(object,):
         return self.scheme == 'https'
 
     def is_ajax(self):
-        if 'XMLHttpRequest' in self.META[MetaDict.Info.REQ_HEADERS]:
-            return True
-        return False
+        return self.META[MetaDict.Info.REQ_HEADERS].get('X-Requested-With') == 'XMLHttpRequest'
 
     def is_plain_text(self):
         """
-- 
2.43.0


From d61422ad1f2a321eb8760e07a11aa54c4e8781e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 31/66] fix: return the stream from the stream and body_stream
 properties

---
 request_parser/http/request.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 7b1ee09..a17043e 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -218,9 +218,7 @@ class HttpRequest(object,):
     
     @property
     def stream(self):
-        if hasattr(self, '_stream') and not self._stream:
-            return self._stream
-        return None
+        return self._stream
 
     @stream.setter
     def stream(self, val):
@@ -251,9 +249,7 @@ class HttpRequest(object,):
     
     @property
     def body_stream(self):
-        if hasattr(self, '_stream') and not self._stream:
-            return self._stream
-        return None
+        return self._stream
 
     @body_stream.setter
     def body_stream(self, val):
-- 
2.43.0


From 5e0c2f0c22cd1b183a35184d5648134c91e37c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 32/66] fix: do not take a request header that failed to parse
 for a parsed one

parse_request_body() went on after it instead of raising RequestHeaderParseException.
---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index a17043e..507a956 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -442,7 +442,6 @@ class HttpRequest(object,):
         request_header_end = -1
         while request_header_end == -1:
             chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)            
-            self._request_header_parsed = True
             if not chunk:
                 break
             
@@ -515,6 +514,7 @@ class HttpRequest(object,):
         self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
+        self._request_header_parsed = True
 
     def _mark_post_parse_error(self):
         self._post = QueryDict(self.settings)
-- 
2.43.0


From 2ac9c0378790ed52596762859d122e2eaf0e935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 33/66] fix: recognize headers whatever the case of their name

---
 request_parser/http/request.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 507a956..8df5b49 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -19,6 +19,8 @@ from constants import MetaDict
 from six import raise_from as raise_
 
 RAISE_ERROR = object()
+#names of the headers that are looked up here; header names are case-insensitive
+header_names = {name.lower(): name for name in ('Host', 'Content-Type', 'Content-Length', 'X-Requested-With')}
 #validates a given string for a format of the form host:port
 host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
@@ -867,6 +869,7 @@ def parse_request_headers(request_header_stream):
                 value = value.encode('ascii')
             except UnicodeError:
                 raise InvalidHttpRequest("Invalid request header: {!r}".format(request_header), 400)
+            header = header_names.get(header.lower(), header)
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From b0ebc0ddc9bd4d3a4944b01852cb81a979a46baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 34/66] fix: keep the port in get_uri()

---
 request_parser/http/request.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8df5b49..b912444 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -165,9 +165,13 @@ class HttpRequest(object,):
         """
         Return a safe, absolute URI if raw is false from meta data available in this request. Return the raw URI otherwise
         """
-        return '{scheme}://{host}{path}'.format(
+        #65536 is for a port that is not known
+        default_port = {'http': '80', 'https': '443'}.get(self.scheme)
+        port = '' if self.port is None or str(self.port) in (default_port, '65536') else ':%s' % self.port
+        return '{scheme}://{host}{port}{path}'.format(
             scheme=self.scheme,
             host=self.host,
+            port=port,
             path = self.get_full_path(raw=True) if raw else self.get_full_path(),
         )
 
-- 
2.43.0


From d692db330196d95d6afd3b9f643a7d653fb43892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 35/66] fix: keep the path parameters in the path of a request

---
 request_parser/http/request.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b912444..2af5edb 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -505,6 +505,9 @@ class HttpRequest(object,):
 
         self.method = meta_dict[MetaDict.ReqLine.METHOD]
         self.path = meta_dict[MetaDict.ReqLine.PATH]
+        #parameters are a part of the path
+        if meta_dict[MetaDict.ReqLine.PARAMS]:
+            self.path += ';' + meta_dict[MetaDict.ReqLine.PARAMS]
         self.protocol_info = meta_dict[MetaDict.ReqLine.PROTO_INFO]
         #correctly set the encoding and the content-type
         self.content_type, header_dict = parse_header(request_headers.get('Content-Type'))
-- 
2.43.0


From d9505c54c00e23b695f268543dad810dd8d2c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 36/66] fix: close the partial files of a failed upload, and
 only those of a skipped one

---
 request_parser/files/uploadhandler.py  |  7 ++++++-
 request_parser/http/multipartparser.py | 29 ++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 0f861ab..2ab93ae 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -210,7 +210,12 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
         self._handler = MemoryFileUploadHandler(request)
         self._received_data_size = 0
         self._switched_to_temp_file = False
-    
+
+    @property
+    def file(self):
+        #the file that is being received
+        return getattr(self._handler, 'file', None)
+
     def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
         #We grab the settings object and call the handler's handle_raw_input to activate it.
         self._settings = settings
diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index a730eba..e72dc00 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,8 +7,10 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import sys
+from itertools import chain
 
-from six import raise_from
+from six import raise_from, reraise
 from future.backports.urllib.parse import unquote
 
 from request_parser.conf.settings import Settings
@@ -91,6 +93,7 @@ class MultiPartParser:
         self._encoding = encoding or self.settings.DEFAULT_CHARSET
         self._content_length = content_length
         self._upload_handlers = upload_handlers
+        self._files = MultiValueDict()
 
     def parse(self):
         """
@@ -99,6 +102,17 @@ class MultiPartParser:
 
         Return a tuple containing the POST and FILES dictionary, respectively.
         """
+        try:
+            return self._parse()
+        except Exception:
+            # No one else gets to close the files.
+            exc_info = sys.exc_info()
+            self._close_files()
+            for file_obj in chain.from_iterable(l[1] for l in self._files.lists()):
+                file_obj.close()
+            reraise(*exc_info)
+
+    def _parse(self):
         from request_parser.http.request import QueryDict
 
         encoding = self._encoding
@@ -130,7 +144,6 @@ class MultiPartParser:
 
         # Create the data structures to be used later.
         self._post = QueryDict(self.settings, mutable=True)
-        self._files = MultiValueDict()
 
         # Instantiate the stream:
         stream = LazyStream(ChunkIter(self._input_data, self._chunk_size))
@@ -309,6 +322,9 @@ class MultiPartParser:
             if not e.connection_reset:
                 exhaust(self._input_data)
         else:
+            # The last file is not complete.
+            if old_field_name:
+                self._close_files()
             # Make sure that the request data is all fed
             exhaust(self._input_data)
 
@@ -344,9 +360,14 @@ class MultiPartParser:
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
+        # The files that are complete stay open.
+        complete = []
+        for file_obj in chain.from_iterable(l[1] for l in self._files.lists()):
+            complete += [file_obj, getattr(file_obj, 'file', None)]
         for handler in self._upload_handlers:
-            if hasattr(handler, 'file'):
-                handler.file.close()
+            file_obj = getattr(handler, 'file', None)
+            if file_obj is not None and not any(file_obj is f for f in complete):
+                file_obj.close()
 
 class InterBoundaryIter:
     """
-- 
2.43.0


From 58b6cae020a9975778a2683ffd051659e3d61942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 37/66] fix: create the upload directory when a file is stored
 in it

---
 request_parser/files/uploadedfile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 992f36b..b83a02f 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -63,7 +63,11 @@ class TemporaryUploadedFile(UploadedFile, object):
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
-        file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=_settings.FILE_UPLOAD_TEMP_DIR)
+        temp_dir = _settings.FILE_UPLOAD_TEMP_DIR
+        # The default directory is not there from the start.
+        if temp_dir is not None and not os.path.isdir(temp_dir):
+            os.makedirs(temp_dir)
+        file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=temp_dir)
         super(TemporaryUploadedFile, self).__init__(file, name, content_type, size, charset, content_type_extra, transfer_encoding)
 
     def temporary_file_path(self):
-- 
2.43.0


From d0c7f9aa86a566e1c91d4c2b76619430deb3077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 38/66] fix: report a directory that cannot be created as
 InvalidDirectory

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 226664d2d215722982bab66a7cf0c7d1d3ab885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 39/66] fix: do not read the body that is left after an upload
 was stopped

---
 request_parser/http/request.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 2af5edb..0386981 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -577,10 +577,6 @@ class HttpRequest(object,):
         #for any other CONTENT_TYPE, an empty QueryDict for _post and empty MultiValueDict for _files
         else:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
-        
-        #restart content-type check
-        #a urlencoded body is not available as text, and POST also takes what is not valid in the charset
-        if self.content_type != 'application/x-www-form-urlencoded':
             self._body = self._read_body().decode(self.encoding)
         
         self._request_body_parsed = True
-- 
2.43.0


From 6d974a2d14ecd221d57b17c0d2f52db816e3e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 40/66] fix: do not limit the size of a body when
 DATA_UPLOAD_MAX_MEMORY_SIZE is None

---
 request_parser/http/request.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 0386981..753f793 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -413,10 +413,12 @@ class HttpRequest(object,):
         read_size = 0
         chunk = ''
         _body = ''
+        #None is for no limit
+        max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
         try:
             chunk = self.read(chunk_size)
             read_size += len(chunk)
-            while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
+            while (max_size is None or read_size <= max_size) and\
                     chunk:
                 _body += chunk
                 chunk = self.read(chunk_size)
@@ -424,7 +426,7 @@ class HttpRequest(object,):
         except IOError as e:
             raise_(UnreadablePostError(*e.args), e)
 
-        if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+        if max_size is not None and read_size > max_size:
             raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
         return _body
 
-- 
2.43.0


From a7d183bfa5ffb42a5e4ff99f5c98ab34c6806f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 41/66] fix: make the readline() interface of a request work

---
 request_parser/utils/datastructures.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index e2ad804..7d65808 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -429,6 +429,27 @@ class LazyStream:
         self.position += len(output)
         return output
 
+    def readline(self, size=None):
+        """
+        Return the bytes up to the end of the line, but not more than size.
+        """
+        out = []
+        remaining = None if size is None or size < 0 else size
+        while remaining != 0:
+            try:
+                chunk = next(self)
+            except StopIteration:
+                break
+            end = chunk.find(b'\n') + 1 or len(chunk)
+            if remaining is not None:
+                end = min(end, remaining)
+                remaining -= end
+            self.unget(chunk[end:])
+            out.append(chunk[:end])
+            if out[-1].endswith(b'\n'):
+                break
+        return b''.join(out)
+
     def close(self):
         """
         Used to invalidate/disable this lazy stream.
-- 
2.43.0


From 2651c89ee8cde9b47880992797cd7b146b5ceecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 42/66] fix: decode the names of multipart fields in the
 charset of the request

---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index e72dc00..1057a5b 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -143,7 +143,7 @@ class MultiPartParser:
                 return result[0], result[1]
 
         # Create the data structures to be used later.
-        self._post = QueryDict(self.settings, mutable=True)
+        self._post = QueryDict(self.settings, mutable=True, encoding=encoding)
 
         # Instantiate the stream:
         stream = LazyStream(ChunkIter(self._input_data, self._chunk_size))
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 753f793..7b14943 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -810,7 +810,7 @@ def bytes_to_text(s, encoding):
     """
     if isinstance(s, bytes):
         #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return s.decode(encoding, 'replace')
     else:
         return s
 
-- 
2.43.0


From 376edde817f25b8ee175f4d63b4268130ab309ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 43/66] fix: take the media type of a multipart body whatever
 its case

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1057a5b..45637a7 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -59,7 +59,7 @@ class MultiPartParser:
 
         # Content-Type should contain multipart and the boundary information.
         content_type = META.get('Content-Type', '')
-        if not content_type.startswith('multipart/'):
+        if not content_type.lower().startswith('multipart/'):
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-- 
2.43.0


From 9e4abe9f4769d4bf692a3f5a26a2ba649a2182ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 44/66] fix: do not take an escaped quote for the end of a
 header parameter

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 45637a7..65309f4 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -633,6 +633,9 @@ def parse_header(line):
             pdict[name] = value
     return key, pdict
 
+def _count_quotes(s):
+    return s.replace(b'\\\\', b'').replace(b'\\"', b'').count(b'"')
+
 def _parse_header_params(s):
     plist = []
 
@@ -653,7 +656,8 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        #a " that is escaped doesn't count
+        while end > 0 and _count_quotes(s[:end]) % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From cbd4b12f048b2d4e45ba22797e519895813cf5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 45/66] fix: base64 data that is not valid is rejected wherever
 it is cut into chunks

b64decode() skips unknown characters and ends at padding, so an invalid file
gave an error or different content depending on the chunk size.
---
 request_parser/http/multipartparser.py | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 65309f4..6800cdf 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -5,7 +5,6 @@ Exposes one class, ``MultiPartParser``, which feeds chunks of uploaded data to
 file upload handlers for processing.
 """
 import base64
-import binascii
 import cgi
 import sys
 from itertools import chain
@@ -203,8 +202,8 @@ class MultiPartParser:
                         num_bytes_read += len(raw_data)
                         try:
                             #decode the data read
-                            data = base64.b64decode(raw_data)
-                        except (binascii.Error, TypeError):
+                            data = decode_base64(raw_data)
+                        except (ValueError, TypeError):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
@@ -253,6 +252,7 @@ class MultiPartParser:
                         content_length = None
 
                     counters = [0] * len(handlers)
+                    base64_padded = False
                     try:
                         for handler in handlers:
                             try:
@@ -283,7 +283,11 @@ class MultiPartParser:
                                     remaining = len(stripped_chunk) % 4
 
                                 try:
-                                    chunk = base64.b64decode(stripped_chunk)
+                                    # The padding ends the data.
+                                    if base64_padded and stripped_chunk:
+                                        raise ValueError('data after the padding')
+                                    chunk = decode_base64(stripped_chunk)
+                                    base64_padded = base64_padded or stripped_chunk.endswith(b'=')
                                 except Exception as exc:
                                     # Since this is only a chunk, any error is an unfixable error.                                
                                     raise_from(MultiPartParserError("Could not decode base64 data."), exc)
@@ -502,6 +506,21 @@ class BoundaryIter:
                 end -= 1
             return end, next
 
+BASE64_ALPHABET = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
+
+def decode_base64(data):
+    """
+    Decode base64 data, ignoring whitespace. Raise ValueError if it is not
+    valid: base64.b64decode() skips what it does not know, so that its result
+    would depend on where the data is cut into chunks.
+    """
+    data = b"".join(data.split())
+    digits = data.rstrip(b'=')
+    if (len(data) % 4 or len(data) - len(digits) > 2 or
+            digits.translate(None, BASE64_ALPHABET)):
+        raise ValueError('Invalid base64 data')
+    return base64.b64decode(data)
+
 def exhaust(stream_or_iterable):
     """Exhaust an iterator or stream."""
     try:
-- 
2.43.0


From a9d12dd1e510fb86448db199da84093c83555e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 46/66] fix: close the temporary file when moving an upload to
 disk fails

Writing the data received so far failed before the handler knew the new file.
---
 request_parser/files/uploadhandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 2ab93ae..4d82ac1 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -247,12 +247,13 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
             #create a new file
             temp_upload_handler.new_file(self._handler.field_name, self._handler.file_name, self._handler.content_type, 0, self._handler.charset, self._handler.content_type_extra, self._handler.transfer_encoding)
 
+            #reset the current file handler; from here on its file is the one
+            #to close if the upload fails
+            self._handler = temp_upload_handler
+
             #stream all of the read data into the temp file
             temp_upload_handler.receive_data_chunk(content, 0)
 
-            #reset the current file handler
-            self._handler = temp_upload_handler
-
             #flag that we've switched to temp file
             self._switched_to_temp_file = True
         
-- 
2.43.0


From 45ef509ccc53ad9124111c7d429203fd18d337fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 47/66] fix: QueryDict.update() and setlistdefault() keep the
 values of keys given as bytes

---
 request_parser/http/request.py         | 1 +
 request_parser/utils/datastructures.py | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 7b14943..30a68de 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -734,6 +734,7 @@ class QueryDict(MultiValueDict):
 
     def setlistdefault(self, key, default_list=None):
         self._assert_mutable()
+        key = bytes_to_text(key, self.encoding)
         return super(QueryDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 7d65808..fed69dc 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -211,7 +211,9 @@ class MultiValueDict(dict):
                 #then for each (key, value_list) tuple,
                 for key, value_list in other_dict.lists():
                     #the existing one is extended
-                    self.setlistdefault(key).extend(value_list)
+                    self.setlistdefault(key)
+                    for value in list(value_list):
+                        self.appendlist(key, value)
             #if its not a MultiValueDict,
             else:
                 #then assuming it's some dictionary, it's iterated upon
@@ -221,7 +223,7 @@ class MultiValueDict(dict):
                         #the existing one is /appended/ since we don't know
                         #the type of the value, we can only append and not
                         #extend
-                        self.setlistdefault(key).append(value)
+                        self.appendlist(key, value)
                 #if our assumption of other_dict being another dictionary
                 #is wrong
                 except TypeError:
@@ -231,7 +233,7 @@ class MultiValueDict(dict):
         for key, value in kwargs.items():
             #the value for each key is /appended/ since we don't know if value
             #will be another list
-            self.setlistdefault(key).append(value)
+            self.appendlist(key, value)
 
     def dict(self):
         """Return current object as a dict with singular values."""
-- 
2.43.0


From 28c927791cdd5bfcb3463f6273a1ea7bc0042ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 48/66] fix: Settings of an empty or derived dictionary are
 complete

---
 request_parser/conf/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index b87cf29..86b6f6e 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -40,7 +40,8 @@ class Settings:
     ]
 
     def __init__(self, settings_dict=None, check_presence=False):
-        if not settings_dict or type(settings_dict) != dict:
+        #an empty dictionary is for the defaults; default() needs an object without any
+        if not isinstance(settings_dict, dict):
             return
 
         default_settings = Settings.default(check_presence=check_presence)
-- 
2.43.0


From 715a6f9e66381eb538fc4e01f05ef51e3fdf726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:36 +0000
Subject: [PATCH 49/66] fix: lists() does not give access to the lists of an
 immutable container

---
 request_parser/utils/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index fed69dc..cce8806 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -185,8 +185,8 @@ class MultiValueDict(dict):
             yield key, self[key]
 
     def lists(self):
-        """Yield (key, list) pairs."""
-        return iter(super(MultiValueDict, self).items())
+        """Yield (key, list) pairs. As with getlist(), the lists are copies."""
+        return iter([(key, self.getlist(key)) for key in self])
 
     def values(self):
         """Yield the last value on every key list."""
-- 
2.43.0


From 315fe044c4b877f5166c31fcf057fc42da091360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 50/66] fix: do not take apostrophes in the name of a header
 parameter for an extended value

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 6800cdf..f460686 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -635,7 +635,7 @@ def parse_header(line):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
                 name = name[:-1]
-                if p.count(b"'") == 2:
+                if p.count(b"'", i + 1) == 2:
                     has_encoding = True
             value = p[i + 1:].strip()
             if has_encoding:
-- 
2.43.0


From 7068b60778a9c0dbbf6d4b5f57348b572fb1def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 51/66] fix: uri_to_iri() of text with characters beyond the
 basic plane

---
 request_parser/utils/encoding.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 33e6d9c..8aaf370 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -6,7 +6,8 @@ import locale
 import warnings
 from decimal import Decimal
 
-from future.backports.urllib.parse import quote, unquote
+from future.backports.urllib.parse import quote, unquote_to_bytes
+from future.utils import native
 
 class DjangoUnicodeDecodeError(UnicodeDecodeError):
     def __init__(self, obj, *args):
@@ -116,9 +117,9 @@ def uri_to_iri(uri):
     #encode the provided bytes/string to UTF-8
     #uri = str(uri).encode('utf-8')
 
-    # unquote(uri) decodes to UNICODE code point, SEE: https://en.wikipedia.org/wiki/List_of_Unicode_characters
-    # We then re-encode the UNICODE to UTF-8 for Python use.
-    return unquote(uri).encode('utf-8')
+    # unquote_to_bytes(uri) gives UTF-8 for Python use, except for escapes that are not UTF-8.
+    # (unquote() fails on some text with characters beyond the basic plane.)
+    return native(unquote_to_bytes(uri)).decode('utf-8', 'replace').encode('utf-8')
 
 def escape_uri_path(path, encode_percent=True):
     """
-- 
2.43.0


From c347589bece88112ebeea16bd1cee8aa97415edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 52/66] fix: do not accept unsafe URLs with tabs or line breaks
 inside in is_safe_url()

---
 request_parser/utils/http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 6e0a840..7cd1dea 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -284,7 +284,8 @@ def is_safe_url(url, allowed_hosts, require_https=False):
     scheme, as opposed to 'http' and 'https' with the default, ``False``.
     """
     if url is not None:
-        url = url.strip()
+        # Browsers leave out tabs and line breaks, wherever they are.
+        url = re.sub(r'[\t\r\n]', '', url).strip()
     if not url:
         return False
     if allowed_hosts is None:
-- 
2.43.0


From 6c0582c2e1504b6d9aec1dec2fecafb1241a1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 53/66] fix: parse_http_date() does not accept a line break
 after the date

---
 request_parser/utils/http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7cd1dea..a1d9b43 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -35,9 +35,9 @@ __M = r'(?P<mon>\w{3})'
 __Y = r'(?P<year>\d{4})'
 __Y2 = r'(?P<year>\d{2})'
 __T = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
-RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT$' % (__D, __M, __Y, __T))
-RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT$' % (__D, __M, __Y2, __T))
-ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s$' % (__M, __D2, __T, __Y))
+RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT\Z' % (__D, __M, __Y, __T))
+RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT\Z' % (__D, __M, __Y2, __T))
+ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s\Z' % (__M, __D2, __T, __Y))
 
 RFC3986_GENDELIMS = ":/?#[]@"
 RFC3986_SUBDELIMS = "!$&'()*+,;="
-- 
2.43.0


From 95b46dbe98a104eafe3ba34a230c2c288fb52fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 54/66] fix: parse_etags() keeps ETags that contain a comma

---
 request_parser/utils/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index a1d9b43..9dcc404 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -28,6 +28,9 @@ ETAG_MATCH = re.compile(r'''
     )\Z      # end of string and capture group
 ''', re.X)
 
+# an element of a list of ETags: an ETag, which may contain commas, or anything else
+ETAG_LIST_ELEMENT = re.compile(r'\s*(?:W/)?"[^"]*"\s*(?=,|\Z)|[^,]+')
+
 MONTHS = 'jan feb mar apr may jun jul aug sep oct nov dec'.split()
 __D = r'(?P<day>\d{2})'
 __D2 = r'(?P<day>[ \d]\d)'
@@ -239,7 +242,7 @@ def parse_etags(etag_str):
         return ['*']
     else:
         # Parse each ETag individually, and return any that are valid.
-        etag_matches = (ETAG_MATCH.match(etag.strip()) for etag in etag_str.split(','))
+        etag_matches = (ETAG_MATCH.match(etag.strip()) for etag in ETAG_LIST_ELEMENT.findall(etag_str))
         return [match.group(1) for match in etag_matches if match]
 
 
-- 
2.43.0


From 6a31258fb7d74ec400077d999883f81ece45a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 55/66] fix: do not open another file when a closed uploaded
 file is opened again

---
 request_parser/files/uploadedfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index b83a02f..caa6b90 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -51,6 +51,12 @@ class UploadedFile(File, object):
 
     name = property(_get_name, _set_name)
 
+    def open(self, mode=None):
+        # The name is the client's, and may be that of another file here.
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        return super(UploadedFile, self).open(mode)
+
 class TemporaryUploadedFile(UploadedFile, object):
     """
     A file uploaded to a temporary location (i.e. stream-to-disk).
-- 
2.43.0


From 33df81830a2d8a152fdb0b3c6836004d7b8a0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 56/66] fix: check the upload directory with a file of its own

Settings made at the same time failed with InvalidDirectory when another had removed the file, or made the directory; a file of that name was lost.
---
 request_parser/conf/settings.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 86b6f6e..751b24f 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -1,5 +1,6 @@
 from os.path import normpath, isdir, join, isabs
-from os import errno, mkdir, remove
+from os import errno, fdopen, mkdir, remove
+from tempfile import mkstemp
 from request_parser.files.utils import get_abs_path
 
 class InvalidDirectory(Exception):
@@ -134,13 +135,21 @@ class Settings:
             try:
                 #check if directory exists if not create
                 if not isdir(file_upload_dir):
-                    mkdir(file_upload_dir)
-                            
-                test_file_path = join(file_upload_dir, "acdr423x.tmp")        
-                test_file = open(test_file_path, "w+")
-                test_file.write("Permissions Check!")
-                test_file.close()
-                remove(test_file_path)                
+                    try:
+                        mkdir(file_upload_dir)
+                    except OSError:
+                        #it may have been created meanwhile
+                        if not isdir(file_upload_dir):
+                            raise
+
+                #a file of its own, as others may be checking, or have a file here
+                test_file_fd, test_file_path = mkstemp(dir=file_upload_dir)
+                try:
+                    test_file = fdopen(test_file_fd, "w+")
+                    test_file.write("Permissions Check!")
+                    test_file.close()
+                finally:
+                    remove(test_file_path)
             except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
-- 
2.43.0


From 9c6979af3ad35418f644bbe3c5271d26448e4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 57/66] fix: keep an uploaded file whose field has an empty
 name

---
 request_parser/http/multipartparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f460686..ffcae96 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -160,7 +160,7 @@ class MultiPartParser:
 
         try:
             for item_type, meta_data, field_stream in Parser(stream, self._boundary):
-                if old_field_name:
+                if old_field_name is not None:
                     # We run this at the beginning of the next loop
                     # since we cannot be sure a file is complete until
                     # we hit the next boundary/part of the multipart content.
@@ -327,7 +327,7 @@ class MultiPartParser:
                 exhaust(self._input_data)
         else:
             # The last file is not complete.
-            if old_field_name:
+            if old_field_name is not None:
                 self._close_files()
             # Make sure that the request data is all fed
             exhaust(self._input_data)
-- 
2.43.0


From 98c96b12e4471d14f94774f98954a4229ec77c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 58/66] fix: give every Settings object its own list of upload
 handlers

---
 request_parser/conf/settings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 751b24f..21c274d 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -41,6 +41,9 @@ class Settings:
     ]
 
     def __init__(self, settings_dict=None, check_presence=False):
+        #the handlers of one object are not for others
+        self.FILE_UPLOAD_HANDLERS = list(self.FILE_UPLOAD_HANDLERS)
+
         #an empty dictionary is for the defaults; default() needs an object without any
         if not isinstance(settings_dict, dict):
             return
-- 
2.43.0


From f2f5d8bd633d09fd84dac37a441654dddae434ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 59/66] fix: changing a request's list of handlers does not
 change the Settings it was given

---
 request_parser/http/request.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 30a68de..ca7d714 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -69,6 +69,7 @@ class HttpRequest(object,):
         if settings is not None:
             #the charset of a request is kept in its settings; it is not for other requests
             self.settings = copy.copy(settings)
+            self.settings.FILE_UPLOAD_HANDLERS = copy.copy(settings.FILE_UPLOAD_HANDLERS)
         else:
             self.settings = Settings.default()
         #the charset of a request that doesn't declare one
-- 
2.43.0


From b94923061911bf7ac7a7933c007b2776a3699c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 60/66] fix: what precedes the first boundary or follows the
 final one is not a part

---
 request_parser/http/multipartparser.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index ffcae96..489d8a8 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -604,13 +604,25 @@ class Parser:
 
     def __iter__(self):
         boundarystream = InterBoundaryIter(self._stream, self._separator)
+        preamble = True
         #for each sub-stream within boundaries, yield the parsed content
         #note that many sub-streams (usually) form a boundaryStream
         #And a boundaryStream is the stream of bytes between boundaries
         for sub_stream in boundarystream:
-            # Iterate over each part
-            #to return item_type, meta_data, field_stream
-            yield parse_boundary_stream(sub_stream, 1024)
+            start = sub_stream.read(2)
+            sub_stream.unget(start)
+            if preamble:
+                # What precedes the first boundary is not a part.
+                preamble = False
+                yield RAW, {}, sub_stream
+            elif start == b'--':
+                # Neither is what follows the final one.
+                yield RAW, {}, sub_stream
+                break
+            else:
+                # Iterate over each part
+                #to return item_type, meta_data, field_stream
+                yield parse_boundary_stream(sub_stream, 1024)
 
 def parse_header(line):
     """
-- 
2.43.0


From dd450bda2b4a280094b39a845f9ca8c9de6c37be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 61/66] fix: a boundary starts a line; elsewhere it is data

---
 request_parser/http/multipartparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 489d8a8..e2edc48 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -413,6 +413,7 @@ class BoundaryIter:
         self._stream = stream
         self._boundary = boundary
         self._done = False
+        self._started = False
         # rollback an additional six bytes because the format is like
         # this: CRLF<boundary>[--CRLF]
         self._rollback = len(boundary) + 6
@@ -456,6 +457,7 @@ class BoundaryIter:
         #convert the byte array into one contiguous set of bytes (or string)
         chunk = b''.join(chunks)
         boundary = self._find_boundary(chunk)
+        self._started = True
 
         if boundary:
             #get the indices of current inter-boundary data - end
@@ -492,6 +494,9 @@ class BoundaryIter:
          * the start of the next encapsulation
         """
         index = data.find(self._boundary)
+        # It starts a line; anywhere else it is data.
+        while index > 0 and data[index - 1:index] != b'\n' or index == 0 and self._started:
+            index = data.find(self._boundary, index + 1)
         if index < 0:
             return None
         else:
-- 
2.43.0


From 738fe03b88096d597de14d4adc363fe80d80aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 62/66] fix: File.size is the size of the file, not a method

---
 request_parser/files/base.py  | 10 ++++++++--
 request_parser/files/utils.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..9a1a0df 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -27,8 +27,9 @@ class File(FileProxyMixin):
     def __len__(self):
         return int(self.size)
 
-    #@cached_property
-    def size(self):
+    def _get_size(self):
+        if '_size' in self.__dict__:
+            return self._size
         if hasattr(self.file, 'size'):
             return self.file.size
         if hasattr(self.file, 'name'):
@@ -44,6 +45,11 @@ class File(FileProxyMixin):
             return size
         raise AttributeError("Unable to determine the file's size.")
 
+    def _set_size(self, size):
+        self._size = size
+
+    size = property(_get_size, _set_size)
+
     def chunks(self, chunk_size=None):
         """
         Read the file and yield chunks of ``chunk_size`` bytes (defaults to
diff --git a/request_parser/files/utils.py b/request_parser/files/utils.py
index 97ee6b5..3168f58 100644
--- a/request_parser/files/utils.py
+++ b/request_parser/files/utils.py
@@ -1,7 +1,7 @@
 from os.path import isabs, dirname, abspath, isdir, join, normpath
 import inspect
 
-class FileProxyMixin:
+class FileProxyMixin(object):
     """
     A mixin class used to forward file methods to an underlaying file
     object.  The internal file object has to be called "file"::
-- 
2.43.0


From 96726569a93119e7e699da8853914b4eeb44d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 63/66] fix: make ContentFile work

---
 request_parser/files/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 9a1a0df..3146a2f 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -128,8 +128,8 @@ class ContentFile(File):
     A File-like object that takes just raw content, rather than an actual file.
     """
     def __init__(self, content, name=None):
-        stream_class = StringIO if isinstance(content, str) else BytesIO
-        super().__init__(stream_class(content), name=name)
+        stream_class = StringIO if isinstance(content, type(u'')) else BytesIO
+        super(ContentFile, self).__init__(stream_class(content), name=name)
         self.size = len(content)
 
     def __str__(self):
@@ -146,7 +146,7 @@ class ContentFile(File):
         pass
 
     def write(self, data):
-        self.__dict__.pop('size', None)  # Clear the computed size.
+        self.__dict__.pop('_size', None)  # Clear the computed size.
         return self.file.write(data)
 
 
-- 
2.43.0


From 8003d3cf6d8c5d3fbc951de0b47ac7964d9a326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 64/66] fix: a File is true when it has a name, also when it is
 empty

---
 request_parser/files/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 3146a2f..73f39c4 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -24,6 +24,8 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return int(self.size)
 
@@ -138,6 +140,8 @@ class ContentFile(File):
     def __bool__(self):
         return True
 
+    __nonzero__ = __bool__
+
     def open(self, mode=None):
         self.seek(0)
         return self
-- 
2.43.0


From aff445ba37c871cc976ea858e80e97e783ff4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 65/66] fix: a File is closed when its file is, whatever the
 truth of its file

---
 request_parser/files/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/files/utils.py b/request_parser/files/utils.py
index 3168f58..6c5a652 100644
--- a/request_parser/files/utils.py
+++ b/request_parser/files/utils.py
@@ -28,7 +28,7 @@ class FileProxyMixin(object):
 
     @property
     def closed(self):
-        return not self.file or self.file.closed
+        return self.file is None or self.file.closed
 
     def readable(self):
         if self.closed:
-- 
2.43.0


From e85dd23e00403f29023feaad8869efe68d0eba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 66/66] fix: a File says whether its file can be read and
 written in its mode

---
 request_parser/files/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/files/utils.py b/request_parser/files/utils.py
index 6c5a652..28785d1 100644
--- a/request_parser/files/utils.py
+++ b/request_parser/files/utils.py
@@ -35,14 +35,16 @@ class FileProxyMixin(object):
             return False
         if hasattr(self.file, 'readable'):
             return self.file.readable()
-        return True
+        mode = getattr(self.file, 'mode', '')
+        return not ('w' in mode or 'a' in mode) or '+' in mode
 
     def writable(self):
         if self.closed:
             return False
         if hasattr(self.file, 'writable'):
             return self.file.writable()
-        return 'w' in getattr(self.file, 'mode', '')
+        mode = getattr(self.file, 'mode', '')
+        return 'w' in mode or 'a' in mode or '+' in mode
 
     def seekable(self):
         if self.closed:
-- 
2.43.0

