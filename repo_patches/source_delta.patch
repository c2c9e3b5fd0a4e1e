From fc004747bbd712fb5373f04b1439fe70360b2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 01/49] fix: a CR in the request path no longer selects the
 wildcard node as literal text

---
 ombott/router/radidict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..d22dc23 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,8 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        # the token symbol in a path is just a symbol, not a token
+                        if c == c0 and c != TOKEN:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From efaf2b615ed806ed7f1cbd6160c1095ce477e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 02/49] fix: a handler gets the wildcard names of the rule it
 was registered under

---
 ombott/router/radirouter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..9ef2c08 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,15 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        #: wildcard names of the rule this handler was registered under
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +112,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +135,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -316,7 +318,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -373,6 +375,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -381,9 +384,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From f29d85c30df917252cd5982acb150cc80440b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 03/49] fix: a wildcard text its filter can't convert does not
 match instead of failing with 500

---
 ombott/router/filter_factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..fbad3b7 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -67,7 +67,10 @@ class FilterFactory:
                     tmp = mask.match(param)
                     if not tmp:
                         return None, 0, None
-                    return f_in(tmp.group()), tmp.end(), None
+                    try:
+                        return f_in(tmp.group()), tmp.end(), None
+                    except ValueError:  # can't be converted, so it is not accepted
+                        return None, 0, None
         else:
             def handler(param):
                 tmp = mask.match(param)
-- 
2.43.0


From 8527299001689a3684ef3da7e3a480194ebd5d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 04/49] fix: method names given to a Route are case-insensitive
 like those given to the router

---
 ombott/router/radirouter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 9ef2c08..0a1e557 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -112,13 +112,18 @@ class Route:
 
         return ''.join(ret)
 
+    @staticmethod
+    def _to_upper(method):
+        if isinstance(method, str):
+            method = [method]
+        return [m.upper() for m in method]
+
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
     def set_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._to_upper(method)
         self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
@@ -136,14 +141,12 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._to_upper(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
+        method = self._to_upper(method)
         [self._methods.pop(m, None) for m in method]
 
     @property
@@ -151,9 +154,7 @@ class Route:
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
-        for name in method:
+        for name in self._to_upper(method):
             meth = self._methods.get(name)
             if meth:
                 return meth
-- 
2.43.0


From 524bd74ebf92cccef111b90373591376d39460bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 05/49] fix: all 1xx responses and HEAD in any letter case
 carry no body

---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..6595908 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -386,8 +386,9 @@ class Ombott:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
+                response._status_code < 200
+                or response._status_code in {204, 304}
+                or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
                 if close:
-- 
2.43.0


From d79684b826f56028c6798fc4b2ffd8b614d9ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 06/49] fix: a malformed status line (CR/LF, no reason phrase,
 odd digits) is rejected

---
 ombott/response.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..f203f26 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -3,6 +3,7 @@ import email.utils
 import http.client as httplib
 from http.cookies import SimpleCookie
 import calendar
+import re
 
 from .common_helpers import (
     ts_props,
@@ -30,6 +31,10 @@ def http_date(value):
     return email.utils.formatdate(value, usegmt=True)
 
 
+# three digits and a reason phrase without control characters, Latin-1 encodable
+_STATUS_LINE_PATT = re.compile(r'[1-9][0-9]{2} [\x20-\x7e\xa0-\xff]+\Z')
+
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -142,6 +147,8 @@ class BaseResponse:
             raise ValueError('String status line without a reason phrase.')
         if not 100 <= code <= 999:
             raise ValueError('Status code out of range.')
+        if status and not _STATUS_LINE_PATT.match(status):
+            raise ValueError('Malformed status line: %r' % status)
         self._status_code = code
         self._status_line = str(status or ('%d Unknown' % code))
 
-- 
2.43.0


From dcf094ebfbcf76f8f609def991a26019c5ce6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 07/49] fix: the critical error page has no body for HEAD

---
 ombott/ombott.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 6595908..18c8052 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -413,7 +413,7 @@ class Ombott:
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            return [tob(err)] if environ['REQUEST_METHOD'].upper() != 'HEAD' else []
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From e1b2a2380e19adf867031b319af570e131cd0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 08/49] fix: a first text chunk that can't be encoded is an
 error page, not an exception in the server

---
 ombott/ombott.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 18c8052..1caa70f 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -362,7 +362,11 @@ class Ombott:
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
             elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
+                charset = response.charset
+                # encode the first chunk now, so that a failure becomes an error page
+                new_iter = itertools.chain(
+                    [first.encode(charset)], (it.encode(charset) for it in iout)
+                )
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-- 
2.43.0


From e10143ebd20f26f8a847c909b64960b9d31ceb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 09/49] fix: a handler iterable is closed also when its
 response can't be started

---
 ombott/ombott.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 1caa70f..5e9acb1 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -386,6 +386,7 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
+        out = None
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
@@ -395,9 +396,9 @@ class Ombott:
                 or environ['REQUEST_METHOD'].upper() == 'HEAD'
             ):
                 close = getattr(out, 'close', None)
+                out = []
                 if close:
                     close()
-                out = []
             start_response(response._status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
@@ -406,6 +407,11 @@ class Ombott:
             if not self.config.catchall:
                 raise
 
+            # the output won't be sent (e.g. bad header value)
+            close = getattr(out, 'close', None)
+            if close:
+                close()
+
             err = '<h1>Critical error while processing request: %s</h1>' \
                   % html_escape(environ.get('PATH_INFO', '/'))
             if self.config.debug:
-- 
2.43.0


From 5ccf92294a65f31d10e4fa828517d190a2011ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 10/49] fix: the critical error page survives exceptions that
 can't be shown

---
 ombott/ombott.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 5e9acb1..2cc62b9 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -7,7 +7,6 @@ from urllib.parse import urljoin
 
 from .common_helpers import (
     html_escape,
-    tob,
     cached_property,
     WSGIFileWrapper,
     SimpleConfig,
@@ -415,15 +414,19 @@ class Ombott:
             err = '<h1>Critical error while processing request: %s</h1>' \
                   % html_escape(environ.get('PATH_INFO', '/'))
             if self.config.debug:
+                try:
+                    err_repr = repr(_e)
+                except Exception:
+                    err_repr = object.__repr__(_e)
                 err += (
                     '<h2>Error:</h2>\n<pre>\n%s\n</pre>\n'
                     '<h2>Traceback:</h2>\n<pre>\n%s\n</pre>\n'
-                    % (html_escape(repr(_e)), html_escape(format_exc()))
+                    % (html_escape(err_repr), html_escape(format_exc()))
                 )
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)] if environ['REQUEST_METHOD'].upper() != 'HEAD' else []
+            return [err.encode('utf8', 'backslashreplace')] if environ['REQUEST_METHOD'].upper() != 'HEAD' else []
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From c14682fa0fe7f696d07de4e09c3a7562b90c24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 11/49] fix: a short read of a Content-Length body doesn't drop
 the bytes after it

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..b7f375c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
-- 
2.43.0


From 70fb2b9a8e4158357955c7cdb18235ceaf3c5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 12/49] fix: short reads inside a chunk or its CRLF don't
 corrupt a chunked body

---
 ombott/request_pkg/body_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b7f375c..002aeca 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -73,8 +73,11 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
+            rest_len -= len(part)
+        chunk_end = read(2)
+        if chunk_end == r:  # short read
+            chunk_end += read(1)
+        if chunk_end != rn:
             raise parsing_err
 
 
-- 
2.43.0


From 0533e3d4ab76f23b8a489101724847a8350dbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 13/49] fix: multipart parsing doesn't depend on where the body
 is cut into reads

---
 ombott/request_pkg/multipart.py | 46 ++++++++++-----------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..f51e5b1 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
@@ -108,47 +108,27 @@ class HeadersEaeter:
         raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
 
     def _eat_first_crlf_or_last_hyphens(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
 
-        if chunk_start == CRLF:
-            return base + 2
-
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
-            self.stopped = True
-            return base + 2
-
+        self.eat_meth = self._meth_map.get(chunk_start)
         if self.eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
+        return self.eat_meth(chunk, base + 1)
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
         if expected is not None:
             expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
+            chunk_start = chunk[base:base + expected_len]
             if chunk_start == expected:
                 self.headers_end_expected = None
                 return base + expected_len - CRLFx2_LEN
-            chunk_start_len = len(chunk_start)
-            if not chunk_start_len:
+            if expected.startswith(chunk_start):
+                self.headers_end_expected = expected[len(chunk_start):]
                 return
-            if chunk_start_len < expected_len:
-                if expected.startswith(chunk_start):
-                    self.headers_end_expected = expected[chunk_start_len:]
-                    return
-                self.headers_end_expected = None
-
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
+            self.headers_end_expected = None
 
         assert self.headers_end_expected is None
 
@@ -185,8 +165,8 @@ class BodyMarkuper:
         self.stopped = False
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
-        if self.stopped:
-            raise StopMarkupException()
+        if self.stopped:  # epilogue
+            return
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
@@ -235,7 +215,7 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if self.trest is None and self.abspos == 0:
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
-- 
2.43.0


From e68ae6a5e91353609b49bb22aef28cb8fd00b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 14/49] fix: multipart header parameters may hold any quoted
 text; part header names are case-insensitive

---
 ombott/request_pkg/multipart.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index f51e5b1..93477ec 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -380,11 +380,13 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    _patt = re.compile(r'([^;=]+)(=\s*("[^"]*"|[^;]*)[^;]*)?(;|$)')
+    _eol_patt = re.compile(r'\r\n|\r|\n')
 
     name: str
     value: Optional[str]
@@ -412,13 +414,14 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = src.read(sz).decode()
-        for header_raw in headers_raw.splitlines():
+        for header_raw in self._eol_patt.split(headers_raw):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
-            if header.name == 'Content-Disposition':
-                self.name = header.options['name']
+            header_name = header.name.lower()
+            if header_name == 'content-disposition':
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
-            elif header.name == 'Content-Type':
+            elif header_name == 'content-type':
                 self.ctype = header.value
 
         if self.name is None:
@@ -449,9 +452,9 @@ class FieldStorage:
             k = it.group(1).strip()
             v = it.group(3)
             if v is not None:
-                v = v.strip('"')
+                v = v.strip().strip('"')
             dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        return Header(name=htype.strip(), value=hvalue, options=dct, raw=rest.strip())
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From 3bcecdb799c526759f04fa23e1aec9a052e1cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 15/49] fix: a quoted or padded multipart boundary, in any
 letter case of the parameter, is recognised

---
 ombott/request_pkg/body_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 002aeca..102d85e 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,7 +15,7 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?;\s*boundary=\s*(?:"([^"]+)"|([^\s";][^;]*))', re.IGNORECASE)
 
 
 def _iter_body(read, buff_size, *, content_length):
@@ -246,7 +246,7 @@ class BodyMixin:
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
+            markup = MultipartMarkup(mp.group(1) or mp.group(2).rstrip())
         try:
             body = _body_read(
                 self.environ['wsgi.input'].read,
-- 
2.43.0


From 5dc329fb5eb68dd52132a7956f0773d860dc3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 16/49] fix: an upload with an empty file name stays an upload,
 its headers are strings; repeated multipart names collect texts in forms and
 uploads in files only

---
 ombott/request_pkg/body_mixin.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 102d85e..bdfc05c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -199,12 +199,11 @@ class BodyMixin:
             raise BodyParsingError()
         elif markup.error is not None:
             raise markup.error
-        listified = set()
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.filename:
+            if item.filename is not None:
                 it = FileUpload(
-                    item.file, item.name,
-                    item.filename, item.headers
+                    item.file, item.name, item.filename,
+                    {h.name.title(): h.raw for h in item.headers.values()}
                 )
                 dct = files
             else:
@@ -212,14 +211,13 @@ class BodyMixin:
                 dct = forms
             key = item.name
 
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            for dst in (post, dct):
+                if key not in dst:
+                    dst[key] = it
+                elif isinstance(dst[key], list):
+                    dst[key].append(it)
+                else:
+                    dst[key] = [dst[key], it]
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
-- 
2.43.0


From f4d8dbc19f5893e3b7044bb7939171f1326c7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 17/49] fix: malformed form and JSON bodies are client errors,
 and leave no partial form behind

---
 ombott/request_pkg/body_mixin.py | 33 ++++++++++++++++++++++----------
 ombott/request_pkg/multipart.py  | 20 ++++++++++++++-----
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index bdfc05c..e63c11d 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -161,7 +161,10 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError) as err:
+                self._raise(RequestError(f'Invalid JSON: {err}'), RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
@@ -172,7 +175,7 @@ class BodyMixin:
 
         """
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
+        files = self._forms_factory()
         post = self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
@@ -180,22 +183,33 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                data = self.json
+                if isinstance(data, dict):
+                    post.update(data)
+                elif data is not None:
+                    self._raise(RequestError('JSON object is expected'), RequestError)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
                     setitem=post.__setitem__
                 )
             env['ombott.request.forms'] = post
+            env['ombott.request.files'] = files
             return post
 
-        forms = env['ombott.request.forms'] = self._forms_factory()
+        forms = self._forms_factory()
+        try:
+            self._read_multipart(post, forms, files)
+        except RequestError as err:
+            self._raise(err, RequestError)
+        env['ombott.request.forms'] = forms
+        env['ombott.request.files'] = files
+        return post
 
+    def _read_multipart(self, post, forms, files):
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
-        if markup is None:
-            # should never happen since we check content-type
-            # when reading body
+        if markup is None:  # no boundary in the content-type
             raise BodyParsingError()
         elif markup.error is not None:
             raise markup.error
@@ -218,7 +232,6 @@ class BodyMixin:
                     dst[key].append(it)
                 else:
                     dst[key] = [dst[key], it]
-        return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
     def forms(self):
@@ -243,9 +256,9 @@ class BodyMixin:
     def _body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1) or mp.group(2).rstrip())
         try:
+            if mp is not None:
+                markup = MultipartMarkup(mp.group(1) or mp.group(2).rstrip())
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 93477ec..0673cb7 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -413,7 +413,7 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
+        headers_raw = self._decode(src.read(sz))
         for header_raw in self._eol_patt.split(headers_raw):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
@@ -425,7 +425,7 @@ class FieldStorage:
                 self.ctype = header.value
 
         if self.name is None:
-            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
+            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {headers_raw}')
 
         if self.filename is not None:
             self.file = BytesIOProxy(src, *data_section)
@@ -437,16 +437,26 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                self.value = self._decode(src.read(sz))
             else:
                 self.value = ''
         return has_read
 
+    @staticmethod
+    def _decode(raw: bytes) -> str:
+        try:
+            return raw.decode()
+        except UnicodeError as err:
+            raise BodyParsingError(f'Malformed multipart/formdata text: {err}')
+
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
+        htype, colon, rest = s.partition(':')
+        if not colon:
+            raise MalformedHeadersError(f'Malformed headers, no colon: {s}')
         opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter).group(1).strip()
+        hvalue = next(opt_iter, None)
+        hvalue = hvalue.group(1).strip() if hvalue else ''
         dct = {}
         for it in opt_iter:
             k = it.group(1).strip()
-- 
2.43.0


From b6343c29457b6421e35069fe4a340f7eaa2668c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 18/49] fix: Content-Length doesn't truncate a chunked form or
 JSON body

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index e63c11d..912b3b0 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -282,7 +282,7 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
+        content_length = -1 if self.chunked else self.content_length
 
         if content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-- 
2.43.0


From e60b78e5c07525b181ff9628c875e614e98f94e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 19/49] fix: after a rejected body the rest of the stream is
 not presented as the body

---
 ombott/request_pkg/body_mixin.py | 4 ++++
 ombott/request_pkg/request.py    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 912b3b0..2f4fa07 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -254,6 +254,9 @@ class BodyMixin:
 
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
+        failed = self._env_get('ombott.request.body_error')
+        if failed:  # what is left in the stream is not the body
+            self._raise(failed(), RequestError)
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         try:
@@ -269,6 +272,7 @@ class BodyMixin:
             )
             body.ombott_markup = markup
         except RequestError as err:
+            self.environ['ombott.request.body_error'] = err.__class__
             self._raise(err, RequestError)
         self.environ['wsgi.input'] = body
         body.seek(0)
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..68eecad 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -49,7 +49,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
-- 
2.43.0


From 609d2a435f7b31734b9ec8653b6e99b304d636eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 20/49] fix: entity headers forbidden for 204 and 304 are
 withheld in any letter case

---
 ombott/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index f203f26..77ec59b 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -158,7 +158,7 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = (h for h in headers if h[0].title() not in bad_headers)
             need_ctype = False
         else:
             need_ctype = 'Content-Type' not in self._headers
-- 
2.43.0


From b5c2a33d13e7ffb2a314051356ae24ee19067250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 21/49] fix: a response with multi-valued headers can be copied
 (and redirected)

---
 ombott/response.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 77ec59b..395be56 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -35,6 +35,10 @@ def http_date(value):
 _STATUS_LINE_PATT = re.compile(r'[1-9][0-9]{2} [\x20-\x7e\xa0-\xff]+\Z')
 
 
+def _copy_headers(headers):
+    return {k: (v[:] if isinstance(v, list) else v) for k, v in headers.items()}
+
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -100,7 +104,8 @@ class BaseResponse:
         ''' Returns a copy of self. '''
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
+        copy = cls(status = self.status)
+        copy._headers.update(_copy_headers(self._headers))
         if self._cookies:
             copy._cookies = SimpleCookie()
             copy._cookies.load(self._cookies.output(header=''))
-- 
2.43.0


From c8556b1936eca1a0e4a25f8e25bb9b3a0f6e754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 22/49] fix: values of a list given to setdefault are checked
 like single values

---
 ombott/common_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..c8a56be 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -274,7 +274,8 @@ class HeaderDict(DictMixin):
         return ret
 
     def setdefault(self, key, value):
-        return self._ts.dict.setdefault(key, _hval(value) if not isinstance(value, list) else value)
+        value = [_hval(v) for v in value] if isinstance(value, list) else _hval(value)
+        return self._ts.dict.setdefault(key, value)
 
     def append(self, key, value):
         d = self._ts.dict
-- 
2.43.0


From cab359233c34492f140d7f1085537cbc29034314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 23/49] fix: request and response objects of different
 applications (and request copies) have their own stores

---
 ombott/common_helpers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index c8a56be..f062388 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -72,11 +72,9 @@ def html_escape(string):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -86,13 +84,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
-- 
2.43.0


From c79c4aca13fa507d8d8b0d0eab9303160f518d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 24/49] fix: a request with an undecodable path doesn't answer
 with the state of an earlier request

---
 ombott/ombott.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 2cc62b9..dfcc207 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -259,15 +259,16 @@ class Ombott:
         request = self.request
 
         path = environ['ombott.raw_path'] = environ['PATH_INFO']
+        # init thread
+        environ['ombott.app'] = self
+        request.__init__(environ)
+        response.__init__()
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From 349041700aceb5dd06008361172abd03aaa9882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 25/49] fix: headers and cookies added after a shared response
 was applied don't stick to it

---
 ombott/response.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 395be56..5b3022b 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -39,6 +39,13 @@ def _copy_headers(headers):
     return {k: (v[:] if isinstance(v, list) else v) for k, v in headers.items()}
 
 
+def _copy_cookies(cookies):
+    ret = SimpleCookie()
+    for name, morsel in cookies.items():
+        ret[name] = morsel.copy()
+    return ret
+
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -287,9 +294,10 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        # the same response may be applied again: keep it apart from the changes made to `response`
+        response._headers.update(_copy_headers(self._headers))
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = _copy_cookies(self._cookies)
         response.body = self.body
 
 
-- 
2.43.0


From b64f4935515df9c4ed9d3f67d55f002c6f7b3fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 26/49] fix: body errors raise their own copy of the configured
 response, which collects neither frames nor changes of earlier requests

---
 ombott/request_pkg/request.py |  7 ++++++-
 ombott/response.py            | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 68eecad..196ebab 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,5 +1,8 @@
 
+from copy import copy
+
 from ..common_helpers import ts_props, SimpleConfig
+from ..response import HTTPResponse
 from ..mixable import Mixable
 
 from .props_mixin import PropsMixin
@@ -41,7 +44,9 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # the mapped response is shared by all requests: raise a copy, which
+                # can be changed by a handler and takes its traceback away with it
+                err = copy(out_err) if isinstance(out_err, HTTPResponse) else out_err
                 break
         raise err
 
diff --git a/ombott/response.py b/ombott/response.py
index 5b3022b..abc8222 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -290,6 +290,17 @@ class HTTPResponse(BaseResponse, OmbottException):
     def __init__(self, body='', status=None, headers=None, **more_headers):
         super().__init__(body, status, headers, **more_headers)
 
+    def __copy__(self):
+        ret = self.__class__.__new__(self.__class__)
+        ret.args = self.args
+        ret.__dict__.update(self.__dict__)
+        ret._status_line = self._status_line
+        ret._status_code = self._status_code
+        ret._headers = ret.headers.dict = _copy_headers(self._headers)
+        ret._cookies = self._cookies and _copy_cookies(self._cookies)
+        ret.body = self.body
+        return ret
+
     def apply(self, response):
         response._status_code = self._status_code
         response._status_line = self._status_line
@@ -311,6 +322,12 @@ class HTTPError(HTTPResponse):
         self.traceback = traceback
         super().__init__(body, status, **options)
 
+    def __copy__(self):
+        ret = super().__copy__()
+        ret.exception = self.exception
+        ret.traceback = self.traceback
+        return ret
+
 
 #: A dict to map HTTP status codes (e.g. 404) to phrases (e.g. 'Not Found')
 HTTP_CODES = httplib.responses
-- 
2.43.0


From 15b68ea01b6a0bcd2f9274f21cc2c0107fae3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 27/49] fix: a response raised by many requests doesn't keep
 their frames alive

---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index dfcc207..ef72a49 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -282,7 +282,8 @@ class Ombott:
             finally:
                 self.emit('after_request')
         except HTTPResponse as resp:
-            return resp
+            # a response raised again and again must not collect the frames of all requests
+            return resp.with_traceback(None)
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as err500:
@@ -349,7 +350,7 @@ class Ombott:
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
-                first = rs
+                first = rs.with_traceback(None)
             except (KeyboardInterrupt, SystemExit, MemoryError):
                 raise
             except Exception as err500:
-- 
2.43.0


From 1e32d6a6e4a3031720af37e430b3757d6585cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 28/49] fix: removing a route keeps the hooks of its node,
 removing a hook removes it

---
 ombott/router/radidict.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index d22dc23..715d7c0 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -342,17 +342,21 @@ class RadiDict:
         ):
             node[IDX] = None
             del node[OFFSET:]
+            if node is not self.root:
+                node[HOOKS] = None
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
+        if hooks_only:
             node[HOOKS] = None
-            return
+            if node[DATA] is not None:
+                return
+        else:
+            node[DATA] = None
+            node[PARAMS] = []
 
         stack.reverse()
         assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -364,7 +368,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[IDX] or node[HOOKS]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From 00b3738adf2521d5bbf3fe8bf38b93c01afbf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 29/49] fix: a removed route loses all its names

---
 ombott/router/radirouter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 0a1e557..5c1e980 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -279,12 +279,13 @@ class RadiRouter:
             else:
                 route_pattern = route.pattern
         elif name is not None:
-            route = self.named_routes.pop(name)
+            route = self.named_routes[name]
             route_pattern = route.pattern
 
         self.radidict.remove(route_pattern)
         if route:
             del self.routes[route.pattern]
+            self._remove_named_routers({route.pattern})
         else:
             if route_pattern.endswith('*'):
                 route_pattern = route_pattern[:-1]
-- 
2.43.0


From e0dba3c7f8a026188349e859684ffe6bc8634191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 30/49] fix: a route rejected for its name is not registered

---
 ombott/router/radirouter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 5c1e980..1c3cb68 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -379,6 +379,11 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        if name and not overwrite:
+            registered = self.named_routes.get(name)
+            if registered and registered is not route_:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
+
         if route_:
             route = route_
         else:
@@ -391,9 +396,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From 6053b262d4edfb3a2824ccb78074749c91b859e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 31/49] fix: a rule using a wildcard name twice is rejected
 before it reaches the tree

---
 ombott/router/radirouter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 1c3cb68..4b2b4df 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -192,6 +192,8 @@ class Route:
                 if not param:
                     param = f'{cls.anon_prefix}{anon_counter}'
                     anon_counter += 1
+                if param in params:
+                    raise RouteBuildError(f'Wildcard name `{param}` is used twice in rule `/{rule}`')
                 params.append(param)
                 h, f_out = cls.make_filter(filter, filter_args)
                 filters.append(h)
-- 
2.43.0


From 4174528b07d24e046706259a46cbaf52989d89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 32/49] fix: hook prefixes after a rex selector are positions
 in the path

---
 ombott/router/radidict.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 715d7c0..da5b187 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -387,6 +387,7 @@ class RadiDict:
         do_look_back = False
         selector = None
         i = 0
+        i0 = 0  # offset of `i` in the original route (selectors replace the matched text)
         while True:
             while i < L:
                 idx = pnode[IDX]
@@ -427,11 +428,12 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([i0 + i, h])
                             if selector is not None:
                                 look_back.append(
-                                    [route, pnode, i, L, params[:], hooks[:], False]
+                                    [route, pnode, i, L, params[:], hooks[:], False, i0]
                                 )
+                                i0 += i - len(str(selector))
                                 route = str(selector) + route[i:]
                                 i = 0
                                 L = len(route)
@@ -445,7 +447,7 @@ class RadiDict:
                 # regular logic
                 if idx[-1] == TOKEN:
                     look_back.append(
-                        [route, pnode, i, L, params[:], hooks[:], True]
+                        [route, pnode, i, L, params[:], hooks[:], True, i0]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
@@ -454,7 +456,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([i0 + i, h])
                 else:
                     break  # while
 
@@ -472,7 +474,7 @@ class RadiDict:
                 # this is partial match => try look_back
 
             if look_back:
-                route, pnode, i, L, params, hooks, look_type = look_back.pop()
+                route, pnode, i, L, params, hooks, look_type, i0 = look_back.pop()
                 do_look_back = look_type
             else:
                 return None if not allow_partial else (
-- 
2.43.0


From ec6cb9894c10a2820b764679c31b0157e4620ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 33/49] fix: non-ASCII cookie text is sent as UTF-8 and read
 back as text

---
 ombott/request_pkg/props_mixin.py | 2 +-
 ombott/response.py                | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..b2edd07 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -65,7 +65,7 @@ class PropsMixin:
         if secret and value:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        return self.cookies.getunicode(key, value) or default
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
diff --git a/ombott/response.py b/ombott/response.py
index abc8222..0092221 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -247,7 +247,8 @@ class BaseResponse:
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-        self._cookies[name] = value
+        # like in headers, text is sent as UTF-8 bytes
+        self._cookies[name] = value.encode('utf8').decode('latin1')
 
         for key, value in options.items():
             if key == 'max_age':
-- 
2.43.0


From 018280a16e86c8644289d43370ce70cdbe51409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 34/49] fix: an empty cookie is read back as the empty string

---
 ombott/request_pkg/props_mixin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index b2edd07..0d14d1c 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -62,10 +62,12 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
+        if value is None:
+            return default
+        if secret:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return self.cookies.getunicode(key, value) or default
+        return self.cookies.getunicode(key, value)
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
-- 
2.43.0


From d4e37f1afad8be81e4deb9472af98bd3282ba81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 35/49] fix: copying a response (redirect) keeps its cookies as
 they are

---
 ombott/response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 0092221..f903cfb 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -114,8 +114,7 @@ class BaseResponse:
         copy = cls(status = self.status)
         copy._headers.update(_copy_headers(self._headers))
         if self._cookies:
-            copy._cookies = SimpleCookie()
-            copy._cookies.load(self._cookies.output(header=''))
+            copy._cookies = _copy_cookies(self._cookies)
         return copy
 
     def __iter__(self):
-- 
2.43.0


From 0a045a8cbd0c654278e82ae5eb3cfc56bf0c7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 36/49] fix: a cookie which http.cookies refuses to parse reads
 as absent

---
 ombott/request_pkg/props_mixin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 0d14d1c..756fd77 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -1,5 +1,5 @@
 import base64
-from http.cookies import SimpleCookie
+from http.cookies import SimpleCookie, CookieError
 from urllib.parse import (
     quote as urlquote,
     urljoin,
@@ -53,8 +53,12 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        cookies = SimpleCookie()
+        try:
+            cookies.load(self._env_get('HTTP_COOKIE', ''))
+        except CookieError:  # a name or a value which is not allowed: read up to there
+            pass
+        return self._cookie_factory((c.key, c.value) for c in cookies.values())
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From 0f320899b59e777a320f28f7cde4d9c636d37242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 37/49] fix: an empty If-Modified-Since header is no server
 error

---
 ombott/static_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..ac19916 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -102,7 +102,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
     ims = env_get('HTTP_IF_MODIFIED_SINCE')
-    if ims:
+    if ims is not None:
         ims = parse_date(ims.split(";")[0].strip())
     if ims is not None and ims >= int(stats.st_mtime):
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
-- 
2.43.0


From 5039bdf7c6ee43d0a69774ad4745242b6bd73df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 38/49] fix: HTTP dates are read independently of the server's
 time zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index f062388..49d1dd3 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts[:6]) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From fd3cd2cdd95c2ef23830193bbd0c2ab419061c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 39/49] fix: an URL is built for a rule with a wildcard named
 self

---
 ombott/router/radirouter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 4b2b4df..78ceaf3 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -62,7 +62,8 @@ class Route:
         self.pattern_out = pattern_out
         self.filters_out = filters_out
 
-    def url(self, *args, **kw):
+    def url(*args, **kw):  # any wildcard name (e.g. self) can be in kw
+        self, *args = args
 
         params = self.params
         if not params:
-- 
2.43.0


From a28285f12c06b30647624ce382fbb7e7ef973e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 40/49] fix: filters of a built URL look at the whole URL, as
 while matching

---
 ombott/router/radirouter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 78ceaf3..6143683 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -75,6 +75,8 @@ class Route:
         pattern_out = self.pattern_out
 
         ret = []
+        to_check = []
+        pos = 0
         pidx = 0
         args_idx = 0
         cidx = 0
@@ -87,6 +89,7 @@ class Route:
             end = cidx
             if clen:
                 end += clen
+                pos += clen
                 clen = 0
                 ret.append(pattern_out[cidx:end])
             cidx = end + 1
@@ -104,14 +107,19 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                to_check.append((f_in, pos, len(prt)))
+            pos += len(prt)
             ret.append(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        ret = ''.join(ret)
+        for f_in, pos, plen in to_check:
+            # filter must take exactly the param (it may depend on what follows)
+            assert f_in(ret[pos:])[1] == plen
+        return ret
 
     @staticmethod
     def _to_upper(method):
-- 
2.43.0


From f195c7827899626c28a5309a3802d67236ca52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 41/49] fix: the float filter builds plain decimals, which it
 matches

---
 ombott/router/filter_factory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index fbad3b7..73fb732 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 
 
 class _RouteFilterExhaust:
@@ -26,12 +27,18 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _float_out(x):
+    ''' Plain decimal, exponents aren't accepted by the filter. '''
+    ret = format(Decimal(repr(float(x))), 'f')
+    return ret if '.' in ret else f'{ret}.0'
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', float, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From dfb01c7317603986584b89f3590a98edfc1dacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 42/49] fix: the float filter does not accept what overflows to
 infinity

---
 ombott/router/filter_factory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index 73fb732..75f983b 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,3 +1,4 @@
+import math
 import re
 from decimal import Decimal
 
@@ -27,6 +28,13 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _float_in(matched):
+    ret = float(matched)
+    if math.isinf(ret):
+        raise ValueError('Number is too large')
+    return ret
+
+
 def _float_out(x):
     ''' Plain decimal, exponents aren't accepted by the filter. '''
     ret = format(Decimal(repr(float(x))), 'f')
@@ -38,7 +46,7 @@ class FilterFactory:
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, _float_out),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _float_in, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From 3da49dc2e6458d7d08fd9a5d256bdce1e7a97f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 43/49] fix: a path which looks like an URL does not break the
 request's own URL

---
 ombott/request_pkg/props_mixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 756fd77..1ed4104 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie, CookieError
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -109,7 +108,7 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From c7dfcb7eff2e5df61d579b5bb05308286800aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 44/49] fix: JSON error bodies withhold exception and traceback
 unless debug

---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index ef72a49..d94f7ce 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -220,10 +220,11 @@ class Ombott:
 
     def default_error_handler(self, res):
         if self.request.is_json_requested:
+            debug = self.config.debug
             ret = json.dumps(dict(
                 body = res.body,
-                exception = repr(res.exception),
-                traceback = res.traceback
+                exception = repr(res.exception) if debug else None,
+                traceback = res.traceback if debug else None
             ))
             self.response.headers['Content-Type'] = 'application/json'
         else:
-- 
2.43.0


From ac8bcb2d06f1001d790477ad88c57c43fb7bd753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 45/49] fix: the critical error page is JSON when JSON is
 requested

---
 ombott/ombott.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index d94f7ce..63b13ee 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -414,20 +414,28 @@ class Ombott:
             if close:
                 close()
 
-            err = '<h1>Critical error while processing request: %s</h1>' \
-                  % html_escape(environ.get('PATH_INFO', '/'))
+            err = 'Critical error while processing request: %s' % html_escape(environ.get('PATH_INFO', '/'))
+            err_repr = stacktrace = None
             if self.config.debug:
                 try:
                     err_repr = repr(_e)
                 except Exception:
                     err_repr = object.__repr__(_e)
-                err += (
-                    '<h2>Error:</h2>\n<pre>\n%s\n</pre>\n'
-                    '<h2>Traceback:</h2>\n<pre>\n%s\n</pre>\n'
-                    % (html_escape(err_repr), html_escape(format_exc()))
-                )
+                stacktrace = format_exc()
+            if environ.get('HTTP_ACCEPT', '').startswith('application/json'):
+                err = json.dumps(dict(body = err, exception = err_repr, traceback = stacktrace))
+                content_type = 'application/json'
+            else:
+                err = '<h1>%s</h1>' % err
+                if self.config.debug:
+                    err += (
+                        '<h2>Error:</h2>\n<pre>\n%s\n</pre>\n'
+                        '<h2>Traceback:</h2>\n<pre>\n%s\n</pre>\n'
+                        % (html_escape(err_repr), html_escape(stacktrace))
+                    )
+                content_type = 'text/html; charset=UTF-8'
             environ['wsgi.errors'].write(err)
-            headers = [('Content-Type', 'text/html; charset=UTF-8')]
+            headers = [('Content-Type', content_type)]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [err.encode('utf8', 'backslashreplace')] if environ['REQUEST_METHOD'].upper() != 'HEAD' else []
 
-- 
2.43.0


From c04a531f46576d2e4a4a8d471ecb0fa08d00eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 46/49] fix: a rex selector is not confused with path text or
 taken by the next wildcard

---
 ombott/router/radidict.py   | 13 +++++++++----
 ombott/router/radirouter.py |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index da5b187..185d84a 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -20,6 +20,10 @@ HOOKS = 6
 DATA = 7
 OFFSET = 8
 
+# a filter selector in a route pattern is enclosed in this symbol, which can't be in a decoded path,
+# so it is never confused with the text that follows the param
+SELECTOR_MARK = '\udfff'
+
 
 # mismatch types
 class MismatchType(IntEnum):
@@ -408,7 +412,7 @@ class RadiDict:
 
                 if kidx is None:  # not found
                     # maybe token or look_back
-                    if c == TOKEN:
+                    if c == TOKEN and route[i] != SELECTOR_MARK:
                         token_node = pnode[-1]
                         filter = token_node[FILTER]
                         if filter:
@@ -433,8 +437,9 @@ class RadiDict:
                                 look_back.append(
                                     [route, pnode, i, L, params[:], hooks[:], False, i0]
                                 )
-                                i0 += i - len(str(selector))
-                                route = str(selector) + route[i:]
+                                selector = f'{SELECTOR_MARK}{selector}{SELECTOR_MARK}'
+                                i0 += i - len(selector)
+                                route = selector + route[i:]
                                 i = 0
                                 L = len(route)
                                 selector = None
@@ -445,7 +450,7 @@ class RadiDict:
                         break
 
                 # regular logic
-                if idx[-1] == TOKEN:
+                if idx[-1] == TOKEN and route[i] != SELECTOR_MARK:
                     look_back.append(
                         [route, pnode, i, L, params[:], hooks[:], True, i0]
                     )
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 6143683..ac1e676 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,5 +1,5 @@
 from enum import IntEnum
-from .radidict import RadiDict, DATA, HOOKS
+from .radidict import RadiDict, DATA, HOOKS, SELECTOR_MARK
 from .filter_factory import FilterFactory
 from .errors import RouteBuildError, RouteMethodError
 from .parser import Parser
@@ -195,7 +195,7 @@ class Route:
         filters_out = []
         anon_counter = 0
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
-            filter_selector = filter_selector or ''
+            filter_selector = f'{SELECTOR_MARK}{filter_selector}{SELECTOR_MARK}' if filter_selector else ''
             if not part:  # it is param or/and filter
                 part = '\r'
                 if not param:
-- 
2.43.0


From 2c78d0b3ed6ccf57771b7760da1b33004560db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 47/49] fix: a handler is called also when a wildcard of its
 rule is named self

---
 ombott/router/radirouter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index ac1e676..b4b9363 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -33,8 +33,9 @@ class RouteMethod:
     def __repr__(self):
         return '<{}:{} {}>'.format(self.route.rule, self.name, self.handler)
 
-    def __call__(self, *a, **kw):
-        return self.handler(*a, **kw)
+    def __call__(*args, **kw):  # any wildcard name (e.g. self) can be in kw
+        self, *args = args
+        return self.handler(*args, **kw)
 
 
 class Route:
-- 
2.43.0


From 79086f9cd183d0d8ddf6e886647220912b676d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 48/49] fix: a body whose reading was interrupted is not read
 on from the middle of the stream

---
 ombott/request_pkg/body_mixin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 2f4fa07..c57b0e2 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -257,6 +257,8 @@ class BodyMixin:
         failed = self._env_get('ombott.request.body_error')
         if failed:  # what is left in the stream is not the body
             self._raise(failed(), RequestError)
+        # whatever interrupts the reading (e.g. an I/O error) leaves a partly read stream
+        self.environ['ombott.request.body_error'] = RequestError
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         try:
@@ -275,6 +277,7 @@ class BodyMixin:
             self.environ['ombott.request.body_error'] = err.__class__
             self._raise(err, RequestError)
         self.environ['wsgi.input'] = body
+        del self.environ['ombott.request.body_error']
         body.seek(0)
         return body
 
-- 
2.43.0


From 76faf3d0079e3bb258bcca82a11402f706926b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 49/49] fix: a file-like object whose first read fails becomes
 an error page instead of escaping to the server

---
 ombott/common_helpers.py |  9 ++++++++-
 ombott/ombott.py         | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 49d1dd3..e774f7b 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -327,14 +327,21 @@ class WSGIFileWrapper(object):
 
     def __init__(self, fp, buffer_size=1024 * 64):
         self.fp, self.buffer_size = fp, buffer_size
+        self.first_part = None
         for attr in ('fileno', 'close', 'read', 'readlines', 'tell', 'seek'):
             a = getattr(fp, attr, None)
             if a is not None:
                 setattr(self, attr, a)
 
+    def peek(self):
+        """ Read the first part ahead of the iteration. """
+        self.first_part = self.read(self.buffer_size)
+
     def __iter__(self):
         buff, read = self.buffer_size, self.read
-        part = read(buff)
+        part, self.first_part = self.first_part, None
+        if part is None:
+            part = read(buff)
         while part:
             yield part
             part = read(buff)
diff --git a/ombott/ombott.py b/ombott/ombott.py
index 63b13ee..80afe94 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -340,7 +340,20 @@ class Ombott:
                 if 'wsgi.file_wrapper' in request.environ:
                     return request.environ['wsgi.file_wrapper'](out)
                 elif hasattr(out, 'close') or not hasattr(out, '__iter__'):
-                    return WSGIFileWrapper(out)
+                    # peek, so that a failing first read becomes an error page
+                    wrapped = WSGIFileWrapper(out)
+                    try:
+                        wrapped.peek()
+                        return wrapped
+                    except HTTPResponse as rs:
+                        out = rs.with_traceback(None)
+                    except (KeyboardInterrupt, SystemExit, MemoryError):
+                        raise
+                    except Exception as err500:
+                        out = HTTPError(500, 'Unhandled exception', err500, format_exc())
+                    if hasattr(wrapped, 'close'):
+                        wrapped.close()
+                    continue                                         # -----------------^
 
             # Handle Iterables. We peek into them to detect their inner type.
             try:
-- 
2.43.0

