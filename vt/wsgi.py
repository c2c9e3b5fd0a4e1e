"""A WSGI client with an independent PEP 3333 validator, and request builders."""
import io
import re
import zlib

from .core import Violation, short

TOKEN = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
STATUS = re.compile(r'^[1-9][0-9][0-9] [^\x00-\x1f\x7f]+$')
CTL = re.compile(r'[\x00-\x1f\x7f]')


class Stream:
    """wsgi.input which records what is asked of it and fragments its answers.

    plan: list of maximal answer lengths, cycled; empty = answer in full."""

    def __init__(self, data, plan=(), hard_limit=None):
        self.data = data
        self.pos = 0
        self.plan = list(plan)
        self.k = 0
        self.asked = 0
        self.delivered = 0
        self.maxpos_asked = 0
        self.calls = 0
        self.unbounded = 0
        self.hard_limit = hard_limit

    def _take(self, n):
        self.calls += 1
        rest = len(self.data) - self.pos
        if n is None or n < 0:
            self.unbounded += 1
            n = rest
        self.asked += n
        self.maxpos_asked = max(self.maxpos_asked, self.pos + n)
        m = min(n, rest)
        if self.plan and m > 0:
            m = min(m, max(1, self.plan[self.k % len(self.plan)]))
            self.k += 1
        out = self.data[self.pos:self.pos + m]
        self.pos += m
        self.delivered += m
        return out

    def read(self, n=-1):
        return self._take(n)

    def readline(self, n=-1):
        rest = self.data[self.pos:]
        i = rest.find(b'\n')
        ln = len(rest) if i < 0 else i + 1
        if n is not None and n >= 0:
            ln = min(ln, n)
        self.calls += 1
        self.asked += ln
        out = rest[:ln]
        self.pos += ln
        self.delivered += ln
        self.maxpos_asked = max(self.maxpos_asked, self.pos)
        return out

    def readlines(self, hint=None):
        return list(self)

    def __iter__(self):
        while True:
            ln = self.readline()
            if not ln:
                return
            yield ln


def wsgi_str(s):
    """text path -> the latin-1 'native' string a server puts into the environ"""
    if isinstance(s, bytes):
        return s.decode('latin1')
    return s.encode('utf8', 'surrogatepass').decode('latin1')


# what servers, proxies and clients put into an environ besides the request itself; no property lets it matter
NOISE = [('wsgi.input_terminated', True), ('wsgi.multithread', False), ('wsgi.run_once', True), ('wsgi.multiprocess', True), ('HTTP_X_HTTP_METHOD_OVERRIDE', 'DELETE'), ('HTTP_X_HTTP_METHOD', 'PUT'), ('HTTP_X_METHOD_OVERRIDE', 'PATCH'),
         ('REQUEST_URI', '/other?z=9'), ('RAW_URI', '/other?z=9'), ('HTTP_X_ORIGINAL_URL', '/other'), ('HTTP_X_REWRITE_URL', '/other'), ('PATH_TRANSLATED', '/srv/other'), ('HTTP_X_FORWARDED_PREFIX', '/other'), ('HTTP_X_FORWARDED_PORT', '81'),
         ('HTTP_FORWARDED', 'for=1.2.3.4;host=other'), ('HTTP_X_REAL_IP', '1.2.3.4'), ('HTTP_CONTENT_LENGTH', '3'), ('HTTP_CONTENT_TYPE', 'text/other'), ('HTTP_CONTENT_ENCODING', 'gzip'), ('HTTP_TE', 'trailers, chunked'), ('HTTP_TRAILER', 'X-T'),
         ('HTTP_EXPECT', '100-continue'), ('HTTP_CONNECTION', 'close'), ('HTTP_CONNECTION', 'Upgrade'), ('HTTP_UPGRADE', 'websocket'), ('HTTP_ACCEPT_ENCODING', 'gzip, br'), ('HTTP_ACCEPT_CHARSET', 'latin1'), ('HTTP_ACCEPT_LANGUAGE', 'de'),
         ('HTTP_USER_AGENT', 'Mozilla/4.0 (compatible; MSIE 6.0)'), ('HTTP_CACHE_CONTROL', 'no-cache'), ('HTTP_PRAGMA', 'no-cache'), ('HTTP_ORIGIN', 'null'), ('HTTP_REFERER', 'http://other/'), ('HTTP_X_REQUESTED_WITH', 'XMLHttpRequest'),
         ('HTTP_PROXY', 'http://other'), ('HTTPS', 'on'), ('GATEWAY_INTERFACE', 'CGI/1.1'), ('REMOTE_PORT', '9'), ('SERVER_SOFTWARE', 'other/1'), ('HTTP_KEEP_ALIVE', '300'), ('HTTP_DNT', '1'), ('HTTP_MAX_FORWARDS', '0'),
         ('HTTP_ACCESS_CONTROL_REQUEST_METHOD', 'PUT'), ('HTTP_X_CSRF_TOKEN', 'x'), ('HTTP_PREFER', 'return=minimal'), ('HTTP_WANT_DIGEST', 'md5')]


def noise(env):
    """some of it, as a function of the request"""
    h = zlib.crc32(repr([env.get(k) for k in ('REQUEST_METHOD', 'PATH_INFO', 'QUERY_STRING', 'CONTENT_TYPE', 'CONTENT_LENGTH', 'HTTP_COOKIE', 'HTTP_RANGE')]).encode('utf8', 'backslashreplace'))
    if h & 3 == 0:
        for i in range(1 + (h >> 2) % 3):
            h = h * 1103515245 + 12345 & 0xffffffff
            env.setdefault(*NOISE[(h >> 8) % len(NOISE)])


def verb(*key):
    """the method of a request with a body: mostly POST, the others as a function of the key"""
    h = zlib.crc32(repr(key).encode('utf8', 'backslashreplace'))
    return VERBS[h >> 4 & 15 if h % 3 == 0 else 0]


VERBS = ['POST', 'PUT', 'PATCH', 'DELETE', 'GET', 'OPTIONS', 'QUERY', 'post', 'PROPFIND', 'REPORT', 'LINK', 'TRACE', 'SEARCH', 'Put', 'M-SEARCH', 'X']


def environ(method='GET', path='/', qs='', headers=None, body=None, ctype=None, clen=None,
            chunked=False, script='', proto='HTTP/1.1', scheme='http', extra=None, stream=None, te=None):
    """te: with chunked, (spelling of the transfer coding, Content-Length sent beside it or None)"""
    env = {
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': script,
        'PATH_INFO': wsgi_str(path),
        'QUERY_STRING': qs,
        'SERVER_NAME': 'localhost',
        'SERVER_PORT': '80',
        'SERVER_PROTOCOL': proto,
        'REMOTE_ADDR': '127.0.0.1',
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': scheme,
        'wsgi.input': stream if stream is not None else Stream(body or b''),
        'wsgi.errors': io.StringIO(),
    }
    if ctype is not None:
        env['CONTENT_TYPE'] = ctype
    if clen is None and body is not None and not chunked:
        clen = len(body)
    if clen is not None:
        env['CONTENT_LENGTH'] = str(clen)
    if chunked:
        env['HTTP_TRANSFER_ENCODING'] = te[0] if te else 'chunked'
        if te and te[1] is not None:
            env['CONTENT_LENGTH'] = str(te[1])
    for k, v in (headers or {}).items():
        env['HTTP_' + k.upper().replace('-', '_')] = v
    if extra:
        env.update(extra)
    noise(env)
    for k, v in (('wsgi.multithread', True), ('wsgi.multiprocess', False), ('wsgi.run_once', False)):
        env.setdefault(k, v)
    return env


def gen_te(src):
    """the framing headers of a chunked request: a coding name of any case, possibly with a Content-Length, which does not count"""
    if src.bool(0.5):
        return None
    return [src.choice(['chunked', 'chunked', 'Chunked', 'CHUNKED']), src.pick((3, None), (2, 0), (2, 3), (1, 1), (1, 17), (2, 10 ** 9), (1, ''))]


class Result:
    __slots__ = ('status', 'code', 'headers', 'chunks', 'body', 'starts', 'exc_info', 'errors', 'escaped',
                 'iter_error', 'env')

    def header(self, name, default=None):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return default

    def all(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def key(self):
        return (self.status, tuple(self.headers), self.body)

    def __repr__(self):
        return f'<{self.status!r} {self.headers!r} {short(repr(self.body), 300)}>'


def call(app, env, *, validate=True, iter_errors=False, max_chunks=100000, let_escape=False):
    """serve one request the way a WSGI server does; validates the exchange"""
    r = Result()
    r.starts, r.exc_info, r.chunks, r.escaped, r.iter_error, r.env = [], None, [], None, None, env
    r.status = r.code = r.headers = None

    def start_response(status, headers, exc_info=None):
        r.starts.append((status, headers, exc_info))

        def write(_):
            raise Violation('write() callable used')
        return write

    try:
        out = app(env, start_response)
    except Exception as e:
        if let_escape:
            r.escaped = e
            r.body = b''
            r.errors = env['wsgi.errors'].getvalue()
            return r
        raise Violation(f'exception escaped the application to the server: {type(e).__name__}: {short(str(e), 300)}')
    try:
        try:
            it = iter(out)
        except TypeError:
            raise Violation(f'application returned a non-iterable {type(out)}')
        n_before = len(r.starts)
        while True:
            try:
                c = next(it)
            except StopIteration:
                break
            except Violation:
                raise
            except Exception as e:
                r.iter_error = e
                if iter_errors:
                    break
                raise Violation(f'iterating the response raised {type(e).__name__}: {short(str(e), 300)}')
            if not isinstance(c, bytes):
                raise Violation(f'response chunk is {type(c).__name__}, not bytes')
            r.chunks.append(c)
            if len(r.chunks) > max_chunks:
                raise Violation('endless response body')
        del n_before
    finally:
        close = getattr(out, 'close', None)
        if close is not None:
            close()
    r.body = b''.join(r.chunks)
    r.errors = env['wsgi.errors'].getvalue()
    if len(r.starts) != 1:
        raise Violation(f'start_response called {len(r.starts)} times: {short(r.starts, 300)}')
    r.status, r.headers, r.exc_info = r.starts[0]
    if validate:
        check_start(r)
    r.code = int(r.status[:3])
    return r


def check_start(r):
    s, hs = r.status, r.headers
    if type(s) is not str:
        raise Violation(f'status is {type(s).__name__}')
    if not STATUS.match(s):
        raise Violation(f'malformed status line {s!r}')
    try:
        s.encode('latin1')
    except UnicodeError:
        raise Violation(f'status line not encodable as Latin-1: {s!r}')
    if type(hs) is not list:
        raise Violation(f'header list is {type(hs).__name__}')
    for item in hs:
        if type(item) is not tuple or len(item) != 2:
            raise Violation(f'header item {item!r}')
        k, v = item
        if type(k) is not str or type(v) is not str:
            raise Violation(f'header item is not a pair of native strings: {item!r}')
        if not TOKEN.match(k):
            raise Violation(f'bad header name {k!r}')
        if '\r' in v or '\n' in v or '\0' in v:
            raise Violation(f'header value contains a control character: {item!r}')
        try:
            v.encode('latin1')
        except UnicodeError:
            raise Violation(f'header value not encodable as Latin-1: {item!r}')


def body_allowed(code, method):
    return not (100 <= code < 200 or code in (204, 304)) and method.upper() != 'HEAD'
