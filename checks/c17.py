"""C17 - range and conditional requests describe exactly the bytes delivered."""
import calendar
import itertools
import os
import re
import time

from vt.core import Leg, Violation
from vt import wsgi
from vt.app import pattern

RULE = ('files of every small length and lengths around the buffer sizes, asked of static_file directly and through the default application with Range headers from the RFC 7233 grammar and near misses, '
        'If-Modified-Since in the three HTTP date formats (before / equal / after the modification time, with time zones of the server varied) and junk, as GET and HEAD, with and without wsgi.file_wrapper. '
        'Oracle: an independent RFC 7233 parser and date parser; 206 iff the first range is satisfiable (strict grammar), Content-Range = Content-Length = delivered bytes = that slice of the file on disk, chunks of at most 1 MiB, '
        '304 without body iff the date is not older, HEAD has the headers of GET and no body. Non-trivial: a Range or If-Modified-Since header is given.')
ASSUMPTIONS = ['the file does not change during the call', 'numbers in a Range header have at most 4000 digits (int() limit)',
               'the streaming buffer is 1 MiB (the default of the range iterator)',
               'a range set whose first range is unsatisfiable may be answered with 416 or with its first satisfiable range; a header outside the RFC 7233 grammar with 416 or a self-consistent 206']

BUF = 1024 * 1024
LENS = list(range(0, 21)) + [99, 100, 101, 255, 256, 1000, 4095, 4096, 65535, 65536, 65537, 131072, BUF - 1, BUF, BUF + 1, 2 * BUF - 1, 2 * BUF, 2 * BUF + 1, 2621440 + 7]
MTIME = 1600000000
_st = {}


def setup(ctx):
    import mimetypes
    mimetypes.init()
    root = os.path.join(ctx.scratch, 'r')
    os.makedirs(root)
    _st.update(root=root, data={})
    import ombott
    cell = _st['cell'] = {}

    @ombott.route('/f/<name:path>', method=['GET', 'ANY'])
    def h(name):
        return ombott.static_file(name, cell['root'], **cell['kw'])


def file_of(n, ext='bin'):
    name = f'f{n}.{ext}'
    if name not in _st['data']:
        data = pattern(n + 1, n)
        with open(os.path.join(_st['root'], name), 'wb') as f:
            f.write(data)
        _st['data'][name] = data
        os.utime(os.path.join(_st['root'], name), (MTIME, MTIME))
    return name, _st['data'][name]


class Out:
    pass


class Wrapper:
    """what a server offers as wsgi.file_wrapper"""

    def __init__(self, f, blksize=8192):
        self.f, self.n = f, blksize

    def __iter__(self):
        return iter(lambda: self.f.read(self.n), b'')

    def close(self):
        self.f.close()


def serve(way, method, name, headers, kw):
    import ombott
    o = Out()
    o.escaped = None
    if way == 'direct':
        env = wsgi.environ(method, '/x', headers=headers)
        ombott.request.__init__(env)
        try:
            r = ombott.static_file(name, _st['root'], **kw)
        except Exception as e:
            o.escaped = e
            return o
        o.status = r.status_code
        o.headers = {k.lower(): str(v) for k, v in r.headers.items()} if hasattr(r.headers, 'items') else {k.lower(): v for k, v in r.headerlist}
        for k, v in r.headerlist:
            o.headers.setdefault(k.lower(), v)
        b = r.body
        if isinstance(b, (str, bytes)):
            o.chunks = [b.encode() if isinstance(b, str) else b]
        else:
            if hasattr(b, 'read'):
                o.chunks = [b.read()]           # the server chooses the block size
                o.whole = True
            else:
                o.chunks = list(b)
            getattr(b, 'close', lambda: None)()
        if o.status >= 400:
            o.chunks = [b'']                    # an error page
    else:
        _st['cell'].update(root=_st['root'], kw=kw)
        env = wsgi.environ(method, '/f/' + name, headers=headers)
        if way == 'wrapper':
            env['wsgi.file_wrapper'] = Wrapper
        r = wsgi.call(ombott.app, env)
        o.status, o.chunks = r.code, r.chunks
        o.headers = {k.lower(): v for k, v in r.headers}
        o.err = r.errors
        if len(r.headers) != len(o.headers):
            raise Violation(f'duplicate headers in {r.headers}')
    o.body = b''.join(o.chunks)
    return o


# ------------------------------------------------------------- range oracle
SPEC = re.compile(r'(\d+)-(\d*)|-(\d+)', re.A)


def parse_range(h):
    """-> list of (first, last|None) / (None, suffix), or None if it is not in the strict grammar"""
    if not h.startswith('bytes='):
        return None
    out = []
    for s in h[6:].split(','):
        m = SPEC.fullmatch(s.strip(' \t'))
        if not m:
            return None
        if m[3] is not None:
            out.append((None, int(m[3])))
        else:
            a, b = int(m[1]), int(m[2]) if m[2] else None
            if b is not None and b < a:
                return None
            out.append((a, b))
    return out


def clip(r, n):
    """RFC 7233: -> (start, end) end exclusive or None"""
    a, b = r
    if a is None:
        s, e = max(0, n - b), n
    else:
        s, e = a, n if b is None else min(n, b + 1)
    return (s, e) if s < e else None


CR = re.compile(r'bytes (\d+)-(\d+)/(\d+)', re.A)


def run(case, ctx):
    n = case['len']
    name, data = file_of(n, case.get('ext', 'bin'))
    path = os.path.join(_st['root'], name)
    mtime_ns = case.get('mtime', MTIME * 10 ** 9)
    os.utime(path, ns=(mtime_ns, mtime_ns))
    mt = mtime_ns // 10 ** 9
    frac = bool(mtime_ns % 10 ** 9)
    kw = case.get('kw', {})
    headers = {}
    rng, ims = case['range'], case['ims']
    if rng is not None:
        headers['Range'] = rng
    ims_text = when = None
    if ims is not None:
        if ims[0] == 'raw':
            ims_text = ims[1]
        else:
            when = mt + ims[1]
            ims_text = http_date(ims[0], when)
        headers['If-Modified-Since'] = ims_text
    if headers:
        ctx.nontrivial()
    plain = 'GET' if headers else wsgi.verb('f', n, case['way'], mtime_ns, sorted(kw)).replace('POST', 'GET')   # without a Range any method is given the file
    ctx.tag('other-method' if plain != 'GET' else 'get')
    tz = case.get('tz')
    if tz:
        old = os.environ.get('TZ')
        os.environ['TZ'] = tz
        time.tzset()
    try:
        res = {m: serve(case['way'], m, name, headers, kw) for m in (plain, 'HEAD')}
    finally:
        if tz:
            if old is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = old
            time.tzset()
    g, hd = res[plain], res['HEAD']
    what = lambda: f'a file of {n} bytes (mtime {mtime_ns / 1e9}) asked with {headers} [{case["way"]}{", TZ=" + tz if tz else ""}]'
    for m, o in res.items():
        ctx.check(o.escaped is None, lambda: f'{what()}: {m} raises {type(o.escaped).__name__}: {o.escaped}')
    st = g.status
    ctx.tag(str(st))
    # HEAD: the same headers, no body
    ctx.check(hd.body == b'', lambda: f'{what()}: HEAD has a body of {len(hd.body)} bytes')
    ctx.check(hd.status == st, lambda: f'{what()}: GET {st}, HEAD {hd.status}')
    hg, hh = ({k: v for k, v in o.headers.items() if k != 'date'} for o in (g, hd))
    ctx.check(hg == hh, lambda: f'{what()}: headers of GET {hg} and of HEAD {hh} differ')
    # conditional
    fresh = None
    if when is not None:
        fresh = when >= mt      # HTTP dates have whole seconds: Last-Modified, echoed, is not older
        ctx.tag('fresh' if fresh else 'stale')
    elif ims is None or not re.search(r'\d', ims_text):
        fresh = False
    if fresh is not None:
        ctx.check((st == 304) == fresh, lambda: f'{what()}: {st}, but the date is {"not older" if fresh else "older" if when is not None else "no date"}')
    if st == 304:
        ctx.check(g.body == b'', lambda: f'{what()}: 304 with a body of {len(g.body)} bytes')
        return
    for c in g.chunks:
        ctx.check(len(c) <= BUF or getattr(g, 'whole', False), lambda: f'{what()}: a chunk of {len(c)} bytes')
    cl = g.headers.get('content-length')
    if not rng:
        if rng is None:
            ctx.check(st == 200, lambda: f'{what()}: {st}')
    else:
        ctx.check(st in (206, 416), lambda: f'{what()}: {st}')
    if st == 200:
        ctx.check(g.body == data, lambda: f'{what()}: delivered {len(g.body)} bytes, not the file')
        ctx.check(cl == str(n), lambda: f'{what()}: Content-Length {cl!r}')
        ctx.check('content-range' not in g.headers, lambda: f'{what()}: 200 with Content-Range {g.headers}')
        lm = g.headers.get('last-modified')
        ctx.check(lm is None or lm in (http_date('rfc1123', mt), http_date('rfc1123', mt + frac)), lambda: f'{what()}: Last-Modified {lm!r}')
        return
    want = parse_range(rng)
    if want is not None:
        ctx.tag('grammar')
        cl_first = clip(want[0], n)
        strict = re.fullmatch(r'bytes=[0-9\-,]+', rng)
        sats = [c for c in (clip(w, n) for w in want) if c]
        if cl_first and strict:
            ctx.tag('satisfiable')
            ctx.check(st == 206, lambda: f'{what()}: {st}, but the first range is {cl_first}')
        if not sats:
            ctx.tag('unsatisfiable')
            ctx.check(st == 416, lambda: f'{what()}: {st}, but no range is satisfiable')
        allowed = {sats[0]} if sats else set()
    else:
        ctx.tag('near-miss')
        allowed = None
    if st == 416:
        cr = g.headers.get('content-range')
        ctx.check(cr is None or cr == f'bytes */{n}', lambda: f'{what()}: 416 with Content-Range {cr!r}')
        return
    cr = g.headers.get('content-range')
    m = CR.fullmatch(cr or '')
    ctx.check(m, lambda: f'{what()}: 206 with Content-Range {cr!r}')
    a, b, total = map(int, m.groups())
    ctx.check(total == n and a <= b < n, lambda: f'{what()}: Content-Range {cr!r}')
    ctx.check(cl == str(b + 1 - a), lambda: f'{what()}: Content-Range {cr!r} but Content-Length {cl!r}')
    ctx.check(g.body == data[a:b + 1], lambda: f'{what()}: {cr!r} but {len(g.body)} bytes are delivered: {g.body[:20]!r}, not {data[a:b + 1][:20]!r}')
    if allowed is not None:
        ctx.check((a, b + 1) in allowed, lambda: f'{what()}: {cr!r}, but the first range is {sorted(allowed)} (end exclusive)')
    if len(g.chunks) > 1:
        ctx.tag('chunks')


# ------------------------------------------------------------- dates
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
WDL = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def http_date(fmt, t):
    if fmt[0] in '+-':                   # the same moment, written in another zone
        off = (int(fmt[1:3]) * 3600 + int(fmt[3:5]) * 60) * (-1 if fmt[0] == '-' else 1)
        if t + off < 0:
            return http_date('rfc1123', t)
        return http_date('rfc1123', t + off).replace('GMT', fmt)
    y, mo, d, h, mi, s, wd, *_ = time.gmtime(t)
    hms = f'{h:02}:{mi:02}:{s:02}'
    if fmt == 'rfc850' and 1970 <= y < 2068:
        return f'{WDL[wd]}, {d:02}-{MON[mo - 1]}-{y % 100:02} {hms} GMT'
    if fmt == 'asctime':
        return f'{WD[wd]} {MON[mo - 1]} {d:2} {hms} {y:04}'
    out = f'{WD[wd]}, {d:02} {MON[mo - 1]} {y:04} {hms} GMT'
    if fmt == 'length':
        out += '; length=1234'
    return out


# ------------------------------------------------------------- generators
def num(src, n):
    return src.pick((3, src.int(0, 3)), (2, max(0, n - 1)), (2, n), (1, n + 1), (2, max(0, n - 2)), (2, src.below(n + 2)), (1, n // 2), (1, min(n, BUF)), (1, min(n, BUF - 1)), (1, 10 ** 6), (1, 10 ** 30), (1, n * 2), (1, src.int(0, 30)))


def gen_num(src, n):
    v = str(num(src, n))
    return src.pick((14, v), (1, '0' + v), (1, '00' + v))


def gen_spec(src, n):
    k = src.pick((5, 'ab'), (3, 'a-'), (3, '-n'))
    if k == 'ab':
        a = num(src, n)
        b = src.pick((3, a + num(src, n)), (2, num(src, n)), (1, a))
        return f'{src.pick((9, ""), (1, "0"))}{a}-{b}'
    if k == 'a-':
        return f'{gen_num(src, n)}-'
    return f'-{gen_num(src, n)}'


JUNK = ['', ' ', 'bytes', 'bytes=', 'bytes=-', 'bytes=--', 'bytes= ', 'bytes=,', 'bytes=a-b', 'bytes=1', 'bytes=1-2-3', 'bytes=--5', 'bytes=-5-', 'bytes=+1-2', 'bytes=1-+2', 'bytes=1_0-2_0', 'bytes=0x1-0x2', 'bytes=1.0-2', 'bytes=0-1e1',
        'BYTES=0-1', 'Bytes=0-1', 'bytes:0-1', 'bytes 0-1', 'bytes 0-1/5', ' bytes=0-1', 'items=0-1', 'bytes =0-1', 'bytes=0 - 1', 'bytes=0- 1', 'bytes= 0-1', 'bytes=0-1 ', 'bytes=\t0-1', 'bytes=0-1;', 'bytes==0-1', 'bytes=bytes=0-1',
        'bytes=0-1,junk', 'bytes=junk,0-1', 'bytes=,0-1', 'bytes=0-1,', 'bytes=0\xa0-1', 'bytes=\xb2-5', 'bytes=0-\xb9', 'none', '-5', '5-', '0-1', 'xbytes=0-1', 'bytes=-+5', 'bytes=- 5', 'bytes=-_5', 'bytes=*', 'bytes=*/5', 'bytes=5-3', 'bytes=1-0', 'bytes=-1-1', 'bytes=\x00-1']


def gen_range(src, n):
    k = src.pick((10, 'one'), (4, 'set'), (2, 'ows'), (2, 'junk'), (2, 'mutate'))
    if k == 'one':
        return 'bytes=' + gen_spec(src, n)
    if k in ('set', 'ows'):
        specs = [gen_spec(src, n) for _ in range(src.count(2, 5, 2.5))]
        return 'bytes=' + (src.choice([', ', ' ,', ',\t', ',,', ' , ']) if k == 'ows' else ',').join(specs)
    if k == 'junk':
        return src.choice(JUNK)
    s = 'bytes=' + ','.join(gen_spec(src, n) for _ in range(src.count(1, 3, 1.3)))
    for _ in range(src.count(1, 3, 1.3)):
        i = src.below(len(s) + 1)
        s = src.pick((2, s[:i] + src.choice('-,= +_.0123456789aB\t\xb2*/x') + s[i:]), (1, s[:i] + s[i + 1:]), (1, s[:i] + src.choice('-,=0 9') + s[i + 1:]))
    return s


def gen_len(src, big):
    return src.choice(LENS) if big else src.pick((6, src.below(12)), (3, src.choice(LENS[:26])), (1, src.choice(LENS[:32])))


def gen(src, big=False):
    n = gen_len(src, big)
    if big and src.bool(0.6):
        n = src.choice(LENS[-8:])
    c = dict(len=n, way=src.pick((3, 'direct'), (2, 'wsgi'), (1, 'wrapper')), range=src.pick((9, None), (1, '')) if src.bool(0.08) else gen_range(src, n), ims=None)
    if src.bool(0.1):
        c['ims'] = (src.choice(FMTS), src.choice([-10 ** 8, -86400, -1, 0, 1, 86400, 10 ** 8]))
    if src.bool(0.1):
        c['ext'] = src.choice(['txt', 'tar.gz', 'html'])
    if src.bool(0.08):
        c['kw'] = src.choice([dict(download=True), dict(mimetype='text/x'), dict(download='n.txt', mimetype=None)])
    return c


def gen_big(src):
    return gen(src, True)


FMTS = ['rfc1123', 'rfc850', 'asctime', 'length']
ZONES = ['+0000', '-0000', '+0200', '-0500', '+0530', '-0330', '+1400', '-1200', '+0001', '-0059']
TZS = [None, None, 'UTC', 'EST5EDT', 'CET-1CEST', 'IST-5:30', 'NZST-12NZDT', 'PST8PDT', 'Europe/Moscow', 'Europe/London', 'Asia/Kathmandu', 'America/Caracas', 'Europe/Dublin', 'LINT-14', 'BIT12', 'XXX-1YYY-2,M1.1.0,M12.5.0',
       'STD-3DST-5,J60/2,J300/2', 'AAA5']
DELTA = [-1, 0, 1, -3600, 3600, -7200, 7200, -3599, 3599, -1800, 1800, -86400, 86400, -10 ** 7, 10 ** 7, -2, 2, 60, -60, -43200, 43200, 19800, -19800]
IMSJUNK = ['', ' ', ';', '; length=3', 'junk', 'GMT', 'Mon', '0', '1600000000', 'Sun, 13 Sep 2020', 'Sun, 99 Sep 2020 12:26:40 GMT', 'Sun, 13 Sep 99999 12:26:40 GMT', 'Sun, 13 Sep 2020 99:99:99 GMT', 'Sun, 13 Foo 2020 12:26:40 GMT', '13 Sep 2020 12:26:40',
           'Sun, 00 Jan 0000 00:00:00 GMT', 'Sun, 13 Sep 2020 12:26:40 +9999999999', ',', ', ,', '-', ':', '::', 'Sun, 13 Sep 2020 12:26:40 GMT GMT', '2020-09-13T12:26:40Z', '\xe9', '"x"', 'Sun, 13-Sep-2020 12:26:40 GMT', 'sun, 13 sep 2020 12:26:40 gmt', '-' * 50,
           'Sun, 13 Sep 2020 12 GMT', 'Sun, 13 Sep 2020 1:2 GMT', 'Thu, 01 Jan 1970 00:00:00 GMT', 'Sun, 1 1 1 1 1 1', 'Sun,13 Sep 2020 12:26:40 GMT', 'Sun, -1 Sep 2020 12:26:40 GMT', '9' * 400]


def gen_dates(src):
    t = src.pick((3, MTIME), (4, src.below(2 * 10 ** 9)), (1, 0), (1, src.int(0, 10 ** 6)), (1, 2 ** 31 - 1 + src.int(-2, 2)), (1, 2 ** 32 + src.int(-2, 2)), (2, 1330000000 + src.below(10 ** 8)), (2, 60 * 60 * src.below(500000)))
    c = dict(len=src.choice([0, 5, 20]), way=src.pick((3, 'direct'), (2, 'wsgi')), range=None, mtime=t * 10 ** 9 + src.pick((4, 0), (1, 1), (1, 500000000), (1, 999000000)), tz=src.choice(TZS))
    if src.bool(0.85):
        d = src.choice(DELTA)
        c['ims'] = (src.choice(FMTS) if src.bool(0.8) else src.choice(ZONES), max(d, -t))
    else:
        s = src.choice(IMSJUNK)
        for _ in range(src.count(0, 3, 0.6)):
            i = src.below(len(s) + 1)
            s = s[:i] + src.choice(' ,:;-+0123456789JanGMT') + s[i + src.below(2):]
        c['ims'] = ('raw', s)
    if src.bool(0.15):
        c['range'] = gen_range(src, c['len'])
    return c


def enum_small(tier):
    top = 7 if tier == 'quick' else 14
    for n in list(range(top + 1)):
        vals = [''] + list(map(str, range(n + 3)))
        for a, b in itertools.product(vals, vals):
            for tail in ('', ',0-0', ',-1'):
                for way in ('direct', 'wsgi'):
                    yield dict(len=n, way=way, range=f'bytes={a}-{b}{tail}', ims=None)
        yield dict(len=n, way='direct', range=None, ims=None)
        yield dict(len=n, way='wsgi', range=None, ims=None)
        for j in JUNK:
            yield dict(len=n, way='direct', range=j, ims=None)
            yield dict(len=n, way='wsgi', range=j, ims=None)
    for j in IMSJUNK:
        for way in ('direct', 'wsgi'):
            yield dict(len=3, way=way, range=None, ims=('raw', j))


def legs(tier):
    return [
        Leg('small-scope', run, enum=enum_small, quick=0, thorough=0, shards=3, tshards=6, need=('206', '416', '200', 'satisfiable', 'unsatisfiable', 'near-miss')),
        Leg('ranges', run, gen=gen, quick=75000, thorough=1000000, shards=3, hyp=300, need=('206', '416', '200', '304', 'satisfiable', 'unsatisfiable', 'near-miss', 'other-method')),
        Leg('buffers', run, gen=gen_big, quick=6250, thorough=60000, shards=3, hyp=60, need=('206', '416', 'chunks', '200')),
        Leg('dates', run, gen=gen_dates, quick=50000, thorough=600000, shards=3, hyp=300, need=('200', '304', 'fresh', 'stale')),
    ]
