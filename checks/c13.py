"""C13 - body size limits and disk spooling bound what a request can consume."""
import bisect
import json
import os
import stat
import tracemalloc

from vt.core import Leg
from vt.app import make_app, pattern
from vt import wsgi, mp

RULE = ('case = max_body_size x max_memfile_size (given to the constructor or to setup()) x body size placed around both thresholds (below, equal, '
        'above by one, above by a buffer, far above) x framing (Content-Length; chunked with arbitrary chunk sizes) x read fragmentation x content '
        'type (raw, urlencoded, JSON, multipart text fields and file parts) x accessors, in sequence, optionally catching failures; oracle: 413 iff '
        'body > limit, farthest payload byte asked of a recording stream <= limit + buffer, identical content and a regular file descriptor '
        'beyond the threshold, form text beyond the threshold answers 413, traced peak memory independent of the body size. '
        'Non-trivial: the size is within one buffer of a limit or beyond it.')
ASSUMPTIONS = ['one buffer = max_memfile_size; chunk headers are not payload; a chunk header line fits into the buffer',
               'multipart text between "values alone exceed the threshold" (must be 413) and "values and part headers fit" (must be accepted) may go either way',
               'on disk = the body object has a file descriptor of a regular file that holds the whole body']


def gen_chunks(src, n):
    if not n:
        return []
    how = src.below(4)
    if how == 0:
        return [n]
    if how == 1 and n <= 400:
        return [1] * n
    out, rest = [], n
    big = max(1, n // 40)
    while rest:
        k = min(rest, big + src.size(max(1, n // (1 + src.below(6)))))
        out.append(k)
        rest -= k
    return out


def gen(src):
    B = src.pick((6, None), (1, 1024), (1, 8192), (1, 102400)) or 24 + src.size(200)
    M = src.pick((4, 'n'), (1, 'none'), (1, 0), (1, 1), (1, 'B'))
    M = None if M == 'none' else B + src.int(-1, 1) if M == 'B' else 1 + src.size(6 * B) if M == 'n' else M
    base = src.choice([0, B, M or 0, (M or 0) + B, 2 * B, (M or 0) + 2 * B, 3 * B])
    n = max(0, base + src.pick((2, 0), (2, 1), (2, -1), (1, 2), (1, 7)))
    if src.bool(0.08):
        n = (M or B) * 10 + 5
    if src.bool(0.15):
        n = src.size(4 * B)
    chunked = src.bool()
    return dict(B=B, M=M, n=n, chunked=chunked, chunks=gen_chunks(src, n) if chunked else [], seed=src.below(1 << 16), setup=src.bool(0.2),
                plan=src.pick((3, []), (1, [1 + src.size(B)]), (1, [1 + src.size(2 * B), 1 + src.size(9)])) if n < 3000 else [],
                upper=src.bool(0.2), again=src.bool(0.3), catch=src.bool(0.3), ext=src.bool(0.1), te=wsgi.gen_te(src), copy=src.bool(0.1))


def app_for(case):
    cfg = dict(max_memfile_size=case['B'])
    if case['M'] is not None:
        cfg['max_body_size'] = case['M']
    if case['setup']:
        app = make_app()
        app.setup(cfg)
        return app
    return make_app(**cfg)


def frame(case, raw):
    """wire bytes and the stream position of every payload byte's end, as (positions, payload counts)"""
    if not case['chunked']:
        return raw, None
    out, pos, marks = bytearray(), 0, []
    for i, k in enumerate(case['chunks']):
        out += b'%X' % k if case.get('upper') else b'%x' % k
        if case.get('ext') and i % 3 == 0:
            out += b';e=1'
        out += b'\r\n'
        marks.append((len(out), pos))
        out += raw[pos:pos + k] + b'\r\n'
        pos += k
    out += b'0\r\n\r\n'
    return bytes(out), marks


def payload_asked(case, stream, n):
    p = stream.maxpos_asked
    if case['marks'] is None:
        return min(p, n) if p <= n else p
    i = bisect.bisect_right(case['marks'], (p, 1 << 60)) - 1
    if i < 0:
        return 0
    at, pos = case['marks'][i]
    k = case['chunks'][i]
    return pos + min(p - at, k)


def on_disk(b, n):
    """is the body object backed by a regular file holding all of it?"""
    if getattr(b, '_rolled', True) is False:
        return False
    try:
        fd = b.fileno()
    except (OSError, AttributeError, ValueError):
        return False
    getattr(b, 'flush', lambda: None)()
    st = os.fstat(fd)
    return stat.S_ISREG(st.st_mode) and st.st_size == n


def run(case, ctx):
    n, B, M = case['n'], case['B'], case['M']
    app = app_for(case)
    got = []

    @app.route('/', method='ANY')
    def h():
        r = app.request.copy() if case.get('copy') else app.request
        if case['catch']:
            try:
                r.body
            except Exception as e:
                got.append(('caught', getattr(e, 'status_code', None)))
        b = r.body
        got.append((b.read(), on_disk(b, n), b.tell()))
        if case['again']:
            b2 = r.body
            got.append((b2.read(), on_disk(b2, n), b2.tell()))
        return 'ok'
    raw = pattern(case['seed'], n)
    wire, marks = frame(case, raw)
    case = dict(case, marks=marks)
    st = wsgi.Stream(wire + (b'EXTRA' * 40 if not case['chunked'] else b''), case['plan'])
    res = wsgi.call(app, wsgi.environ(wsgi.verb(n, case['plan']), '/', stream=st, clen=None if case['chunked'] else n, chunked=case['chunked'], te=case.get('te'), ctype='application/octet-stream'))
    what = lambda: f'{n} bytes ({"chunks " + repr(case["chunks"][:12]) if case["chunked"] else "Content-Length"}), max_body_size {M}, max_memfile_size {B}'   # noqa
    if M is not None and n > M:
        ctx.check(res.code == 413, lambda: f'answered {res.status} {res.errors[-400:]} for {what()}')
        asked = payload_asked(case, st, n)
        ctx.check(asked <= M + B, lambda: f'{asked} bytes of the body were requested before the 413 for {what()}')
        ctx.check(not st.unbounded, lambda: f'an unbounded read for {what()}')
        if case['catch']:
            ctx.eq(got, [('caught', 413)], 'first attempt to read the body')
        ctx.tag('413-chunked' if case['chunked'] else '413-clen')
        if n == M + 1:
            ctx.tag('above-by-one')
        if case.get('copy'):
            ctx.tag('copy-413')
    else:
        ctx.check(res.code == 200, lambda: f'answered {res.status} {res.errors[-400:]} for {what()}')
        for data, disk, end in got:
            ctx.check(data == raw, lambda: f'the body of {what()} reads as {data[:60]!r}... ({len(data)} bytes)')
            ctx.check(end == n, lambda: f'end position {end} for {what()}')
            if n > B:
                ctx.check(disk, lambda: f'the body of {what()} is not on disk')
        ctx.tag('accepted-chunked' if case['chunked'] else 'accepted-clen')
        if M is not None and n == M:
            ctx.tag('equal')
        if n > B:
            ctx.tag('spooled')
        if n == B + 1:
            ctx.tag('spooled-by-one')
    if M is not None and n > M - B or n > B or abs(n - B) < 3:
        ctx.nontrivial()


# ---- form text against the in-memory threshold
def gen_form(src):
    kind = src.pick((2, 'qs'), (1, 'json'), (4, 'mp'))
    B = 64 + src.size(1000)
    case = dict(copy=src.bool(0.1), B=B, M=None, kind=kind, chunked=src.bool(), te=wsgi.gen_te(src), setup=src.bool(0.2), seed=src.below(1 << 16),
                acc=[src.choice(['forms', 'files', 'POST', 'params', 'body'] + ['json'] * (kind == 'json')) for _ in range(src.count(1, 3, 1.5))], catch=src.bool(0.3), plan=src.pick((3, []), (1, [1 + src.size(B)])))
    if kind != 'mp':
        case['n'] = max(20, src.choice([B, B, 2 * B, 3 * B + 1, 30 * B]) + src.pick((3, 0), (3, 1), (2, -1), (1, -9)))
        case['fields'] = src.below(4)
        case['chunks'] = gen_chunks(src, case['n'])
    else:
        target = src.choice([B, B, B, 2 * B, B // 2]) + src.int(-2, 2)
        parts = []
        for i in range(src.pick((9, src.count(1, 4, 2)), (1, 5 + src.below(40)))):
            parts.append([src.bool(0.4), 0, src.pick((4, 0), (1, 20), (1, 200)), src.pick((6, 0), (1, 30), (1, B // 4), (1, B // 2))])    # is file, size, extra header text, padding of the name
        texts = [p for p in parts if not p[0]]
        mode = src.pick((2, 'values'), (3, 'total'), (2, 'names'))
        case.update(parts=parts, mode=mode)
        for p in parts:
            if p[0]:
                p[1] = src.pick((1, 5), (2, 4 * B), (1, B + 1))
        if texts:
            over = sum(len(head(i, p)) for i, p in enumerate(parts)) if mode == 'total' else sum(len(name(i, p)) for i, p in enumerate(parts) if not p[0]) if mode == 'names' else 0
            rest = max(0, target - over)
            for p in texts[:-1]:
                p[1] = src.below(rest + 1)
                rest -= p[1]
            texts[-1][1] = rest
        case['cut'] = 1 + src.size(3 * B)
    if src.bool(0.2):
        case['M'] = 10 ** 6
    return case


def name(i, p):
    return b'f%d' % i + b'n' * p[3]


def head(i, p):
    h = b'Content-Disposition: form-data; name="%s"' % name(i, p)
    if p[0]:
        h += b'; filename="x%d"' % i
    if p[2]:
        h += b'\r\nX-Extra: ' + b'e' * p[2]
    return h


def letters(seed, n):
    return pattern(seed, (n + 1) // 2).hex()[:n].encode()


def run_form(case, ctx):
    B = case['B']
    app = app_for(case)
    got = []

    def grab(r, a):
        v = getattr(r, a)
        if a == 'body':
            return None
        if a == 'json':
            return v
        for x in v.values():
            if hasattr(x, 'file'):
                x.file.seek(0)
        return {k: x.file.read() if hasattr(x, 'file') else x for k, x in v.items()}

    @app.route('/', method='ANY')
    def h():
        r = app.request.copy() if case.get('copy') else app.request
        for i, a in enumerate(case['acc']):
            try:
                got.append((a, grab(r, a)))
            except Exception as e:
                got.append((a, getattr(e, 'status_code', repr(e))))
                if not case['catch'] or i == len(case['acc']) - 1:
                    raise
        return 'ok'
    kind = case['kind']
    if kind == 'mp':
        datas = [letters(case['seed'] + i, p[1]) for i, p in enumerate(case['parts'])]
        raw = mp.Body('bnd', [(head(i, p), datas[i]) for i, p in enumerate(case['parts'])]).raw
        values = sum(p[1] for p in case['parts'] if not p[0])
        total = values + sum(len(head(i, p)) for i, p in enumerate(case['parts']))
        values += sum(len(name(i, p)) for i, p in enumerate(case['parts']) if not p[0])       # names are text of the form, as in an urlencoded one
        must = 413 if values > B else 200 if total <= B else None
        ctype = 'multipart/form-data; boundary=bnd'
        forms = {name(i, p).decode(): datas[i].decode() for i, p in enumerate(case['parts']) if not p[0]}
        files = {name(i, p).decode(): datas[i] for i, p in enumerate(case['parts']) if p[0]}
        k = case['cut']
        case = dict(case, chunks=[min(k, len(raw) - i) for i in range(0, len(raw), k)])
    else:
        n = case['n']
        if kind == 'json':
            v = letters(case['seed'], n - 8).decode()
            raw = json.dumps({'a': v}, separators=(',', ':')).encode()
            forms = {'a': v}
            ctype = 'application/json'
        else:
            m = case['fields']
            per = (n - 4) // (m + 1)
            fields = [('k%d' % i, letters(case['seed'] + i, max(0, per - 4)).decode()) for i in range(m)]
            text = '&'.join(f'{k}={v}' for k, v in fields)
            text += '&' if fields else ''
            fields.append(('z', letters(case['seed'], n - len(text) - 2).decode()))
            raw = (text + 'z=' + fields[-1][1]).encode()
            forms = dict(fields)
            ctype = 'application/x-www-form-urlencoded'
        files = {}
        assert len(raw) == n, (len(raw), n)
        must = 413 if n > B else 200
    wire, marks = frame(case, raw)
    res = wsgi.call(app, wsgi.environ(wsgi.verb(len(raw), ctype), '/', stream=wsgi.Stream(wire, case['plan']), clen=None if case['chunked'] else len(raw), chunked=case['chunked'], te=case.get('te'), ctype=ctype))
    acc = case['acc']
    what = lambda: f'{kind} body of {len(raw)} bytes, parts (file, size, extra header) {case.get("parts")}, {"chunked" if case["chunked"] else "Content-Length"}, max_memfile_size {B}, accessors {acc}'   # noqa
    for a, v in got:
        if a == 'body':
            continue
        if must == 413 or must is None and v == 413:
            ctx.check(v == 413, lambda: f'{a} gives {v!r} instead of a 413 for {what()}')
        else:
            want = dict(forms=forms, files=files, POST={**forms, **files}, params=forms, json=forms)[a]
            ctx.check(v == want, lambda: f'{a} gives {repr(v)[:300]} for {what()}')
    used = [a for a in acc if a != 'body']
    if not used or must == 200:
        ctx.check(res.code == 200, lambda: f'answered {res.status} {res.errors[-400:]} for {what()}')
    elif must == 413 and acc[-1] != 'body':
        ctx.check(res.code == 413, lambda: f'answered {res.status} {res.errors[-400:]} for {what()}')
    ctx.check(res.code in (200, 413), lambda: f'answered {res.status} for {what()}')
    if used:
        ctx.tag(f'{kind}-{must}')
        if must != 200 or len(raw) > B // 2:
            ctx.nontrivial()
        if kind == 'mp' and must == 200 and len(raw) > B and files:
            ctx.tag('mp-large-file-accepted')


# ---- peak memory while large bodies pass through
class Rope:
    """wsgi.input over (bytes | filler length) segments, without holding the whole"""
    def __init__(self, segs):
        self.segs = segs
        self.i = self.off = 0

    def read(self, n=-1):
        out = []
        while n and self.i < len(self.segs):
            s = self.segs[self.i]
            ln = s if isinstance(s, int) else len(s)
            k = min(n, ln - self.off) if n > 0 else ln - self.off
            out.append(b'x' * k if isinstance(s, int) else s[self.off:self.off + k])
            self.off += k
            n -= k if n > 0 else 0
            if self.off == ln:
                self.i, self.off = self.i + 1, 0
        return b''.join(out)


def gen_mem(src):
    B = src.choice([16384, 65536, 102400])
    return dict(B=B, M=None, setup=False, kind=src.choice(['raw', 'qs', 'json', 'mp-file', 'mp-text', 'mp-head', 'mp-heads', 'mp-fields']), chunked=src.bool(), chunk=src.choice([3000, 65536, 10 ** 6]),
                n=src.choice([2 << 20, 3 << 20, 2500001]), acc=src.choice(['forms', 'POST', 'files']), fill=src.choice(['x', 'crlf']), te=wsgi.gen_te(src))


def run_mem(case, ctx):
    app = app_for(case)
    n, kind = case['n'], case['kind']
    cd = b'Content-Disposition: form-data; name="a"'
    if kind == 'raw':
        segs, ctype = [n], 'application/octet-stream'
    elif kind == 'qs':
        segs, ctype = [b'a=', n], 'application/x-www-form-urlencoded'
    elif kind == 'json':
        segs, ctype = [b'{"a":"', n, b'"}'], 'application/json'
    else:
        mid = [n] if case['fill'] == 'x' else [20000, b'\r\n--bn'] * (n // 20006)
        if kind == 'mp-head':
            mid, cd = [b'v'], cd + b'\r\nX: ' + b'y' * (1 << 19)
        if kind in ('mp-heads', 'mp-fields'):           # many parts, each of them small
            part = b'--bnd\r\n' + cd + (b'\r\nX: ' + b'y' * 16000 if kind == 'mp-heads' else b'') + b'\r\n\r\n' + b'v' * (1 if kind == 'mp-heads' else 16000) + b'\r\n'
            mid = [part[7:-2]] + [b'\r\n' + part[:-2]] * (n // len(part))
            cd, part = b'', b''
            segs = [b'--bnd\r\n'] + mid + [b'\r\n--bnd--\r\n']
        else:
            segs = [b'--bnd\r\n' + cd + (b'; filename="f"' if kind == 'mp-file' else b'') + b'\r\n\r\n'] + mid + [b'\r\n--bnd--\r\n']
        ctype = 'multipart/form-data; boundary=bnd'
    n = sum(s if isinstance(s, int) else len(s) for s in segs)
    if case['chunked']:
        out = []
        for s in segs:
            ln = s if isinstance(s, int) else len(s)
            at = 0
            while at < ln:
                k = min(case['chunk'], ln - at)
                out += [b'%x\r\n' % k, k if isinstance(s, int) else s[at:at + k], b'\r\n']
                at += k
        segs = out + [b'0\r\n\r\n']
    seen = []

    @app.route('/', method='ANY')
    def h():
        r = app.request
        if kind == 'raw':
            b = r.body
        elif kind == 'mp-file':
            d = r.forms if case['acc'] == 'forms' else getattr(r, case['acc'])
            b = r.files['a'].file
            del d
        else:
            getattr(r, case['acc'])
            return 'loaded'
        cnt = 0
        while True:
            c = b.read(4096)
            if not c:
                break
            cnt += len(c)
        seen.append(cnt)
        return 'ok'
    env = wsgi.environ(wsgi.verb(n, ctype), '/', stream=Rope(segs), clen=None if case['chunked'] else n, chunked=case['chunked'], te=case.get('te'), ctype=ctype)
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        res = wsgi.call(app, env)
        peak = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
    limit = 6 * case['B'] + (1 << 19)
    what = lambda: f'{kind} body of {n} bytes, {"chunked" if case["chunked"] else "Content-Length"}, max_memfile_size {case["B"]}'   # noqa
    if kind in ('raw', 'mp-file'):
        ctx.check(res.code == 200, lambda: f'answered {res.status} {res.errors[-400:]} for {what()}')
    else:
        ctx.check(res.code == 413, lambda: f'answered {res.status} {res.errors[-400:]} for {what()}')
    ctx.check(peak < limit, lambda: f'serving {what()} took {peak} bytes of memory at a time (bound used: {limit})')
    ctx.tag(kind)
    ctx.tag('peak<%d%%' % (10 * (1 + 10 * peak // limit)))
    ctx.nontrivial()


def legs(tier):
    return [
        Leg('limits', run, gen=gen, quick=45000, thorough=900000, shards=4, hyp=300,
            need=('413-chunked', '413-clen', 'accepted-chunked', 'accepted-clen', 'equal', 'above-by-one', 'spooled', 'spooled-by-one', 'copy-413')),
        Leg('form-text', run_form, gen=gen_form, quick=22500, thorough=500000, shards=3, hyp=200,
            need=('qs-413', 'qs-200', 'json-413', 'json-200', 'mp-413', 'mp-200', 'mp-None', 'mp-large-file-accepted')),
        Leg('memory', run_mem, gen=gen_mem, quick=80, thorough=1500, shards=3, hyp=0, need=('raw', 'qs', 'json', 'mp-file', 'mp-text', 'mp-head', 'mp-heads', 'mp-fields')),
    ]
