"""C04 - Content-Length bodies arrive byte-exact under any read fragmentation."""
from vt.core import Leg
from vt.app import pattern, make_app
from vt import wsgi, faults

RULE = ('case = data the stream can deliver x Content-Length (absent, 0, below, equal, above) x max_memfile_size (= buffer size and '
        'spill threshold) x fragmentation plan of the stream (full answers, cycled short answers) x content type x way of reading the '
        'body (raw bytes, or forms and documents of each kind, also after a parsed view of them was read); the handler must see data[:Content-Length] each time and the stream must never be asked beyond Content-Length. '
        'Non-trivial: the body is not empty and either a read is answered short, the body spans several buffers, or data and '
        'Content-Length differ.')
ASSUMPTIONS = [
    'a stream answers b"" only at its end',
    'without a usable Content-Length the body is empty and nothing is read',
    'the stream is read through one request object: a copy of the request taken before the body was read shares the raw stream and is not covered',
]

CTYPES = [None, 'text/plain', 'application/octet-stream', 'application/x-www-form-urlencoded', 'application/json',
          'multipart/form-data; boundary=x', 'multipart/form-data']
MODES = ['read', 'twice', 'pieces', 'iter', 'input', 'seek', 'copy', 'interleave']


# bodies which mean something, of various sizes: (kind, number, text behind) -> bytes
FORMS = ['multipart', 'mp-file', 'mp-broken', 'urlencoded', 'json', 'chunk-like']
FIRST = [None, None, 'POST', 'forms', 'files', 'json', 'params', 'content_length', 'chunked']
TAILS = [b'', b'\r\n', b'\r\nepilogue', b'\r\n--x\r\nno part\r\n\r\nof it', b'\r\n' * 40, b'--x--\r\n', b'\r\n\r\n{}', b'x']


def meaningful(kind, seed, n, tail):
    pad = pattern(seed, n)
    if kind in ('multipart', 'mp-file', 'mp-broken'):
        parts = [b'Content-Disposition: form-data; name="a"\r\n\r\nvalue', b'Content-Disposition: form-data; name="%b"\r\n\r\n%b' % (b'b', pad.hex().encode())]
        if kind == 'mp-file':
            parts.append(b'Content-Disposition: form-data; name="f"; filename="f.bin"\r\nContent-Type: x/y\r\n\r\n' + pad)
        if kind == 'mp-broken':
            parts.insert(1, b'no header here\r\n' + pad.hex().encode())
        return b''.join(b'--x\r\n%b\r\n' % p for p in parts) + b'--x--' + tail, 'multipart/form-data; boundary=x'
    if kind == 'urlencoded':
        return b'a=1&b=' + pad.hex().encode() + b'&c=%20+' + tail, 'application/x-www-form-urlencoded'
    if kind == 'json':
        return b'{"a": "' + pad.hex().encode() + b'"}' + tail, 'application/json'
    return b'%x\r\n%b\r\n0\r\n\r\n' % (len(pad), pad) + tail, 'application/octet-stream'


# none of them makes the request a chunked one
HDRS = [('Transfer-Encoding', ''), ('Transfer-Encoding', 'identity '), ('Transfer-Encoding', 'gzip'), ('Transfer-Encoding', 'x'), ('Transfer-Encoding', 'identity'), ('Transfer-Encoding', 'Identity'), ('TE', 'chunked'), ('X-Chunked', 'chunked'),
        ('Content-Encoding', 'gzip'), ('Connection', 'close'), ('Expect', '100-continue'), ('Trailer', 'chunked'), ('Range', 'bytes=0-3'), ('X-Content-Length', '1'),
        ('X-Transfer-Encoding', 'chunked'), ('Transfer-Encoding-X', 'chunked'), ('Upgrade', 'chunked'), ('Accept-Encoding', 'chunked')]


def gen_plan(src, hi):
    return src.pick((2, []), (2, [1]), (6, None)) if src.bool(0.5) else [1 + src.size(hi) for _ in range(src.count(1, 6, 2))]


def gen(src):
    big = src.bool(0.02)
    memfile = src.pick((1, 1), (1, 2), (1, 3), (3, None), (1, 64), (1, 1024)) if not big else src.choice([1000, 65536, None])
    if memfile is None:
        memfile = 1 + src.size(200) if not big else 102400
    if big:
        n = max(0, memfile + src.int(-2, 3) + src.choice([0, 0, memfile, 2 * memfile]))
    else:
        n = src.pick((3, None), (1, memfile), (1, memfile + 1), (1, max(0, memfile - 1)), (1, 2 * memfile), (1, 2 * memfile + 1), (1, 3 * memfile))
        if n is None:
            n = src.size(300)
    n = min(n, 400000)
    clen = src.pick((6, 'eq'), (3, 'below'), (3, 'above'), (1, 'none'), (1, 'zero'), (1, 'blank'), (1, 'plus1'), (1, 'minus1'))
    clen = dict(eq=n, zero=0, none=None, blank='', plus1=n + 1, minus1=max(0, n - 1)).get(clen, clen)
    if clen == 'below':
        clen = src.int(0, n)
    elif clen == 'above':
        clen = n + 1 + src.size(300)
    plan = gen_plan(src, max(4, 2 * memfile) if not big else 70000)
    if plan is None:
        plan = [1 + src.size(2 * memfile + 2) for _ in range(src.count(1, 6, 2))]
    if big and plan and min(plan) < 500:
        plan = [max(500, p) for p in plan]
    return dict(seed=src.below(8), n=n, clen=clen, memfile=memfile, plan=plan, ctype=src.choice(CTYPES), mode=src.choice(MODES),
                zlead=src.bool(0.1), headers=dict([src.choice(HDRS)]) if src.bool(0.25) else {},
                method=src.pick((4, 'POST'), (1, 'PUT'), (1, 'PATCH'), (1, 'DELETE'), (1, 'GET'), (1, 'QUERY')), where=src.pick((4, 'handler'), (1, 'before'), (1, 'after'), (1, 'both'), (1, '404'), (1, 'error')))


def gen_forms(src):
    case = gen(src)
    kind, tail = src.choice(FORMS), src.choice(TAILS)
    k = src.pick((2, 0), (3, src.below(40)), (1, src.below(400)))
    n = len(meaningful(kind, case['seed'], k, tail)[0])
    case['clen'] = src.pick((8, n), (1, n - 1), (1, n - len(tail)), (1, n + 2), (1, n // 2))
    if src.bool(0.5):
        case['memfile'] = src.choice([5, 16, 32, 64, 128, 200, 1000])
    if src.bool(0.1):
        case['ctype'] = src.choice(CTYPES)
    else:
        case['ctype'] = None
    return dict(case, n=k, kind=kind, tail=tail, first=src.choice(FIRST), where='handler')


def gen_scale(src):
    """very many reads, very large bodies"""
    if src.bool():
        n, step, memfile = src.pick((2, src.int(900, 1100)), (2, src.int(4000, 5000)), (1, src.int(30000, 35000))), src.int(1, 3), src.choice([8, 1000, 4096, 102400])
        plan = src.pick((2, [step]), (1, [1, 2, 3]), (1, []))
        if not plan:
            memfile = src.choice([1, 2, 3])
    else:
        n, memfile = src.choice([65536, 131072, 1 << 20, 3 << 20]) + src.int(-1, 2), src.choice([1000, 65536, 102400, 1 << 20])
        plan = src.pick((2, []), (1, [65536]), (1, [8192, 1]), (1, [1460]))
    clen = src.pick((4, n), (1, n - 1), (1, n // 2), (1, n + 1), (1, n + 100000))
    return dict(seed=src.below(8), n=n, clen=clen, memfile=memfile, plan=plan, ctype=src.choice(CTYPES), mode=src.choice(MODES), zlead=False)


def gen_faults(src):
    case = gen_forms(src) if src.bool(0.5) else gen(src)
    for k in ('mode', 'where', 'first', 'headers', 'method', 'zlead'):
        case.pop(k, None)
    case['memfile'] = src.pick((2, 1), (2, 5), (2, 16), (2, 100), (1, 1000))
    if not case['plan'] or min(case['plan']) < 1 + case['n'] // 300:
        case['plan'] = [1 + case['n'] // 300 + src.below(8), 1 + case['n'] // 100]
    # a guess at how many reads the body takes
    calls = 1 + case['n'] // max(1, min(case['memfile'], case['plan'][0]))
    return dict(case, faults=faults.gen_faults(src, calls), looks=faults.gen_looks(src), crash=src.bool(0.3), spool=src.pick((8, 0), (1, 1), (1, 2)))


def run_faults(case, ctx):
    data, ctype = pattern(case['seed'], case['n']), case['ctype']
    if 'kind' in case:
        data, ct = meaningful(case['kind'], case['seed'], case['n'], case['tail'])
        ctype = ctype or ct
    clen = case['clen']
    L = int(clen) if clen not in (None, '') else 0
    env = dict(ctype=ctype, clen=None if clen is None else str(clen))
    faults.drive(case, ctx, faults.Faulty(data, case['plan'], case['faults']), env, data[:L], faults.whole(case, data, env), bound=L)


def run(case, ctx):
    data, ctype = pattern(case['seed'], case['n']), case['ctype']
    if 'kind' in case:
        data, ct = meaningful(case['kind'], case['seed'], case['n'], case['tail'])
        ctype = ctype or ct
        ctx.tag(case['kind'])
        if case['first']:
            ctx.tag('after-' + case['first'])
        if case['tail'].strip() and 'multipart' in ctype:
            ctx.tag('epilogue')
    app = make_app(max_memfile_size=case['memfile'])
    seen = {}
    clen = case['clen']
    L = int(clen) if clen not in (None, '') else 0
    want = data[:L]
    mode = case['mode']

    where, method = case.get('where', 'handler'), case.get('method', 'POST')

    def h():
        r = app.request
        if case.get('first'):
            try:
                getattr(r, case['first'])
            except Exception:            # what these make of it is another matter
                ctx.tag('first-refused')
        if mode == 'read':
            seen['b'] = [r.body.read()]
        elif mode == 'twice':
            seen['b'] = [r.body.read(), r.body.read()]
        elif mode == 'pieces':
            f = r.body
            out = []
            while True:
                c = f.read(7 if len(want) < 2000 else 5000)
                if not c:
                    break
                out.append(c)
            seen['b'] = [b''.join(out), r.body.read()]
        elif mode == 'iter':
            seen['b'] = [b''.join(r.body)]
        elif mode == 'input':
            r.body
            seen['b'] = [r.environ['wsgi.input'].read(), r.body.read()]
        elif mode == 'seek':
            f = r.body
            f.read(3)
            f.seek(0)
            seen['b'] = [f.read()]
            seen['tail'] = (f.seek(len(want) // 2), f.read())[1]
        elif mode == 'copy':
            b = r.body.read()
            c = r.copy()
            seen['b'] = [b, c.body.read(), r.body.read()]
        else:
            r.body.read(2)
            seen['b'] = [r.body.read(), r.body.read()]
        return 'ok'

    def boom():
        raise KeyError('x')

    if where in ('before', 'both'):
        app.add_hook('before_request', h)
    if where == 'after':
        app.add_hook('after_request', h)
    if where == '404':
        app.error(404)(lambda res: h())
    elif where == 'error':
        app.route('/', method='ANY')(boom)
        app.error(500)(lambda res: h())
    else:
        app.route('/', method='ANY')(h if where in ('handler', 'both') else (lambda: 'ok'))
    if where != 'handler':
        ctx.tag('where-' + where)
    if case.get('headers'):
        ctx.tag('headers')

    st = wsgi.Stream(data, case['plan'])
    cl = None if clen is None else ('0' * 3 + str(clen) if case['zlead'] and clen != '' else str(clen))
    res = wsgi.call(app, wsgi.environ(method, '/', stream=st, ctype=ctype, clen=cl, headers=case.get('headers')))
    ctx.check('b' in seen and res.code == {'404': 404, 'error': 500}.get(where, 200), lambda: f'{res!r} {res.errors[-800:]}')
    for i, b in enumerate(seen['b']):
        if b != want:
            k = next((i for i, (x, y) in enumerate(zip(b, want)) if x != y), min(len(b), len(want)))
            ctx.fail(f'access {i} ({mode}): body has {len(b)} bytes, expected the first {len(want)} of the stream; differs at byte {k} '
                     f'(Content-Length {clen!r}, {len(data)} available, buffer {case["memfile"]}, plan {case["plan"][:8]})')
    if 'tail' in seen:
        ctx.check(seen['tail'] == want[len(want) // 2:], 'seek() into the body and read')
    ctx.check(st.maxpos_asked <= L, lambda: f'the stream was asked for bytes up to {st.maxpos_asked}, Content-Length is {L}')
    ctx.check(not st.unbounded, 'the stream was read without a limit')
    short_reads = bool(case['plan']) and min(case['plan']) < min(case['memfile'], max(1, len(want)))
    if want and short_reads:
        ctx.tag('short-reads')
    if len(want) > case['memfile']:
        ctx.tag('spilled')
        if short_reads:
            ctx.tag('spilled-short')
    elif want:
        ctx.tag('in-memory')
    if len(want) == case['memfile']:
        ctx.tag('at-threshold')
    if L > len(data):
        ctx.tag('eof')
    if L < len(data):
        ctx.tag('more-available')
    if want and (short_reads or len(want) > case['memfile'] or L != len(data)):
        ctx.nontrivial()


def enum(tier):
    hi = 7 if tier == 'quick' else 9
    plans = [[], [1], [2], [3], [1, 2], [2, 1], [3, 1], [5]]
    for n in range(hi):
        for clen in range(hi + 1):
            for mem in range(1, hi):
                for plan in plans:
                    for mode in ('read', 'twice'):
                        yield dict(seed=1, n=n, clen=clen, memfile=mem, plan=plan, ctype=None, mode=mode, zlead=False)


def legs(tier):
    return [
        Leg('bodies', run, gen=gen, quick=120000, thorough=800000, shards=6, hyp=300, fuzz=20000,
            need=('short-reads', 'spilled', 'spilled-short', 'in-memory', 'at-threshold', 'eof', 'more-available', 'headers', 'where-before', 'where-after', 'where-both', 'where-404', 'where-error')),
        Leg('forms', run, gen=gen_forms, quick=40000, thorough=300000, shards=3, hyp=100,
            need=('short-reads', 'spilled', 'in-memory', 'epilogue', 'eof', 'more-available', 'first-refused') + tuple(FORMS) + tuple('after-' + f for f in FIRST if f)),
        Leg('faults', run_faults, gen=gen_faults, quick=30000, thorough=300000, shards=3, hyp=100, need=('failed-midway', 'failed-at-once', 'no-spool', 'halt', 'again')),
        Leg('scale', run, gen=gen_scale, quick=160, thorough=4000, shards=4, hyp=0, cpu=60.0, need=('short-reads', 'spilled', 'in-memory', 'eof', 'more-available')),
        Leg('small-scope', run, enum=enum, quick=0, thorough=0, shards=2, tshards=2, need=('short-reads', 'spilled', 'eof')),
    ]
