"""C06 - multipart parsing is independent of how the body is split into reads."""
from vt.core import Leg
from vt.app import make_app, pattern
from vt import wsgi, mp

RULE = ('case = a well-formed multipart/form-data body (legal boundary, 0..n parts, header blocks, data rich in CR, LF, dashes and partial '
        'delimiters, with or without epilogue), or a prefix of one, x divisions into consecutive chunks: every single cut, every double cut '
        '(short bodies; all pairs of interesting positions otherwise), every regular chunk size and sampled divisions; each must give the '
        'sections and the kind of error of the one-piece parse, and the one-piece parse must give the ranges the encoder wrote. The same '
        'through WSGI with short reads and chunk framing. Non-trivial: the body has at least one complete part.')
ASSUMPTIONS = ['errors are compared by type', 'bodies damaged by one byte edit are compared between divisions only (no expectation on the result)']


def gen_head(src, i, kind=None):
    name = src.choice(['a', 'n%d' % i, 'é', 'x;y', ''])
    fn = src.pick((1, None), (1, 'f.bin'), (1, '')) if kind is None else ('f' if kind else None)
    disp = 'Content-Disposition: form-data; name="%s"' % name + ('' if fn is None else '; filename="%s"' % fn)
    lines = [disp]
    if src.bool(0.4):
        lines.append(src.choice(['Content-Type: text/plain', 'Content-Type: application/octet-stream; x=y', 'X: -', 'X-A: --b', 'A:']))
        if src.bool(0.3):
            lines.reverse()
    return '\r\n'.join(lines).encode(), name, fn


def gen_short_head(src, i):
    # any header block is a header block for the markup
    return src.choice([b'A: b', b'C:', b'a', b'-', b'--', b'a\r\nb', b'Content-Disposition: form-data; name="a"', b'x: \xff', b'a: -\r\nb: --'])


def gen_body(src, nparts, hi, short):
    boundary = mp.gen_boundary(src) if not short or src.bool(0.3) else src.choice(['x', '-', 'ab', '--', 'b1', "a b"])
    n = src.count(0, nparts, 2)
    parts = []
    for i in range(n):
        head = gen_short_head(src, i) if short else gen_head(src, i)[0]
        parts.append((head, mp.gen_data(src, boundary, hi, 4 if short else 8)))
    lead = src.pick((8, b''), (1, b'\r\n'))
    tok = b'\r\n--' + boundary.encode()
    tail = src.pick((3, b'\r\n'), (3, b''), (1, b'\r'), (1, b'x'), (1, b'\r\nepilogue\r\n'), (1, tok), (1, tok + b'\r\nA: b\r\n\r\nc' + tok + b'--'), (1, b'-'),
                    (1, b'--'), (1, b'\r\n\r\n'))
    return boundary, mp.Body(boundary, parts, lead, tail), parts


def parse(boundary, chunks):
    from ombott.request_pkg.multipart import MultipartMarkup
    m = MultipartMarkup(boundary)
    for c in chunks:
        m.parse(c)
    return [(n, tuple(r)) for n, r in m.markups], type(m.error).__name__


def sections(markups):
    out = list(markups)
    while out and out[0][0] == 'data':
        out.pop(0)
    return out


def cut(raw, cuts):
    out, p = [], 0
    for c in cuts:
        if c > p:
            out.append(raw[p:c])
            p = c
    if p < len(raw):
        out.append(raw[p:])
    return out


def interesting(raw, boundary, marks):
    pos = set()
    tl = len(boundary) + 4
    for m in marks:
        for d in list(range(-5, 6)) + list(range(tl - 6, tl + 6)):
            if 0 < m + d < len(raw):
                pos.add(m + d)
    return sorted(pos)


def compare(raw, boundary, marks, ctx, extra=(), doubles=True):
    base = parse(boundary, [raw] if raw else [])
    n = len(raw)

    def one(cuts):
        got = parse(boundary, cut(raw, cuts))
        if got != base:
            ctx.fail(f'boundary {boundary!r}, body {raw!r}: cut at {list(cuts)[:40]} gives {got}, in one piece it gives {base}')
    for c in range(1, n):
        one((c,))
    for k in range(1, min(n, 400)):
        one(range(k, n, k))
    ctx.tag('divisions', 2 * n)
    if doubles:
        pos = range(1, n) if n <= 75 else interesting(raw, boundary, marks)[:110]
        pos = list(pos)
        for i, a in enumerate(pos):
            for b in pos[i + 1:]:
                one((a, b))
        ctx.tag('divisions', len(pos) ** 2 // 2)
        if n <= 75:
            ctx.tag('all-double-cuts')
    for cuts in extra:
        one(cuts)
    return base


def expect(base, body, ctx, boundary):
    got = [r for _, r in sections(base[0])]
    names = [n for n, _ in sections(base[0])]
    want = []
    for h0, h1, d0, d1, _ in body.ranges:
        want += [(h0, h1), (d0, d1)]
    if base[1] != 'NoneType' or got != want or names != ['headers', 'data'] * len(body.ranges):
        ctx.fail(f'boundary {boundary!r}, body {body.raw!r}: sections {base}, the encoder wrote {want}')


def gen(src):
    short = src.bool(0.7)
    boundary, body, parts = gen_body(src, 4, 12 if short else 30, short)
    raw = body.raw
    n = len(raw)
    extra = [sorted({1 + src.below(max(1, n - 1)) for _ in range(src.count(2, 12, 5))}) for _ in range(10)]
    return dict(boundary=boundary, parts=[list(p) for p in parts], lead=raw[:2] if raw[:2] == b'\r\n' else b'', tail=raw[body.closed:], extra=extra)


def rebuild(case):
    return mp.Body(case['boundary'], [tuple(p) for p in case['parts']], case['lead'], case['tail'])


def run(case, ctx):
    body = rebuild(case)
    marks = body.delims + [body.close] + [x for r in body.ranges for x in r]
    base = compare(body.raw, case['boundary'], marks, ctx, case['extra'])
    expect(base, body, ctx, case['boundary'])
    ctx.tag('epilogue' if len(case['tail']) > 2 else 'no-epilogue')
    if case['parts']:
        ctx.nontrivial()
        ctx.tag('parts')


# --- prefixes
def gen_prefix(src):
    boundary, body, parts = gen_body(src, 3, 8, src.bool(0.8))
    return dict(boundary=boundary, parts=[list(p) for p in parts], lead=body.raw[:2] if body.raw[:2] == b'\r\n' else b'', tail=body.raw[body.closed:],
                full=src.bool(0.25))


def run_prefix(case, ctx):
    body = rebuild(case)
    raw, boundary = body.raw, case['boundary']
    marks = body.delims + [body.close] + [x for r in body.ranges for x in r]
    want_pos = interesting(raw, boundary, marks)
    ks = range(len(raw)) if case['full'] and len(raw) < 150 else want_pos[:60]
    for k in ks:
        base = compare(raw[:k], boundary, marks, ctx, doubles=False)
        # sections of a prefix are the first sections of the body
        allsec = [x for h0, h1, d0, d1, e in body.ranges for x in ((h0, h1), (d0, d1))]
        got = [r for _, r in sections(base[0])]
        if got != allsec[:len(got)]:
            ctx.fail(f'boundary {boundary!r}, prefix {raw[:k]!r}: {base}; the sections of the body are {allsec}')
        ctx.tag('prefix')
    if case['parts']:
        ctx.nontrivial()


# --- one edit
def gen_damaged(src):
    c = gen_prefix(src)
    raw = rebuild(c).raw
    i = src.below(len(raw))
    op = src.choice(['set', 'del', 'ins'])
    v = src.pick((2, 13), (2, 10), (2, 45), (1, 32), (1, 0x78), (1, 9))
    b = bytearray(raw)
    if op == 'set':
        b[i] = v
    elif op == 'del':
        del b[i]
    else:
        b.insert(i, v)
    return dict(boundary=c['boundary'], raw=bytes(b))


def run_damaged(case, ctx):
    base = compare(case['raw'], case['boundary'], (), ctx, doubles=False)
    ctx.tag('damaged-' + ('ok' if base[1] == 'NoneType' else 'error'))
    ctx.nontrivial()


# --- large bodies: long header blocks, long data, many parts
def gen_scale(src):
    boundary = mp.gen_boundary(src)
    kind = src.pick((3, 'head'), (3, 'data'), (3, 'many'))
    parts = []
    if kind == 'head':
        for _ in range(src.int(1, 3)):
            k = src.choice([200, 1000, 1024, 4096, 8192, 20000, 70000]) + src.int(-40, 40)
            fill = src.choice([b'x', b'-', b'\r\nX: y', b'\r', b'\n', b'--' + boundary.encode(), b'ab '])
            parts.append((b'Content-Disposition: form-data; name="a"\r\nX-Long: ' + (fill * (k // len(fill) + 1))[:k] + b'.', mp.gen_data(src, boundary, 10, 3)))
    elif kind == 'data':
        for _ in range(src.int(1, 3)):
            unit = mp.gen_data(src, boundary, 30, 10) or b'x'
            k = src.choice([1000, 4096, 65536, 200000]) + src.int(-40, 40)
            d = unit * (k // len(unit) + 1)
            d = d[:k]
            parts.append((b'Content-Disposition: form-data; name="a"', d if mp.delimiter_safe(d, boundary) else pattern(3, k)))
    else:
        for i in range(src.pick((2, src.int(30, 120)), (2, src.int(250, 262)), (1, src.int(1000, 1030)))):
            parts.append((b'A: %d' % i, b'd' * (i % 5)))
    raw_len = sum(len(h) + len(d) + len(boundary) + 10 for h, d in parts)
    sizes = src.list(lambda: max(src.choice([1, 2, 7, 64, 1000, 1024, 4096, 8192, 65536, 102400]) + src.pick((2, 0), (1, src.below(5))), raw_len // 20000), 3, 5, 4)
    return dict(boundary=boundary, parts=[list(p) for p in parts], lead=b'', tail=src.choice([b'\r\n', b'', b'\r\nepilogue']), sizes=sizes, keep=src.pick((4, None), (1, src.below(1 << 20))),
                shifts=[src.below(1 << 20) for _ in range(4)])


def run_scale(case, ctx):
    body = rebuild(case)
    raw, boundary = body.raw, case['boundary']
    if case['keep'] is not None:
        raw = raw[:case['keep'] % len(raw)]
    base = parse(boundary, [raw])
    if case['keep'] is None:
        expect(base, body, ctx, boundary)
    marks = body.delims + [body.close] + [x for r in body.ranges for x in r]
    near = [p for p in interesting(raw, boundary, marks)]
    step = max(1, len(near) * max(1, len(raw) // 20000) // 150)
    divs = [range(k, len(raw), k) for k in case['sizes']] + [range(1 + s % k, len(raw), k) for k, s in zip(case['sizes'], case['shifts'])]
    divs += [(c,) for c in near[case['shifts'][0] % step::step]]
    for cuts in divs:
        got = parse(boundary, cut(raw, cuts))
        if got != base:
            ctx.fail(f'boundary {boundary!r}, body of {len(raw)} bytes {raw[:200]!r}...: cut at {list(cuts)[:10]}... gives {str(got)[:300]}, in one piece it gives {str(base)[:300]}')
    ctx.tag('divisions', len(divs))
    ctx.tag('parts', len(case['parts']))
    ctx.nontrivial()


# --- through WSGI
def gen_wsgi(src):
    boundary = mp.gen_boundary(src)
    fields = []
    for i in range(src.count(1, 5, 2)):
        isfile = src.bool(0.6)
        head, name, fn = gen_head(src, i, isfile)
        data = mp.gen_data(src, boundary, 60, 10) if isfile else src.choice([b'', b'v', 'é\r\n-'.encode(), b'\r\n--'])
        if not mp.delimiter_safe(data, boundary):
            data = b'v'
        fields.append([head, data, isfile, name])
    tail = src.choice([b'', b'\r\n', b'\r\nepilogue--\r\n'])
    k = src.pick((4, None), (1, 0)) if src.bool(0.8) else src.below(4096)
    return dict(boundary=boundary, fields=fields, tail=tail, chunked=src.bool(0.4), te=wsgi.gen_te(src), keep=k, lead=src.pick((8, b''), (1, b'\r\n')),
                plan=src.pick((1, [1]), (1, [2, 3]), (6, [1 + src.size(120) for _ in range(src.count(1, 6, 3))])), quoted=src.bool(0.3))


def serve(raw, case, plan, chunks, memfile):
    app = make_app(max_memfile_size=memfile)
    seen = {}

    @app.route('/', method='POST')
    def h():
        r = app.request
        items = []
        for k, v in r.forms.items():
            items += [('text', k, x) for x in (v if isinstance(v, list) else [v])]
        for k, v in r.files.items():
            items += [('file', k, x.file.read()) for x in (v if isinstance(v, list) else [v])]
        seen['items'] = items
        return 'ok'
    data = raw
    if chunks is not None:
        data, p = b'', 0
        for n in chunks:
            c = raw[p:p + n]
            if c:
                data += b'%x\r\n%b\r\n' % (len(c), c)
            p += n
        if raw[p:]:
            data += b'%x\r\n%b\r\n' % (len(raw) - p, raw[p:])
        data += b'0\r\n\r\n'
    st = wsgi.Stream(data, plan)
    res = wsgi.call(app, wsgi.environ('POST', '/', stream=st, ctype=mp.content_type(case['boundary'], case['quoted']),
                                      chunked=chunks is not None, clen=None if chunks is not None else len(raw), te=case.get('te')))
    return res.code, seen.get('items'), res


def run_wsgi(case, ctx):
    body = mp.Body(case['boundary'], [(h, d) for h, d, _, _ in case['fields']], case['lead'], case['tail'])
    raw = body.raw
    if case['keep'] is not None:
        raw = raw[:len(raw) - 1 - case['keep'] % len(raw)] if case['keep'] else raw[:-1]
        ctx.tag('wsgi-prefix')
    budget = sum(len(h) + (0 if f else len(d)) for h, d, f, _ in case['fields'])
    a = serve(raw, case, [], None, len(raw) + 10)
    memfile = max(budget, 1)
    if case['chunked']:
        chunks = (case['plan'] * len(raw))[:len(raw)]
        b = serve(raw, case, [], chunks, max(memfile, 8))
    else:
        b = serve(raw, case, case['plan'], None, memfile)
    if a[:2] != b[:2]:
        ctx.fail(f'boundary {case["boundary"]!r} body {raw!r} {case["plan"]} chunked={case["chunked"]} buffer {memfile}: {b[:2]}, in one read {a[:2]}; '
                 f'{b[2]!r} {b[2].errors[-300:]}')
    ctx.check(a[0] < 500, lambda: f'{a[2]!r}')
    if case['keep'] is None:
        ctx.check(a[0] == 200, lambda: f'well-formed body answered {a[2]!r}: {raw!r}')
        ctx.tag('wsgi-full')
        want = sorted((('file' if f else 'text', n, d if f else d.decode()) for _, d, f, n in case['fields']), key=repr)
        ctx.eq(sorted(a[1], key=repr), want, f'fields of {raw!r}')
    ctx.nontrivial()


def legs(tier):
    return [
        Leg('divisions', run, gen=gen, quick=900, thorough=20000, shards=4, hyp=20, hyp_thorough=100, fuzz=300,
            need=('parts', 'epilogue', 'no-epilogue', 'all-double-cuts')),
        Leg('prefixes', run_prefix, gen=gen_prefix, quick=500, thorough=12000, shards=2, hyp=0, need=('prefix',)),
        Leg('damaged', run_damaged, gen=gen_damaged, quick=3000, thorough=80000, shards=2, hyp=0, need=('damaged-ok', 'damaged-error')),
        Leg('scale', run_scale, gen=gen_scale, quick=200, thorough=5000, shards=4, hyp=0, cpu=60.0, need=('parts', 'divisions')),
        Leg('wsgi', run_wsgi, gen=gen_wsgi, quick=8000, thorough=200000, shards=2, hyp=100, fuzz=10000, need=('wsgi-full', 'wsgi-prefix')),
    ]
