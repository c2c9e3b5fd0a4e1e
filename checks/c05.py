"""C05 - chunked transfer decoding is exact and rejects every truncation."""
import re

from vt.core import Leg
from vt.app import pattern, make_app
from vt import wsgi, faults

RULE = ('case = a chunked encoding (payload, partition into chunks, spelling of each size line: letter case, leading zeros, extensions; '
        'zero chunk, trailers, surplus bytes) x buffer size >= longest size line x fragmentation plan x damage (none, every strict '
        'prefix, one or two bytes replaced/inserted/deleted anywhere in the framing, a CRLF after chunk data broken, a size changed). '
        'A strict reference decoder classifies the bytes sent: legal (exact payload required), truncated or data not followed by CRLF '
        '(4xx required), other framing garbage (any 4xx or acceptance). Non-trivial: at least one non-empty chunk or a damaged encoding.')
ASSUMPTIONS = [
    'a size line (with extension and CRLF) longer than the buffer may be refused: the scan is bounded by the buffer size by design',
    'the terminating zero-size line completes the body; what follows it (trailers, surplus) is not examined',
    'blanks around the size and control characters in extensions are not legal: either acceptance with the exact payload or 4xx',
]

EXTS = ['', '', '', ';a', ';a=b', ';a="q;r"', ';' + 'x' * 20, '; a = b', ';a;b;c=1', ';\t', ';é', ';f', ';0', ';a=\r', ';\nb', ';\r\r']
TAILS = [b'', b'\r\n', b'X-T: 1\r\n\r\n', b'A: 1\r\nB: 2\r\n\r\n', b'5\r\nhello\r\n0\r\n\r\n', b'\x00\xff junk']


def spell_size(n, style):
    s = '%x' % n
    if style & 1:
        s = s.upper()
    return '0' * ZEROS[(style >> 1) % len(ZEROS)] + s


ZEROS = [0, 1, 2, 3, 0, 7, 8, 20]


def encode(sizes, styles, exts, zero, zext, tail, seed):
    data = pattern(seed, sum(sizes))
    out, pos, payload_marks = [], 0, []
    maxline = 0
    for i, n in enumerate(sizes):
        line = (spell_size(n, styles[i % len(styles)]) + exts[i % len(exts)]).encode('latin1') + b'\r\n'
        maxline = max(maxline, len(line))
        out += [line, data[pos:pos + n], b'\r\n']
        pos += n
    line = ('0' * zero + zext).encode('latin1') + b'\r\n'
    maxline = max(maxline, len(line))
    out += [line, tail]
    return out, data, maxline


def reference(raw, maxline):
    """('ok', payload, lenient) | ('bad', why) | ('any', why)"""
    pos, out, lenient = 0, [], False
    while True:
        i = raw.find(b'\r\n', pos)
        if i < 0:
            return 'bad', 'ends inside a size line'
        line = raw[pos:i]
        if len(line) + 2 > maxline:
            return 'any', 'size line longer than the buffer'
        size, _, ext = line.partition(b';')
        if not re.fullmatch(rb'[0-9A-Fa-f]+', size):
            if re.fullmatch(rb'[0-9A-Fa-f]+[ \t]+', size) and _:
                pass                                      # blanks in front of an extension are legal (RFC 9112 7.1.1)
            elif re.fullmatch(rb'[ \t]*[0-9A-Fa-f]+[ \t]*', size):
                lenient = True
            elif b'0' not in raw[pos:]:
                return 'bad', 'has no terminating zero-size chunk (and a line which is no size)'
            else:
                return 'any', 'not a size'
        if re.search(rb'[\x00-\x08\x0a-\x1f\x7f]', ext):
            lenient = True
        n = int(size, 16)
        pos = i + 2
        if n == 0:
            return 'ok', b''.join(out), lenient
        if len(raw) < pos + n + 2:
            # data missing, or the CRLF after it incomplete / wrong
            return 'bad', 'ends inside a chunk'
        if raw[pos + n:pos + n + 2] != b'\r\n':
            return 'bad', 'chunk data not followed by CRLF'
        out.append(raw[pos:pos + n])
        pos += n + 2


def gen(src):
    big = src.bool(0.02)
    if big:
        sizes = [src.choice([1, 1000, 4096, 70000, 102400, 102401]) for _ in range(src.count(1, 3, 2))]
        memfile = src.choice([1000, 65536, 102400])
    else:
        sizes = [src.pick((2, 1), (2, 2), (6, None)) for _ in range(src.count(0, 6, 2.5))]
        sizes = [1 + src.size(60) if s is None else s for s in sizes]
        memfile = None
    styles = [src.pick((3, src.below(8)), (1, src.below(16))) for _ in range(src.count(1, 3, 2))]
    exts = [src.choice(EXTS) for _ in range(src.count(1, 3, 2))]
    zero = src.pick((6, 1), (1, 2), (1, 4), (1, 9), (1, 30))
    zext = src.pick((4, ''), (1, ';a'), (1, ';b=c'))
    tail = src.choice(TAILS)
    seed = src.below(4)
    parts, data, maxline = encode(sizes, styles, exts, zero, zext, tail, seed)
    if memfile is None:
        extra = src.pick((2, 0), (2, 1), (3, None), (1, 50), (1, -1))
        memfile = src.int(1, maxline) if extra == -1 else maxline + (src.size(100) if extra is None else extra)
    plan = src.pick((3, []), (2, [1]), (2, [2]), (6, None))
    if plan is None:
        plan = [1 + src.size(20) for _ in range(src.count(1, 5, 2))]
    if big:
        plan = [p + 500 for p in plan]
    raw = b''.join(parts)
    case = dict(raw=raw, sizes=sizes, memfile=memfile, plan=plan, op='legal', mode=src.pick((6, 'body'), (1, 'twice'), (1, 'retry')), te=wsgi.gen_te(src))
    op = src.pick((5, 'legal'), (3, 'prefix'), (1, 'lost-end'), (5, 'byte'), (2, 'two'), (2, 'crlf'), (2, 'size'), (1, 'insert'), (1, 'delete'))
    if op == 'prefix':
        case['raw'] = raw[:src.int(0, max(0, len(raw) - 1))]
    elif op in ('byte', 'two', 'insert', 'delete'):
        # positions in the framing only
        pos, frame = 0, []
        for k, p in enumerate(parts):
            if k % 3 != 1 or k == len(parts) - 1:
                frame += range(pos, pos + len(p))
            pos += len(p)
        b = bytearray(raw)
        for _ in range(2 if op == 'two' else 1):
            i = src.choice(frame)
            v = src.pick((2, 0x0d), (2, 0x0a), (2, 0x30), (1, 0x3b), (1, 0x20), (1, 0x2d), (1, 0x31), (1, 0x66), (1, 0x46), (1, 0x78), (1, 0x5f), (4, None))
            if v is None:
                v = src.below(256)
            if op == 'insert':
                b.insert(i, v)
            elif op == 'delete':
                del b[i:i + 1]
            else:
                b[i] = v
        case['raw'] = bytes(b)
    elif op == 'crlf' and sizes:
        k = src.below(len(sizes))
        parts[3 * k + 2] = src.choice([b'', b'\n', b'\r', b'\n\r', b'\r\r', b'xx', b'\n\n', b' \r\n', b'\r\n\r\n', b'\r\nx', b'x\r\n', b'\x00\n', b'\r\x0b'])
        case['raw'] = b''.join(parts)
    elif op == 'lost-end':               # the end of the message is damaged: blank lines, a lost zero, trailers without it
        k = src.below(len(sizes) + 1)
        case['raw'] = b''.join(parts[:3 * k]) + src.choice([b'\r\n', b';\r\n', b' \r\n', b';a=b\r\n\r\n', b'\r\n\r\n', b'X-T: 1\r\n\r\n', b'\t;\r\n\r\n', b'\n', b'\r\n5\r\nhello\r\n', b'-\r\n', b'x\r\n\r\n', b'.\r\n'])
    elif op == 'size' and sizes:
        k = src.below(len(sizes))
        n = max(0, sizes[k] + src.choice([-2, -1, 1, 2, 3, 16, -16]))
        parts[3 * k] = src.choice([b'%x\r\n' % n, b'%X;z\r\n' % n, b'-%x\r\n' % n, b'+%x\r\n' % n, b'0x%x\r\n' % n, b'%x \r\n' % sizes[k],
                                   b' %x\r\n' % sizes[k], b'\r\n', b';\r\n', b'g\r\n', b'%x_0\r\n' % n, b'%d.0\r\n' % n, b'ffffffffffffffffff\r\n',
                                   b'%x\n' % n, b'%x\r' % n, b'%x,%x\r\n' % (n, n), '٣\r\n'.encode(), b'\xb2\r\n', b'1e1\r\n', b'-0\r\n'])
        case['raw'] = b''.join(parts)
    case['op'] = op
    return case


def serve(raw, case, mode, ctx):
    app = make_app(max_memfile_size=case['memfile'])
    seen = []

    @app.route('/', method='ANY')
    def h():
        r = app.request
        if mode == 'retry':
            try:
                r.body
            except Exception:
                pass
        seen.append(r.body.read())
        if mode == 'twice':
            seen.append(r.body.read())
        return 'ok'
    st = wsgi.Stream(raw, case['plan'])
    res = wsgi.call(app, wsgi.environ(wsgi.verb(raw[:300]), '/', stream=st, chunked=True, te=case.get('te')))
    return res, seen, st


def verdict(raw, case, mode, ctx):
    ref = reference(raw, case['memfile'])
    res, seen, st = serve(raw, case, mode, ctx)
    d = lambda: f'{raw[:300]!r} (buffer {case["memfile"]}, plan {case["plan"]}, {mode})'   # noqa
    if res.code == 200:
        if ref[0] == 'bad':
            ctx.fail(f'accepted as {len(seen[0])} bytes {seen[0][:80]!r} although it {ref[1]}: {d()}')
        if ref[0] == 'ok':
            for b in seen:
                ctx.check(b == ref[1], lambda: f'body is {b[:200]!r} ({len(b)} bytes), the chunks carry {ref[1][:200]!r} ({len(ref[1])} bytes): {d()}')
        ctx.tag('accepted-' + ref[0])
    else:
        ctx.check(400 <= res.code < 500, lambda: f'answered {res.status} {res.errors[-600:]}: {d()}')
        if ref[0] == 'ok' and not ref[2]:
            ctx.fail(f'legal encoding of {len(ref[1])} bytes answered {res.status}: {d()}')
        ctx.check(not seen, lambda: f'a body was presented before the rejection: {seen!r}: {d()}')
        ctx.tag('rejected-' + ref[0])
    return ref


def run(case, ctx):
    ref = verdict(case['raw'], case, case['mode'], ctx)
    ctx.tag(case['op'])
    if case['op'] == 'legal' and case['sizes'] and max(case['sizes']) > case['memfile']:
        ctx.tag('chunk-over-buffer')
        if case['plan'] and min(case['plan']) < case['memfile']:
            ctx.tag('chunk-over-buffer-short')
    if case['op'] != 'legal' or (ref[0] == 'ok' and ref[1]):
        ctx.nontrivial()


# --- large and long ones
def gen_scale(src):
    kind = src.pick((4, 'many'), (2, 'large'), (2, 'line'), (2, 'mixed'))
    exts = [src.choice(EXTS) for _ in range(src.count(1, 3, 2))]
    if kind == 'many':
        sizes = [1 + src.below(3) for _ in range(src.pick((3, src.int(250, 260)), (3, src.int(1000, 1100)), (1, src.int(4000, 6000))))]
    elif kind == 'large':
        sizes = [src.pick((2, 65536), (1, 1 << 20), (2, 102400), (1, 8192)) + src.int(-1, 2) for _ in range(src.count(1, 3, 2))]
    elif kind == 'line':
        sizes = [1 + src.size(60) for _ in range(src.count(1, 6, 3))]
        exts = [';' + 'x' * src.choice([255, 1024, 4096, 8190, 65536]) + src.choice(['', '="a;b"', '; y=z'])]
    else:
        sizes = [src.choice([1, 2, 16, 255, 256, 1024, 4095, 4096, 65535]) for _ in range(src.count(20, 120, 60))]
    zero = src.pick((4, 1), (1, 9))
    parts, data, maxline = encode(sizes, [src.below(16) for _ in range(3)], exts, zero, src.pick((4, ''), (1, ';a')), src.choice(TAILS), src.below(4))
    raw = b''.join(parts)
    total = len(raw)
    plan = src.pick((3, []), (3, [max(1, total // src.choice([50, 1000, 5000]))]), (1, [max(1, total // 2000), max(1, total // 300)]))
    op = src.pick((4, 'legal'), (2, 'prefix'), (1, 'crlf'))
    memfile = maxline + src.pick((2, 0), (2, 1000), (3, 65536), (2, 102400))
    if op == 'prefix':
        raw = raw[:len(raw) - src.pick((3, 1 + src.below(len(parts[-1]) + len(parts[-2]) + 6)), (1, src.below(len(raw))))]
    elif op == 'crlf':
        k = src.below(len(sizes))
        parts[3 * k + 2] = src.choice([b'', b'\n', b'xx', b'\r', b'\r\n\r\n', b'\r\nx', b'x\r\n'])
        raw = b''.join(parts)
    return dict(raw=raw, sizes=sizes, memfile=memfile, plan=plan, op=op, mode=src.pick((6, 'body'), (1, 'twice')), te=None)


# --- every strict prefix of an encoding
def gen_prefixes(src):
    sizes = [1 + src.size(20) for _ in range(src.count(1, 4, 2))]
    parts, data, maxline = encode(sizes, [src.below(16)], [src.choice(EXTS[:6])], src.pick((3, 1), (1, 3), (1, 17)), src.pick((3, ''), (1, ';a')), b'\r\n', src.below(3))
    return dict(raw=b''.join(parts), end=len(b''.join(parts[:-1])), memfile=maxline + src.size(30),
                plan=src.pick((2, []), (1, [1]), (1, [2]), (2, [1 + src.size(8), 1 + src.size(8)])))


def run_prefixes(case, ctx):
    raw = case['raw']
    for k in range(len(raw) + 1):
        ref = verdict(raw[:k], case, 'retry' if k % 4 == 1 else 'body', ctx)
        assert (ref[0] == 'bad') == (k < case['end']), (k, ref)
    ctx.nontrivial()


# --- the stream fails during the read, and the body is looked at again
INNER = [b'5\r\nhello\r\n0\r\n\r\n', b'1\r\na\r\n' * 6 + b'0\r\n\r\n', b'0\r\n\r\n' * 5, b'a=1&b=2&c=3&0\r\n\r\n=4', b'a=1&b=2', b'{"a": [1, 2, "0\\r\\n"]}',
         b'--B\r\nContent-Disposition: form-data; name="a"\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name="f"; filename="x"\r\n\r\n0\r\n\r\n\r\n--B--\r\n']


def gen_faults(src):
    k = src.below(len(INNER) + 1)
    payload = pattern(src.below(4), src.size(80)) if k == len(INNER) else INNER[k]
    parts, pos, maxline = [], 0, 0
    style, ext = src.below(16), src.choice(EXTS)
    cap = src.choice([1, 2, 3, 8, 200])
    while pos < len(payload):
        n = min(1 + src.below(cap), len(payload) - pos)
        line = (spell_size(n, style) + ext).encode('latin1') + b'\r\n'
        maxline = max(maxline, len(line))
        parts += [line, payload[pos:pos + n], b'\r\n']
        pos += n
    raw = b''.join(parts)
    bad = src.bool(0.15)
    if bad:
        raw = raw[:src.below(len(raw))] if raw else raw
    else:
        raw += b'0\r\n' + src.choice(TAILS)
    ctype = 'multipart/form-data; boundary=B' if payload.startswith(b'--B') else 'application/json' if payload.startswith(b'{') else src.choice(['', 'application/x-www-form-urlencoded', 'text/plain'])
    looks = faults.gen_looks(src)
    if bad:
        looks = [[p, 'body' if w not in ('body', 'input') else w] for p, w in looks]
    plan = src.pick((3, []), (2, [1]), (3, [1 + src.size(20), 1 + src.size(20)]))
    return dict(raw=raw, payload=payload, bad=bad, memfile=max(maxline, 3) + src.pick((2, 0), (2, 3), (3, src.size(100)), (2, 200)), plan=plan, ctype=ctype, te=wsgi.gen_te(src),
                faults=faults.gen_faults(src, 1 + len(raw)), looks=looks, crash=src.bool(0.3), spool=src.pick((8, 0), (1, 1), (1, 2)))


def run_faults(case, ctx):
    if case['bad']:
        want, views = None, {}
    else:
        ref = reference(case['raw'], case['memfile'])
        assert ref[0] == 'ok' and ref[1] == case['payload'], (case, ref)
        want, views = ref[1], faults.whole(case, ref[1], dict(ctype=case['ctype'], clen=str(len(ref[1]))))
    faults.drive(case, ctx, faults.Faulty(case['raw'], case['plan'], case['faults']), dict(ctype=case['ctype'], chunked=True, te=case['te']), want, views)
    ctx.tag('broken' if case['bad'] else 'legal')


# --- every single-byte substitution in the framing of a small encoding
def enum_subst(tier):
    encs = [([3], [0], ['']), ([1, 2], [0], ['']), ([10], [1], [';a=b']), ([2, 1], [2], ['', ';x'])]
    vals = list(range(256)) if tier == 'thorough' else sorted(set(b'\r\n09aAfFgGxX;- +_\t\x00\xff1') | {11, 12, 0x85})
    for sizes, styles, exts in encs:
        parts, _, maxline = encode(sizes, styles, exts, 1, '', b'\r\n', 2)
        raw = b''.join(parts)
        for i in range(len(raw)):
            for v in vals:
                for plan in ([], [1]):
                    if raw[i] != v:
                        yield dict(raw=raw[:i] + bytes([v]) + raw[i + 1:], memfile=maxline + 8, plan=plan, op='subst', sizes=[], mode='body')


def legs(tier):
    return [
        Leg('encodings', run, gen=gen, quick=100000, thorough=1000000, shards=5, hyp=300, fuzz=40000,
            need=('accepted-ok', 'rejected-bad', 'rejected-any', 'accepted-any', 'legal', 'prefix', 'byte', 'two', 'crlf', 'size', 'insert', 'delete', 'lost-end',
                  'chunk-over-buffer', 'chunk-over-buffer-short')),
        Leg('faults', run_faults, gen=gen_faults, quick=30000, thorough=300000, shards=3, hyp=100, need=('failed-midway', 'failed-at-once', 'no-spool', 'halt', 'again', 'broken', 'legal')),
        Leg('scale', run, gen=gen_scale, quick=400, thorough=8000, shards=4, hyp=0, cpu=60.0, need=('accepted-ok', 'rejected-bad', 'legal', 'prefix', 'chunk-over-buffer')),
        Leg('prefixes', run_prefixes, gen=gen_prefixes, quick=700, thorough=20000, shards=2, hyp=0, need=('accepted-ok', 'rejected-bad')),
        Leg('substitutions', run, enum=enum_subst, quick=0, thorough=0, shards=1, tshards=2, need=('rejected-bad', 'accepted-ok', 'rejected-any')),
    ]
