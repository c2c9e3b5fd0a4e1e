"""C12 - malformed request bodies yield client errors, never server faults."""
import json
import re

from vt.core import Leg
from vt.app import make_app
from vt import wsgi, mp

RULE = ('case = body bytes (grammar-mutated multipart: delimiters missing / duplicated / damaged, broken, non-UTF-8, empty or colon-less '
        'headers, missing names, truncation at every offset, byte edits; valid, mutated and hostile JSON; urlencoded garbage; random bytes) '
        'x content type x Content-Length / chunked framing (legal and damaged) x fragmentation x thresholds x accessors in sequence, optionally after a caught '
        'failure; the answer must be 200 or 4xx with nothing on wsgi.errors, in bounded CPU time, and every delivered multipart field must '
        'be the text between a header block and the next delimiter of the sent body. Non-trivial: the body is not empty.')
ASSUMPTIONS = ['a legal Content-Length value', 'a CPU budget (25 s, normal cost below 1 ms) per case stands for termination',
               'delivered field = bytes between some CRLFCRLF and the next delimiter after it']

ACC = ['forms', 'files', 'POST', 'json', 'body', 'params', 'query', 'content_type', 'ctype']

HEADS = [b'', b'\r\n', b':', b': ', b'A', b'A:', b'A: ', b'A:b', b'Content-Disposition', b'Content-Disposition:', b'Content-Disposition: ', b'Content-Disposition: ;',
         b'Content-Disposition: form-data', b'Content-Disposition: form-data;', b'Content-Disposition: form-data; name', b'Content-Disposition: form-data; name=',
         b'Content-Disposition: form-data; name="', b'Content-Disposition: form-data; name="a', b'Content-Disposition: form-data; name=""', b'Content-Disposition: form-data; name="\xff"',
         b'Content-Disposition: form-data; filename="f"', b'Content-Disposition: form-data; name="a"; filename="\xff\xfe"', b'Content-Disposition: form-data; name="a"\r\nX',
         b'Content-Disposition: form-data; name="a"\r\n folded', b'X\r\nContent-Disposition: form-data; name="a"', b'\r\nContent-Disposition: form-data; name="a"',
         b'Content-Disposition: form-data; name="a"\nContent-Type: x', b'Content-Disposition: form-data; name="a"\r\nContent-Type:', b'Content-Disposition: form-data; name="a"; filename="f"\r\nContent-Type:',
         b'Content-Disposition: form-data; name="a"; filename="f"\r\nContent-Type: a\x00b', b'Content-Disposition: form-data; name="a"; filename="f"\r\nX: a\rb', b'\x00: \x00',
         b'Content-Disposition: form-data; name="a"; filename', b'Content-Disposition: form-data; name="a"; filename=', b'Content-Disposition: ;;;===;;', b'=;"', b'Content-Disposition: name="a"',
         b'Content-Disposition: form-data; ; name="a"', b'Content-Disposition:=', b':Content-Disposition: form-data; name="a"', b'Content-Disposition: form-data; name=a; name=b',
         b'Content-Disposition: form-data; name="a"\r\nContent-Disposition: form-data', b'Content-Disposition: form-data; name="a"\r\nContent-Disposition: form-data; filename="q"',
         b'Content-Disposition: form-data; name="a"; filename="f"\r\nContent-Length: x', b'Content-Disposition: form-data; name*=utf-8\'\'a',
         b'Content-Disposition: form-data; name="a"', b'Content-Disposition: form-data; name="a"; filename="f"', b'\xed\xa0\x80: x', b'\xe2\x80\xa8Content-Disposition: form-data; name="a"']

CTYPES = ['multipart/form-data', 'multipart/', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=""', 'multipart/form-data; boundary="x', 'multipart/form-data; boundary=\r',
          'multipart/form-data; boundary="a\rb"', 'multipart/form-data; boundary=é', 'multipart/form-data; boundary=;', 'multipart/mixed; boundary=x', 'multipart/x', 'multipart', 'multipart/form-data boundary=x',
          'multipart/form-data; xboundary=x', 'MULTIPART/FORM-DATA; boundary=x', 'multipart/form-data; boundary=x; boundary=y',
          'application/json', 'application/json; charset=utf-8', 'application/json;', 'application/json-patch+json', 'APPLICATION/JSON', 'application/jsonx', ' application/json', 'application/json ; x',
          'application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-16', 'application/x-www-form-urlencoded; charset=utf-8', 'application/x-www-form-urlencoded;charset="UTF-8"', 'application/x-www-form-urlencoded; charset=ascii', 'application/x-www-form-urlencoded; charset=nosuch', 'text/plain', '', ';', 'x', '\xff', 'application/vnd.api+json', 'application/octet-stream', None]

JSONS = ['{}', '[]', 'null', 'true', '1', '"x"', '{"a": 1}', '{"a": [1, {"b": null}]}', '[["a", 1]]', '["ab"]', '[1]', '[[1,2,3]]', '{"a":}', '{', '}', '[', '"', '{"a" 1}', "{'a': 1}", 'NaN', 'Infinity', '-', '1e999',
         '{"a": NaN}', '\ufeff{}', '{"\\ud800": "\\udfff"}', '{"a": "\x00"}', '{"self": 1, "a b": 2}', '{"__class__": 1}', '{"items": 1, "update": 2}', '0' * 50, '9' * 5000, '{"":1}', '[' * 3000, '[' * 100000, '{"a":' * 20000,
         '[' * 500 + ']' * 500, ' ', '\n', 'nul', '{"a": 1}x', '{"a":1,}', '//', '{"a":1e-999999}', '"\\u12"', '"\\x"', '{"a":"' + 'x' * 1000 + '"}']

QS = ['a=b', '', '&', '=', '==', '&&', '%', '%%', '%z', 'a=%', 'a=%ff', '%ff=%fe', 'a', 'a&a', 'a=1&a=2&a=3', '+', '=+', '\x00', 'a=\ud800', ';', 'a;b', '%00', '%u1234', '&=&=', 'self=1', 'a=b=c', 'é=日', '%c3', '%c3%a9=1']


def gen_mp(src):
    boundary = src.choice(['x', '-', 'ab', 'b--', 'q' * 20])
    b = boundary.encode()
    parts = []
    level = src.pick((4, 0.0), (3, 0.1), (3, 0.5))      # share of damaged header blocks and delimiters
    for i in range(src.count(0, 4, 1.9)):
        h = src.choice(HEADS) if src.bool(level) else b'Content-Disposition: form-data; name="%s"' % src.choice([b'a', b'b', b'\xc3\xa9']) + src.choice([b'', b'; filename="f"', b'', b'; filename=""'])
        if src.bool(level * 0.4):
            h += b'\r\n' + src.choice(HEADS)
        elif src.bool(0.15):
            line = src.choice([b'Content-Length: ', b'Content-Range: bytes 0-', b'X-Skip: ', b'Content-Transfer-Encoding: ', b'Content-Encoding: ', b'Content-Type: ', b'Content-MD5: ', b'Range: bytes=0-', b'Content-Disposition: form-data; name="a"; size='])
            line += src.choice([b'0', b'1', b'2', b'3', b'99', b'-1', b'-3', b'x', b'', b'base64', b'quoted-printable', b'gzip', b'8bit', b'text/plain; charset=utf-16', b'1_0', b' 2 ', b'+1', b'\xb2'])
            h = h + b'\r\n' + line if src.bool(0.6) else line + b'\r\n' + h
        if src.bool(0.04):
            h += b'\r\nX-Long: ' + b'l' * src.choice([60, 250, 1000, 1100, 2100, 4090, 9000, 70000])
        d = src.pick((30, b'data'), (10, b''), (10, b'\xff\xfe'), (1, b'long' * src.choice([20, 300, 1000, 2100, 20000])), (20, None))
        if d is None:
            d = mp.gen_data(src, boundary, 10, 4)
        parts.append([h, d])
    out = [src.pick((16, b''), (1, b'\r\n'), (1, b'preamble\r\n'), (1, b'-'), (1, b'\r'), (1, b'\n'), (1, b' '), (1, b'\r\npre\r\n'))]
    for i, (h, d) in enumerate(parts):
        delim = (b'\r\n' if i else b'') + b'--' + b + b'\r\n'
        if src.bool(level * 0.25):
            delim = src.choice([b'', delim[2:], delim + delim, delim[:-2], delim[:-1], delim[:-2] + b'\n', delim[:-2] + b' \r\n', delim[:-2] + b'-\r\n', delim[:-2] + b'--\r\n', delim[:-2] + b'xy',
                                delim.replace(b'--', b'-', 1), delim.replace(b'\r\n', b'\n'), delim.upper(), delim + b'\r\n', delim[:-2] + b'\r\r\n'])
        out += [delim, h]
        out.append(b'\r\n\r\n' if not src.bool(level * 0.2) else src.choice([b'', b'\r\n', b'\n\n', b'\r\r', b'\r\n\r', b'\r\n\n\r\n', b'\r\n\r\n\r\n']))
        out.append(d)
    out.append(src.pick((14, b'\r\n--' + b + b'--'), (1, b''), (1, b'\r\n--' + b), (1, b'\r\n--' + b + b'-'), (1, b'\r\n--' + b + b'\r\n'), (1, b'--' + b + b'--'), (1, b'\r\n--' + b + b'-x'), (1, b'\r\n--' + b + b' --'),
                        (1, b'\n--' + b + b'--'), (1, b'\r\n--' + b + b'\r\n\r\n')))
    out.append(src.pick((3, b'\r\n'), (2, b''), (1, b'epi'), (1, b'\r\n--' + b + b'\r\nContent-Disposition: form-data; name="late"\r\n\r\nz\r\n--' + b + b'--')))
    raw = b''.join(out)
    if src.bool(0.2) and raw:
        for _ in range(src.count(1, 4, 1.5)):
            i = src.below(len(raw))
            op = src.choice(['set', 'del', 'ins', 'cut', 'dup'])
            v = bytes([src.pick((2, 13), (2, 10), (2, 45), (1, 59), (1, 34), (1, 61), (1, 58), (1, 255), (1, 0), (1, 0x80))])
            if op == 'set':
                raw = raw[:i] + v + raw[i + 1:]
            elif op == 'del':
                raw = raw[:i] + raw[i + 1 + src.below(4):]
            elif op == 'ins':
                raw = raw[:i] + v + raw[i:]
            elif op == 'cut':
                raw = raw[:i] or b'-'
            else:
                j = src.int(i, min(len(raw), i + 30))
                raw = raw[:j] + raw[i:j] + raw[j:]
    return boundary, raw


def gen(src):
    kind = src.pick((8, 'mp'), (3, 'json'), (2, 'qs'), (2, 'bytes'))
    ctype, boundary = None, None
    if kind == 'mp':
        boundary, raw = gen_mp(src)
        ctype = src.pick((8, 'multipart/form-data; boundary="%s"' % boundary), (1, 'multipart/form-data; boundary=%s; charset=x' % boundary), (1, None))
        if ctype is None:
            ctype, boundary = src.choice(CTYPES), None
    elif kind == 'json':
        s = src.choice(JSONS)
        enc = src.pick((8, 'utf8'), (1, 'utf-16'), (1, 'utf-32-be'), (1, 'latin1'))
        raw = s.encode(enc, 'replace')
        if src.bool(0.3) and raw:
            i = src.below(len(raw))
            raw = raw[:i] + src.choice([b'', b'\xff', b'"', b'{', b'\x00', b'\\', b'\xc3', b'9']) + raw[i + src.below(2):]
        ctype = src.choice(['application/json', 'application/json', 'application/json; charset=utf-8', 'application/json-patch+json', 'Application/JSON'] + CTYPES)
    elif kind == 'qs':
        raw = '&'.join(src.choice(QS) for _ in range(src.count(1, 5, 2))).encode('utf8', 'surrogatepass')
        ctype = src.choice(['application/x-www-form-urlencoded', None, 'text/plain'] + CTYPES)
    else:
        raw = b''.join(src.choice([b'a', b'=', b'&', b'%', b'-', b'\r\n', b'\xff', b'{', b'"', b':', b'\x00', b'--x', b'\r\n\r\n', b';']) for _ in range(src.count(0, 30, 8)))
        ctype = src.choice(CTYPES)
    if src.bool(0.002) and raw:
        raw = (raw * (90000 // len(raw) + 1))[:src.choice([30000, 90000])]
    framing = src.pick((9, 'clen'), (3, 'chunked'), (1, 'chunked-bad'), (1, 'short'), (1, 'none'))
    return dict(raw=raw, ctype=ctype, boundary=boundary, framing=framing, plan=src.pick((3, []), (1, [1]), (2, [1 + src.size(30), 1 + src.size(9)])),
                memfile=src.pick((6, 102400), (1, 64), (2, None)) or 16 + src.size(300), maxbody=src.pick((12, None), (1, 64)), cut=src.below(1 << 12),
                acc=[src.choice(ACC) for _ in range(src.count(0, 3, 0.7))] + [src.choice(ACC[:3] if kind == 'mp' else ACC)], catch=src.bool(0.3), te=wsgi.gen_te(src))


def touch(v):
    for x in v if isinstance(v, list) else [v]:
        if hasattr(x, 'file'):
            x.content_type, x.filename, x.get_header('Content-Type')


def execute(case, raw, ctx, acc=None):
    kw = dict(max_memfile_size=case['memfile'])
    if case['maxbody'] is not None:
        kw['max_body_size'] = case['maxbody']
    app = make_app(**kw)
    seen = []

    @app.route('/', method='ANY')
    def h():
        r = app.request
        for i, a in enumerate(acc or case['acc']):
            try:
                v = getattr(r, a)
            except Exception:
                if not case['catch'] or i == len(case['acc']) - 1:
                    raise
                continue
            if a == 'body':
                v.read()
            if a in ('forms', 'files', 'POST'):
                for k, x in v.items():
                    touch(x)
                    for y in x if isinstance(x, list) else [x]:
                        seen.append((a, k, y.file.read() if hasattr(y, 'file') else y))
                        if hasattr(y, 'file'):
                            y.file.seek(0)
        return 'ok'
    framing = case['framing']
    chunked = framing.startswith('chunked')
    data, clen = raw, len(raw)
    if chunked:
        n = max(1 + case['cut'] % 50, len(raw) // 200 + 1)
        cs = [raw[i:i + n] for i in range(0, len(raw), n)]
        data = b''.join(b'%x\r\n%b\r\n' % (len(c), c) for c in cs) + b'0\r\n\r\n'
        clen = None
        if framing == 'chunked-bad':
            i = case['cut'] % len(data)
            data = data[:i] + [b'', b'\r', b'z', b'-1\r\n', b'\xff'][case['cut'] % 5] + data[i + case['cut'] % 3:]
    elif framing == 'short':
        clen = len(raw) + 1 + case['cut'] % 9
    elif framing == 'none':
        clen = None
    plan = case['plan'] if len(raw) < 2000 else []
    res = wsgi.call(app, wsgi.environ(wsgi.verb(data[:300], case['ctype']), '/', qs='q=1', stream=wsgi.Stream(data, plan), ctype=case['ctype'], clen=clen, chunked=chunked, te=case.get('te')))
    d = lambda: f'{case["ctype"]!r} {framing} {acc or case["acc"]} catch={case["catch"]} memfile={case["memfile"]}: {raw[:500]!r}'   # noqa
    ctx.check(res.code < 500, lambda: f'answered {res.status}: {res.errors[-700:]} for {d()}')
    ctx.check(res.code == 200 or 400 <= res.code < 500, lambda: f'answered {res.status} for {d()}')
    ctx.check(not res.errors, lambda: f'{res.status}, wsgi.errors: {res.errors[-700:]} for {d()}')
    if case['boundary'] is not None and framing in ('clen', 'chunked'):
        tok = b'\r\n--' + case['boundary'].encode()
        ok = set()
        for m in re.finditer(rb'(?=\r\n\r\n)', raw):
            d0 = m.start() + 4
            d1 = raw.find(tok, d0)
            if d1 >= 0:
                ok.add(raw[d0:d1])
        for a, k, v in seen:
            vb = v.encode('utf8', 'surrogatepass') if isinstance(v, str) else v
            if not isinstance(vb, bytes) or vb not in ok:
                ctx.fail(f'{a}[{k!r}] holds {v!r}, which is not the complete data of a delimited part of {d()}')
        if seen:
            ctx.tag('fields-delivered')
    return res


def run(case, ctx):
    res = execute(case, case['raw'], ctx)
    ctx.tag('%dxx' % (res.code // 100))
    ctx.tag('multipart' if case['boundary'] is not None else 'json' if 'json' in (case['ctype'] or '').lower() else 'other')
    if res.code >= 400:
        ctx.tag('%d-%s' % (res.code, 'multipart' if case['boundary'] is not None else 'json' if 'json' in (case['ctype'] or '').lower() else 'other'))
    if case['raw']:
        ctx.nontrivial()


# truncation at every offset of a well-formed body
def gen_trunc(src):
    boundary = src.choice(['x', 'b-', 'q' * 12])
    parts = [(b'Content-Disposition: form-data; name="%s"%s' % (src.choice([b'a', b'b', b'\xc3\xa9']), src.choice([b'', b'; filename="f"\r\nContent-Type: a/b', b'; filename=""'])),
              mp.gen_data(src, boundary, 8, 3)) for _ in range(src.count(1, 3, 2))]
    return dict(raw=mp.Body(boundary, parts, b'', b'\r\n').raw, ctype='multipart/form-data; boundary=' + boundary, boundary=boundary, framing=src.choice(['clen', 'chunked']),
                plan=src.choice([[], [1], [7], [2, 3]]), memfile=102400, maxbody=None, cut=src.below(64), acc=['POST'], catch=False, te=wsgi.gen_te(src))


def run_trunc(case, ctx):
    for k in range(len(case['raw'])):
        execute(case, case['raw'][:k], ctx)
    ctx.nontrivial()


# ---- many parts, long headers, long lines
def gen_scale(src):
    kind = src.pick((5, 'mp'), (2, 'json'), (2, 'qs'))
    n = src.pick((2, 20), (2, 150), (1, 900)) + src.below(9)
    boundary = None
    if kind == 'mp':
        boundary = src.choice(['x', 'b-', 'q' * 60])
        delim = b'--' + boundary.encode() + b'\r\n'
        out = []
        for i in range(n):
            h = b'Content-Disposition: form-data; name="%b%d"' % (b'n' * src.pick((30, 1), (1, 1500), (1, 9000)), i % 7 if src.bool(0.3) else i) + src.pick((4, b''), (1, b'; filename="f%d"' % i), (1, b'; a=b' * 300))
            if src.bool(0.05):
                h += b''.join(b'\r\nX-%d: %b' % (j, b'v' * j) for j in range(src.choice([3, 120])))
            out.append((b'\r\n' if i else b'') + delim + h + b'\r\n\r\n' + src.pick((5, b'v%d' % i), (1, b''), (1, b'\xff' * 300)))
        for _ in range(src.pick((2, 0), (2, 1), (1, 3))):
            i = src.pick((1, len(out) - 1), (1, 0), (2, src.below(len(out))))
            x = out[i]
            out[i] = src.choice([x[:len(x) // 2], x.replace(b': ', b'', 1), x.replace(b'; name', b'; nam', 1), x.replace(b'\r\n\r\n', b'\r\n', 1), b'', x + x, x.replace(b'name="', b'name="\xff', 1), x[:-1], x.replace(b'--', b'-', 1), x.replace(b'\r\n--', b'\n--', 1), x[:3],
                                 x.replace(b'; name="', b'; name=' + b'"' * 2000, 1), x.replace(b'form-data', b';' * 3000, 1), x.replace(b'form-data', b'"' * 3001, 1), x.replace(b'form-data', b'a="\\' * 900, 1), x.replace(b'; name', b' ' * 5000 + b'; name', 1)])
        raw = b''.join(out) + src.pick((5, b'\r\n--' + boundary.encode() + b'--\r\n'), (1, b''), (1, b'\r\n--' + boundary.encode()))
        ctype = 'multipart/form-data; boundary=' + boundary
    elif kind == 'json':
        raw = src.choice([lambda: json.dumps({'k%d' % i: i for i in range(n)}), lambda: json.dumps(['v' * i for i in range(n % 300)]), lambda: '{"a":' * n + '1' + '}' * n, lambda: '[' * n + ']' * (n - 1), lambda: '"' + 'x' * n * 9, lambda: '1' * n * 8, lambda: '{"a": 1' + ',"b": 2' * n,
                          lambda: '"' + '\\ud800' * n + '"', lambda: ' ' * n * 20, lambda: '[' + '1,' * n + ']', lambda: '-' * n, lambda: '1e' + '9' * n, lambda: '[1' + '.5e3' * n])().encode()
        ctype = 'application/json'
    else:
        raw = src.choice([lambda: '&'.join('k%d=%d' % (i % 50, i) for i in range(n)), lambda: '&' * n, lambda: '=' * n, lambda: '%' * n * 3, lambda: 'a' * n * 30, lambda: '%ff=' * n, lambda: 'a=' + '%c3' * n, lambda: '&a=%' * n, lambda: '+' * n])().encode()
        ctype = src.choice(['application/x-www-form-urlencoded', None])
    if src.bool(0.25):
        i = src.below(len(raw) + 1)
        raw = src.pick((2, raw[:i]), (1, raw[:i] + b'\xff' + raw[i:]), (1, raw[:i] + raw[i + 1:]))
    return dict(raw=raw, ctype=ctype, boundary=boundary, framing=src.pick((4, 'clen'), (2, 'chunked'), (1, 'chunked-bad'), (1, 'short')), plan=[], memfile=src.pick((4, 1 << 20), (1, 3000), (1, 64)), maxbody=src.pick((8, None), (1, 2000)), cut=src.below(1 << 12),
                acc=[src.choice(['POST', 'forms', 'files', 'params', 'json']) if kind == 'mp' else src.choice(ACC) for _ in range(src.int(1, 2))], catch=src.bool(0.3), te=wsgi.gen_te(src))


def run_scale(case, ctx):
    run(case, ctx)
    if len(case['raw']) > 20000:
        ctx.tag('long')


# every header block of the table, alone, in text and file position, with every accessor
def enum_heads(tier):
    for h in HEADS:
        for h2 in (b'', b'\r\nContent-Disposition: form-data; name="z"', b'\r\nContent-Type: t/x'):
            raw = b'--x\r\n' + h + h2 + b'\r\n\r\ndata\r\n--x--\r\n'
            for acc in (['forms'], ['files'], ['POST', 'POST'], ['json'], ['params']):
                yield dict(raw=raw, ctype='multipart/form-data; boundary=x', boundary='x', framing='clen', plan=[], memfile=102400, maxbody=None, cut=0, acc=acc, catch=len(acc) > 1)
    for ct in CTYPES:
        for j in JSONS[:20] + QS + ['--x\r\n', '--x--', '--x\r\nContent-Disposition: form-data; name="a"\r\n\r\nv\r\n--x--']:
            for acc in (['forms'], ['json'], ['params'], ['body'], ['files', 'forms']):
                yield dict(raw=j.encode('utf8', 'surrogatepass'), ctype=ct, boundary=None, framing='clen', plan=[], memfile=102400, maxbody=None, cut=0, acc=acc, catch=len(acc) > 1)


def legs(tier):
    return [
        Leg('bodies', run, gen=gen, quick=80000, thorough=1200000, shards=5, hyp=400, fuzz=60000,
            need=('2xx', '4xx', 'multipart', 'json', 'other', 'fields-delivered', '400-multipart', '400-json', '413-multipart', '413-other')),
        Leg('truncations', run_trunc, gen=gen_trunc, quick=400, thorough=10000, shards=2, hyp=0, need=('fields-delivered',)),
        Leg('scale', run_scale, gen=gen_scale, quick=5000, thorough=60000, shards=2, hyp=30, need=('2xx', '4xx', 'multipart', 'json', 'other', 'fields-delivered', 'long')),
        Leg('tables', run, enum=enum_heads, quick=0, thorough=0, shards=1, tshards=1, need=('400-multipart',)),
    ]
