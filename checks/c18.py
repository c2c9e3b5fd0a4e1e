"""C18 - query strings and urlencoded forms decode to exactly what was sent."""
import itertools

from vt.core import Leg, Violation
from vt import wsgi

RULE = ('lists of (key, value) text pairs over all of Unicode with every separator inside, blank values and repeated keys, URL-encoded in every legal spelling (+ or %20, upper / lower hex, everything or only the necessary escaped), '
        'sent as query string, urlencoded body (Content-Length or chunked, fragmented) or both; request.query / forms / params compared with the pairs sent. Raw strings (separators, stray and overlong escapes, any Latin-1 text, arbitrary body bytes): '
        'no exception, bounded CPU. Non-trivial: a pair needs escaping, a key repeats, a value is blank, there are more than 50 pairs, or the string is raw.')
ASSUMPTIONS = ['keys are non-empty', 'text has no lone surrogates', 'a body is not larger than max_memfile_size (documented 413)', 'how params merges a key present in both query and form is not specified: either or both']

_st = {}


def setup(ctx):
    from ombott import Ombott
    cell = _st['cell'] = {}

    def app_of(**cfg):
        app = Ombott(cfg or None)

        def h(p=''):
            r = app.request
            out = {}
            for w in cell['reads']:
                out[w] = getattr(r, w)
            cell['out'] = out
            return 'ok'
        app.route('/<p:path>', method='ANY')(h)
        app.route('/', method='ANY')(h)
        return app
    _st['app'] = app_of(max_memfile_size=4 << 20)


ALL = ('query', 'forms', 'params', 'GET', 'POST')


def serve(qs, body, reads, how='length', plan=(), ctype='application/x-www-form-urlencoded', method=None, te=None):
    cell = _st['cell']
    cell.update(reads=reads, out=None)
    kw = {}
    if body is not None:
        if how == 'length':
            kw = dict(body=body, stream=wsgi.Stream(body, plan), ctype=ctype)
        else:
            n = plan[0] if plan else 7
            enc = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + n]), body[i:i + n]) for i in range(0, len(body), n)) + b'0\r\n\r\n'
            kw = dict(body=enc, stream=wsgi.Stream(enc, plan), ctype=ctype, chunked=True, te=te)
    env = wsgi.environ(method or ('GET' if body is None else wsgi.verb(body[:300])), '/', qs=qs, **kw)
    if qs is None:
        del env['QUERY_STRING']
    r = wsgi.call(_st['app'], env)
    return r, cell['out']


def group(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return {k: v[0] if len(v) == 1 else v for k, v in out.items()}


def exact(d, want):
    """d has exactly the given items, plain strings and lists of strings"""
    if set(d) != set(want) or len(d) != len(want):
        return f'keys {sorted(d, key=repr)[:8]!r}, not {sorted(want)[:8]!r}'
    for k, v in want.items():
        g = d[k]
        if type(g) is not type(v) and not (isinstance(g, type(v))):
            return f'{k!r} is {g!r}, not {v!r}'
        if g != v:
            return f'{k!r} is {g!r}, not {v!r}'
    return None


SAFE = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
LOOSE = SAFE | set("/?:@!$'()*,;")


def quote(s, mode, key=False):
    """mode: 0 quote_plus, 1 %20, 2 lower hex, 3 everything, 4 only what must be, 5 alternating"""
    out = []
    for i, ch in enumerate(s):
        if ch == ' ' and mode not in (1, 3):
            out.append('+')
        elif mode == 4 and (ch in LOOSE or ch == '=' and not key):
            out.append(ch)
        elif ch in SAFE and mode != 3 and not (mode == 5 and i % 2):
            out.append(ch)
        else:
            out.append(''.join((f'%{b:02x}' if mode in (2, 5) else f'%{b:02X}') for b in ch.encode('utf8')))
    return ''.join(out)


def encode(pairs, modes):
    return '&'.join(quote(k, modes[i % len(modes)], True) + '=' + quote(v, modes[(i + 1) % len(modes)]) for i, (k, v) in enumerate(pairs))


def tags(ctx, pairs):
    g = group(pairs)
    if any(isinstance(v, list) for v in g.values()):
        ctx.tag('repeated')
        ctx.nontrivial()
    if len(pairs) > 50:
        ctx.nontrivial()
    if any(not v for _, v in pairs):
        ctx.tag('blank')
        ctx.nontrivial()
    if any(not set(k + v) <= SAFE for k, v in pairs):
        ctx.tag('escaped')
        ctx.nontrivial()


def run(case, ctx):
    qp, bp = case['q'], case['b']
    qs = encode(qp, case['modes']) if qp is not None else None
    body = encode(bp, case['modes'][::-1]).encode('ascii') if bp is not None else None
    r, out = serve(qs, body, case['reads'], case['how'], case['plan'], case['ctype'], te=case.get('te'))
    what = lambda: f'query {qs!r}, body {body!r}'
    ctx.check(r.code == 200 and out is not None, lambda: f'{what()}: {r.status} {r.errors[-300:]}')
    tags(ctx, (qp or []) + (bp or []))
    wq, wb = group(qp or []), group(bp or [])
    for name in case['reads']:
        d = out[name]
        if name in ('query', 'GET'):
            bad = exact(d, wq)
        elif name in ('forms', 'POST'):
            bad = exact(d, wb)
        else:
            over = set(wq) & set(wb)
            if over:
                ctx.tag('overlap')
            want = {**wq, **wb}
            bad = exact({k: v for k, v in d.items() if k not in over}, {k: v for k, v in want.items() if k not in over})
            for k in over:
                a, b = wq[k], wb[k]
                la, lb = (x if isinstance(x, list) else [x] for x in (a, b))
                if k not in d or d[k] not in (a, b, la + lb, lb + la):
                    bad = f'{k!r} is {d.get(k)!r}, query has {a!r}, form has {b!r}'
        ctx.check(not bad, lambda: f'{what()}: request.{name}: {bad}')
        for k in list(d)[:6]:
            if k.isidentifier() and not hasattr(dict, k) and not k.startswith('__'):
                ctx.check(getattr(d, k) == d[k], lambda: f'{what()}: request.{name}.{k} is {getattr(d, k)!r}, as item {d[k]!r}')
        ctx.check(d.copy() == d, lambda: f'{what()}: request.{name}.copy() differs')
    ctx.tag('query' if qp else 'no-query')
    if bp:
        ctx.tag('body-' + case['how'])


# ------------------------------------------------------------- raw strings
def run_raw(case, ctx):
    ctx.nontrivial()
    qs, body = case['qs'], case['body']
    r, out = serve(qs, body, ALL, case['how'], case['plan'], case['ctype'], te=case.get('te'))
    ctx.check(r.code == 200 and out is not None, lambda: f'query {qs!r}, body {body!r}: {r.status} {r.errors[-300:]}')
    for name in ALL:
        for k, v in out[name].items():
            ctx.check(isinstance(k, str) and (isinstance(v, str) or isinstance(v, list) and all(isinstance(x, str) for x in v)), lambda: f'query {qs!r}, body {body!r}: request.{name} has {k!r}: {v!r}')
    ctx.tag('raw')


RAWTOK = ['&', '=', '%', '+', 'a', 'b', '', '%4', '%41', '%zz', '%%', '%e9', '%c3%a9', '%ff', '%00', '%u0041', '&&', '==', '=&', '&=', ';', ' ', '#', '?', '\xe9', '\xff', '\x00', '\n', '%26', '%3D', '%25', '%2B', '%2', '%E2%82', '%ED%A0%80', '%F4%90%80%80', '%C0%80', 'x' * 50, '[', ']', 'a[]', '"', "'", '\\',
          'self', '__class__', 'keys', 'copy']


def gen_raw_text(src):
    k = src.pick((6, 'tok'), (2, 'latin'), (1, 'uni'), (1, 'long'))
    if k == 'tok':
        return ''.join(src.choice(RAWTOK) for _ in range(src.count(0, 30, 6)))
    if k == 'latin':
        return ''.join(chr(src.below(256)) for _ in range(src.count(0, 30, 6)))
    if k == 'uni':
        return ''.join(src.pick((2, chr(src.below(0x110000))), (3, src.choice('&=%+a4'))) for _ in range(src.count(0, 20, 5)))
    return src.choice(RAWTOK[:24]) * src.choice([100, 1000, 3000]) + src.choice(RAWTOK)


def gen_raw(src):
    both = src.pick((4, 'q'), (3, 'b'), (1, 'both'))
    c = dict(qs='', body=None, how='length', plan=(), ctype=None)
    if both != 'b':
        c['qs'] = gen_raw_text(src)
    if both != 'q':
        c['body'] = gen_raw_text(src).encode('utf8', 'surrogatepass') if src.bool(0.7) else gen_raw_text(src).encode('latin1', 'replace')
        c['how'] = src.pick((3, 'length'), (1, 'chunked'))
        c['te'] = wsgi.gen_te(src)
        c['plan'] = [src.choice([1, 2, 7])] if src.bool(0.3) and len(c['body']) < 5000 else ()
        c['ctype'] = src.pick((4, CT[0]), (1, src.choice(CT)), (1, None), (1, 'text/plain'), (1, ''))
    return c


def enum_raw(tier):
    n = 5 if tier == 'quick' else 7
    for k in range(n + 1):
        for t in itertools.product('&=%+a4', repeat=k):
            s = ''.join(t)
            yield dict(qs=s, body=None, how='length', plan=(), ctype=None)
            if k < n:
                yield dict(qs='', body=s.encode(), how='length', plan=(), ctype=CT[0])


# ------------------------------------------------------------- pairs
CT = ['application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=UTF-8', 'Application/X-WWW-Form-URLencoded', 'application/x-www-form-urlencoded;charset=utf-8']
ATOMS = ['a', 'b', '=', '&', '+', '%', ' ', ';', '%41', '%2B', 'é', '日', '\U0001f600', '\n', '\r\n', '\0', '"', '<', '#', '/', '?', '%%', '\xff', '\x80', '\xa0', '\u2028', '\ufffd', '\ufeff', '\u0301', '[]', '.', '~', '_', '-', '*', 'x' * 40, '1', '&amp;', '%zz', '\t', '\\', '\u0100', '\U0010ffff']
KEYS = ['a', 'b', 'c', 'A', 'aa', 'a[]', 'a b', 'a=b', 'a&b', '+', '%', '=', '&', ' ', 'é', 'self', 'keys', '__class__', '%41', '0', 'query', 'key', 'items', '__init__', 'args']


def gen_t(src, lo=0):
    while True:
        s = ''.join(src.pick((8, src.choice(ATOMS)), (1, chr(src.below(256))), (1, chr(src.below(0x110000)))) for _ in range(src.count(lo, 10, max(lo + 1, 2))))
        s = ''.join(c for c in s if not 0xd800 <= ord(c) < 0xe000)
        if len(s) >= lo:
            return s
        lo = 0
        return 'k' + s


def gen_pairs(src, keys):
    n = src.pick((9, src.count(0, 12, 4)), (1, src.count(10, 200, 60)))
    return [(src.choice(keys) if src.bool(0.8) else gen_t(src, 1), gen_t(src)) for _ in range(n)]


def gen(src):
    keys = [src.choice(KEYS) if src.bool(0.6) else gen_t(src, 1) for _ in range(1 + src.below(4))]
    where = src.pick((4, 'q'), (4, 'b'), (2, 'both'))
    c = dict(q=None, b=None, how='length', plan=(), ctype=None, modes=[src.below(6) for _ in range(1 + src.below(3))])
    if where != 'b':
        c['q'] = gen_pairs(src, keys)
    elif src.bool(0.3):
        c['q'] = []
    if where != 'q':
        c['b'] = gen_pairs(src, keys if src.bool() else [src.choice(KEYS) for _ in range(3)])
        c['how'] = src.pick((3, 'length'), (1, 'chunked'))
        c['te'] = wsgi.gen_te(src)
        c['plan'] = [1 + src.below(9) for _ in range(1 + src.below(3))] if src.bool(0.3) else ()
        c['ctype'] = src.pick((5, CT[0]), (1, src.choice(CT)), (1, None))
    reads = src.shuffle(ALL)
    c['reads'] = reads[:src.pick((4, 5), (1, 1 + src.below(5)))]
    return c


def gen_scale(src):
    """many pairs, long keys, long values, many repetitions"""
    kind = src.pick((3, 'many'), (2, 'repeat'), (2, 'value'), (1, 'key'), (1, 'all'))
    n = src.pick((3, src.int(90, 300)), (3, src.int(990, 1030)), (1, src.int(1100, 2500)))
    size = src.pick((2, 255), (2, 4096), (2, 8190), (2, 65536), (1, 131072)) + src.int(-1, 2)
    text = src.choice(['x', 'é', '%', '&', ' ', 'a+b='])
    if kind == 'many':
        pairs = [('k%d' % i, 'v%d' % i) for i in range(n)]
    elif kind == 'repeat':
        m = src.choice([1, 2, 3])
        pairs = [('k%d' % (i % m), 'v%d' % i) for i in range(n)]
    else:
        # one text throughout, or another one at the start, late, at the end
        rare = src.pick((2, ''), (1, 'é'), (1, '%41'), (1, '+ '), (1, '=&'), (1, '\n'), (1, 'яя'))
        at = src.choice([0, 1, 2, 3])
        n1 = [0, size // 2, max(0, size - 20), size][at] // len(text)
        long_ = text * n1 + rare + text * (size // len(text) - n1)
        pairs = [('a', 'b'), ('k', long_) if kind == 'value' else (long_, 'v'), ('a', 'c'), ('z', '')]
        if kind == 'all':
            pairs += [('m%d' % i, 'v') for i in range(100)]
    to_q = src.bool()
    return dict(q=pairs if to_q else None, b=None if to_q else pairs, how=src.pick((3, 'length'), (1, 'chunked')), plan=src.choice([(), (4000,)]), te=None, ctype=CT[0], modes=[src.choice([0, 0, 1, 2, 3])], reads=('query', 'params') if to_q else ('forms', 'params'))


def enum_pairs(tier):
    """every list of up to 2 (3) pairs with keys and values up to 1-2 characters over a small alphabet, both ways"""
    ks = ['a', '=', '&', '+', 'aé', '%4', 'b a']
    vs = ['', 'x', '=', '&', '+', '%41', ' ', 'é&', '=&']
    ps = list(itertools.product(ks, vs))
    for n in ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)):
        small = ps if n < 3 else [p for p in ps if p[0] in ('a', '=', '&') and p[1] in ('', 'x', '=&', '+')]
        for l in itertools.product(small, repeat=n):
            for m in (0, 4):
                yield dict(q=list(l), b=None, how='length', plan=(), ctype=None, modes=[m], reads=('query', 'params'))
            yield dict(q=None, b=list(l), how='length', plan=(), ctype=CT[0], modes=[0], reads=('forms', 'params'))


def gen_bytes(src):
    """for the coverage-guided fuzzer: bytes -> query string and body"""
    n = src.count(0, 60, 12)
    s = ''.join(src.pick((3, src.choice('&=%+a4fE2')), (1, chr(src.below(256)))) for _ in range(n))
    return dict(qs=s if src.bool(0.6) else '', body=s.encode('latin1') if src.bool(0.6) else None, how='length', plan=(), ctype=src.choice(CT))


def legs(tier):
    return [
        Leg('pairs', run, gen=gen, quick=40000, thorough=1000000, shards=4, hyp=300, need=('repeated', 'blank', 'escaped', 'overlap', 'query', 'body-length', 'body-chunked')),
        Leg('small-scope', run, enum=enum_pairs, quick=0, thorough=0, shards=2, tshards=8, need=('repeated', 'blank', 'escaped')),
        Leg('scale', run, gen=gen_scale, quick=300, thorough=8000, shards=4, hyp=0, cpu=60.0, need=('repeated', 'escaped', 'query', 'body-length', 'body-chunked')),
        Leg('raw', run_raw, gen=gen_raw, quick=40000, thorough=1000000, shards=3, hyp=200, need=('raw',)),
        Leg('raw-enum', run_raw, enum=enum_raw, quick=0, thorough=0, shards=2, tshards=8, need=('raw',)),
        Leg('raw-bytes', run_raw, gen=gen_bytes, quick=6000, thorough=100000, shards=1, hyp=0, fuzz=300000),
    ]
