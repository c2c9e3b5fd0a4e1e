"""C09 - each response depends on its own request only; retained state is bounded."""
import gc
import sys
import weakref

from vt.core import Leg, Violation
from vt import zoo, wsgi
from vt.fork import isolated

RULE = ('histories of scripted requests (handlers read every request attribute and set status, headers, cookies, attributes; outcomes: text, '
        'generators, files, raised / returned / shared responses, crashes, 404 / 405, undecodable paths, malformed, oversized and truncated bodies, '
        'SystemExit / MemoryError; hooks and error handlers) through one application on one thread; oracle (differential): the complete '
        'response and everything the handler saw equal those of the same request on a fresh application, and (leg pristine) on a fresh application in a freshly forked process that never served a request. Retention: after N and 2N such '
        'requests with unique content, weakly referenced request markers alive <= 8 and no growth of tracked objects / allocated blocks '
        'per request. Non-trivial: at least two requests were served.')
ASSUMPTIONS = ['hash-randomisation, memory addresses and time do not occur in the scripted handlers', 'caches bounded by 6000 entries count as constant',
               'a handler that itself keeps an exception or request is not part of the property', 'redirect() reads the default application: checked there against a model']


def gen_default(src):
    case = gen(src)
    case['spec']['default'] = True
    for r in case['reqs']:
        zoo.only_default(src, r, r['token'], 0.5)
        if src.bool(0.5):
            r['path'] = src.choice(['/echo', '/a/' + r['token']])
    return case


def gen(src):
    spec = zoo.gen_spec(src)
    n = src.count(2, 8, 4)
    reqs = []
    for i in range(n):
        if reqs and src.bool(0.4):
            reqs.append(src.pick((1, src.choice(reqs)), (2, zoo.variant(src, src.choice(reqs), 'tok%d' % i)), (1, zoo.variant(src, reqs[-1], 'tok%d' % i))))
        else:
            reqs.append(zoo.gen_req(src, 'tok%d' % i))
    return dict(spec=spec, reqs=reqs)


def diff(a, b):
    names = ['status', 'headers', 'body', 'escaped', 'iteration error', 'log']
    if len(a) != len(b):
        return f'{a!r} != {b!r}'
    for n, x, y in zip(names, a, b):
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                for i in range(max(len(x), len(y))):
                    p, q = (x[i] if i < len(x) else '-'), (y[i] if i < len(y) else '-')
                    if p != q:
                        return f'{n}[{i}] is {repr(p)[:700]}, alone it is {repr(q)[:700]}'
            return f'{n} is {repr(x)[:700]}, alone it is {repr(y)[:700]}'
    return ''


def run(case, ctx):
    w = zoo.World([case['spec']])
    for i, req in enumerate(case['reqs']):
        got = w.serve(0, req)
        want = zoo.World([case['spec']]).serve(0, req)
        if got != want:
            ctx.fail(f'request {i} ({req["method"]} {req["path"]!r} after {[(r["method"], r["path"], r["outcome"][0]) for r in case["reqs"][:i]]}): {diff(got, want)}')
        ctx.tag('status-%s' % str(got[0])[:3])
        ctx.tag(req['outcome'][0] if got[-1] and any(x[0] == 'args' for x in got[-1]) else 'no-handler')
    ctx.nontrivial()


# ---- the same with the reference served in a pristine process (nothing was ever served in the parent)
def run_pristine(case, ctx):
    def history():
        w = zoo.World([case['spec']])
        return [w.serve(0, r) for r in case['reqs']]
    got = isolated(history)
    for i, req in enumerate(case['reqs']):
        want = isolated(lambda: zoo.World([case['spec']]).serve(0, req))
        if got[i] != want:
            ctx.fail(f'request {i} ({req["method"]} {req["path"]!r} after {[(r["method"], r["path"], r["outcome"][0]) for r in case["reqs"][:i]]}), against a fresh process: {diff(got[i], want)}')
        if req['outcome'][0] in ('static', 'redirect') and any(x[0] == 'args' for x in want[-1]):
            ctx.tag(f'{req["outcome"][0]}-{want[0][:3]}')
    ctx.nontrivial()


# ---- every kind of request behind every kind of request
BASE = dict(debug=False, errors=0, hooks=False, memfile=256, maxbody=None, domain=False, name='app', errmap=0, xscript=True, nocatch=False)
_kinds, _want = [], {}


def all_kinds():
    if not _kinds:
        for kw in zoo.kinds(BASE) + zoo.more_kinds(BASE):
            kw = dict(kw)
            spec = kw.pop('spec', BASE)
            _kinds.append((spec, kw))
    return _kinds


def enum_pairs(tier):
    n = len(all_kinds())
    for a in range(n):
        yield dict(first=a, then=list(range(n)) if tier == 'thorough' else [b for b in range(n) if (b * 7 + a) % 4 == 0], n=n)


def run_pairs(case, ctx):
    kinds = all_kinds()
    if case['n'] != len(kinds):
        return
    sa, ka = kinds[case['first']]
    worlds = {}
    for b in case['then']:
        sb, kb = kinds[b]
        spec = sb if sb is not BASE else sa      # both on one application
        worlds.setdefault(repr(spec), (spec, []))[1].append(b)
    reqa = zoo.loaded(0, **ka)
    for key, (spec, bs) in worlds.items():
        def pairs():
            """the first request once, each second request in a child of its own"""
            w = zoo.World([spec])
            w.serve(0, reqa)
            return [isolated(lambda: w.serve(0, zoo.loaded(1, **kinds[b][1]))) for b in bs]
        for b, got in zip(bs, isolated(pairs, 300)):
            req = zoo.loaded(1, **kinds[b][1])
            if (key, b) not in _want:
                _want[key, b] = isolated(lambda: zoo.World([spec]).serve(0, req))
            want = _want[key, b]
            if got != want:
                ctx.narrow = dict(case, then=[b])
                ctx.fail(f'{req["method"]} {req["path"]!r} {kinds[b][1]} after one request {ka}: {diff(got, want)}')
            ctx.tag('pairs')
            ctx.tag('status-%s' % str(got[0])[:3])
    ctx.nontrivial()


# ---- retention
class Marker:
    pass


class Keeper(wsgi.Stream):
    pass


def gen_keep(src):
    spec = zoo.gen_spec(src)
    reqs = [zoo.gen_req(src, '@@') for _ in range(src.pick((3, 1), (2, 2), (1, 4)))]
    spec['default'] = src.bool(0.25)
    for r in reqs:
        r['outcome'] = ('text', 'x@@') if r['outcome'][0] == 'memory' else r['outcome']
        if spec['default']:
            zoo.only_default(src, r, '@@', 0.6)
        if src.bool(0.4):                # numbers and dates, new ones each time
            h = r['headers']
            h[src.choice(['Range', 'If-Modified-Since', 'If-Modified-Since', 'Content-Range'])] = src.choice(['bytes=0-##', 'bytes=##-', 'Sun, 13 Sep ## 12:26:40 GMT', 'Sunday, 13-Sep-09 12:26:40 +##'])
            if src.bool():
                r['path'] = src.choice(['/n/##/@@-##.5', '/r/tok##', '/r/@@/w##', '/a/##'])
            if src.bool(0.3):
                r['qs'] = src.choice(['##=##', 'q=##&q=##', '##'])
    return dict(spec=spec, reqs=reqs)


def subst(x, t):
    if isinstance(x, str):
        return x.replace('@@', t).replace('##', t[1:].lstrip('0'))
    if isinstance(x, bytes):
        return x.replace(b'@@', t.encode()).replace(b'##', t[1:].lstrip('0').encode())
    if isinstance(x, (list, tuple)):
        return type(x)(subst(i, t) for i in x)
    if isinstance(x, dict):
        return {subst(k, t): subst(v, t) for k, v in x.items()}
    return x


def run_keep(case, ctx):
    w = zoo.World([case['spec']])
    alive = []
    count = [0]

    def serve_many(n):
        for _ in range(n):
            count[0] += 1
            k = count[0]
            req = subst(case['reqs'][k % len(case['reqs'])], 'u%07d' % k)
            env = zoo.request_env(req)
            env['wsgi.input'].__class__ = Keeper
            m = Marker()
            env['test.marker'] = m
            alive.append(weakref.ref(m))
            alive.append(weakref.ref(env['wsgi.input']))
            w.serve(0, req, env)
        del m, env, req

    def measure():
        gc.collect()
        alive[:] = [r for r in alive if r() is not None]
        n = len(alive)
        if n > 8:
            ctx.fail(f'{n} request markers / input streams are alive after {count[0]} requests: {[(r["method"], r["path"], r["outcome"][0]) for r in case["reqs"]]}')
        return len(gc.get_objects()), sys.getallocatedblocks()
    n = 150
    for warm in (300, 1500, 6000):
        serve_many(warm)
        o1, b1 = measure()
        serve_many(n)
        o2, b2 = measure()
        serve_many(n)
        o3, b3 = measure()
        grow_o, grow_b = min(o3 - o2, o2 - o1), min(b3 - b2, b2 - b1)
        if grow_o < n // 6 and grow_b < n // 6:
            break
    else:
        ctx.fail(f'{grow_o} objects / {grow_b} memory blocks are added by {n} requests (after {count[0]}): {[(r["method"], r["path"], r["outcome"]) for r in case["reqs"]]}')
    ctx.tag('warm-%d' % warm)
    if any(r['outcome'][0] == 'static' for r in case['reqs']):
        ctx.tag('static-outcome')
    ctx.nontrivial()


# ---- responses late in a long history
def gen_long(src):
    case = gen_keep(src)
    more = [zoo.gen_req(src, '@@') for _ in range(src.int(1, 5))]
    if case['spec']['default']:
        for r in more:
            zoo.only_default(src, r, '@@', 0.6)
    case['reqs'] += more
    case['n'] = src.choice([70, 140, 270, 530, 1100])
    case['same'] = src.bool(0.3)           # the same requests again and again
    case['step'] = src.int(3, 11)
    return case


def run_long(case, ctx):
    w = zoo.World([case['spec']])
    reqs, m = case['reqs'], len(case['reqs'])
    for k in range(1, case['n'] + 1):
        req = subst(reqs[k % m], 'u%07d' % (k % m if case['same'] else k))
        got = w.serve(0, req)
        if k % case['step'] == 0 or k & (k - 1) < 3 or k > case['n'] - m:
            # the same on a fresh application
            want = zoo.World([case['spec']]).serve(0, req)
            if got != want:
                ctx.fail(f'request {k} ({req["method"]} {req["path"]!r} after {k - 1} requests like {[(r["method"], r["path"], r["outcome"][0]) for r in reqs]}): {diff(got, want)}')
            ctx.tag('compared')
    ctx.tag('n-%d' % case['n'])
    ctx.nontrivial()


# ---- redirect() on the default application
def gen_redir(src):
    steps = []
    for i in range(src.count(2, 7, 4)):
        t = 'tok%d' % i
        steps.append(dict(token=t, kind=src.pick((3, 'redirect'), (2, 'plain'), (1, 'crash'), (1, '404'), (1, 'undecodable'), (1, 'abort')), headers=[(src.choice(['X-A', 'X-B']), t + str(j)) for j in range(src.count(0, 3, 1))],
                          cookies=[(src.choice(['c1', 'c2']), t + str(j)) for j in range(src.count(0, 3, 1))], proto=src.choice(['HTTP/1.1', 'HTTP/1.0']), code=src.pick((3, None), (1, 307), (1, 301))))
    return dict(steps=steps)


def run_redir(case, ctx):
    import ombott
    app = ombott.default_app()
    cur = []

    def h():
        s = cur[0]
        for n, v in s['headers']:
            ombott.response.headers.append(n, v)
        for n, v in s['cookies']:
            ombott.response.set_cookie(n, v)
        if s['kind'] == 'redirect':
            ombott.redirect('/to/' + s['token'], *([s['code']] if s['code'] else []))
        if s['kind'] == 'crash':
            raise ValueError(s['token'])
        if s['kind'] == 'abort':
            ombott.abort(409, s['token'])
        return s['token']
    app.route('/r09', callback=h, overwrite=True)
    try:
        for i, s in enumerate(case['steps']):
            cur[:] = [s]
            path = {'404': '/nope', 'undecodable': b'/\xfe'}.get(s['kind'], '/r09')
            res = wsgi.call(app, wsgi.environ('GET', path, headers={'Host': s['token'] + '.example'}, proto=s['proto']))
            what = lambda: f'step {i} of {case["steps"]}: {res}'   # noqa
            want = {'redirect': s['code'] or (303 if s['proto'] == 'HTTP/1.1' else 302), 'plain': 200, 'crash': 500, '404': 404, 'undecodable': 400, 'abort': 409}[s['kind']]
            ctx.check(res.code == want, what)
            served = s['kind'] not in ('404', 'undecodable')
            cookies = dict(s['cookies']) if served else {}
            ctx.check(sorted(res.all('Set-Cookie')) == sorted(f'{k}={v}' for k, v in cookies.items()), lambda: 'cookies of ' + what())
            if s['kind'] in ('redirect', 'plain'):
                for n in ('X-A', 'X-B'):
                    ctx.check(res.all(n) == [v for k, v in s['headers'] if k == n], lambda: f'{n} of ' + what())
            if s['kind'] == 'redirect':
                ctx.check(res.header('Location') == f'http://{s["token"]}.example/to/{s["token"]}', lambda: 'location of ' + what())
                ctx.tag('redirect')
            others = {t['token'] for t in case['steps']} - {s['token']}
            text = repr(res.headers) + res.body.decode('utf8')
            for t in others:
                ctx.check(t not in text, lambda: f'{t} appears in ' + what())
    finally:
        app.remove_route('/r09')
    ctx.nontrivial()


def legs(tier):
    return [
        Leg('histories', run, gen=gen, quick=20000, thorough=300000, shards=5, hyp=60,
            need=('status-200', 'status-400', 'status-404', 'status-405', 'status-413', 'status-418', 'status-500', 'shared', 'crash', 'gen', 'exit', 'memory', 'badhdr', 'raise', 'file')),
        Leg('pristine', run_pristine, gen=gen, quick=1500, thorough=20000, shards=3, hyp=0),
        Leg('default', run_pristine, gen=gen_default, quick=500, thorough=10000, shards=2, hyp=0, need=('static-200', 'static-206', 'static-304', 'static-404', 'static-403', 'static-416', 'redirect-303')),
        Leg('pairs', run_pairs, enum=enum_pairs, shards=4, tshards=8, cpu=300.0, need=('pairs', 'status-200', 'status-400', 'status-404', 'status-500', 'status-206', 'status-303')),
        Leg('retention', run_keep, gen=gen_keep, quick=240, thorough=6000, shards=5, hyp=0, cpu=120.0, need=('warm-300', 'static-outcome')),
        Leg('long', run_long, gen=gen_long, quick=200, thorough=6000, shards=4, hyp=0, cpu=120.0, need=('compared', 'n-1100')),
        Leg('redirects', run_redir, gen=gen_redir, quick=1500, thorough=50000, shards=1, hyp=30, need=('redirect',)),
    ]
