"""C10 - application objects of one process are independent of each other."""
import random
import threading

from vt.core import Leg
from vt import zoo, sched
from vt.fork import isolated
from checks.c09 import diff

RULE = ('2-3 applications (the default application among them or not, different settings, hooks, error pages) and scripted requests whose handlers, '
        'hooks, error pages and generators also serve requests with the other applications, pass copies of their environ on to them, copy and change '
        'request copies, and construct applications, requests and responses, in between reads of every request attribute and of the whole '
        'response state; legs: "nested" (one thread, several top-level requests to alternating applications), "lazy" (bodies of several '
        'applications iterated alternately on one thread), "threads" (line-level schedules of 2-3 threads). Oracle (differential): everything the handlers read and the complete '
        'response equal those of the same request without those operations on the only application of a thread of its own. '
        'Non-trivial: another application was served or constructed, or a request copied, during a request.')
ASSUMPTIONS = ['a request does not re-enter an application which is already serving on the same thread', 'redirect() is used with the default application only (it is defined on it)',
               'a thread switch happens between lines of the framework or between operations of the handler',
               'routes are registered by one thread at a time (the rule parser is shared; registration is not part of the property)']

SPECIAL = ('call', 'mount', 'newapp', 'copy', 'newcopy')


def strip_ops(ops):
    return [op for op in ops if op[0] not in SPECIAL]


def strip(req):
    r = dict(req, ops=strip_ops(req['ops']), hookops=strip_ops(req['hookops']), errops=strip_ops(req['errops']))
    oc = r['outcome']
    if oc[0] in ('gen', 'genraise', 'genresp'):
        r['outcome'] = (oc[0], oc[1], strip_ops(oc[2]))
    return r


def plain(picture):
    return picture[:-1] + ([x for x in picture[-1] if x[0] not in ('nested', 'mounted', 'copy', 'newcopy')],)


def calls(req):
    """nested calls which may happen"""
    out = [op for ops in (req['hookops'], req['ops'], req['errops']) for op in ops if op[0] == 'call']
    if req['outcome'][0] in ('gen', 'genraise', 'genresp'):
        out += [op for op in req['outcome'][2] if op[0] == 'call']
    return out


def alone(spec, req):
    box = []
    w = zoo.World([spec])
    r = strip(req)
    t = threading.Thread(target=lambda: box.append(w.serve(0, r)))
    t.start()
    t.join()
    return plain(box[0])


def gen_req(src, token, i, specs, busy, depth):
    req = zoo.gen_req(src, token)
    if src.bool(0.6):
        req['path'], req['method'] = src.choice(['/echo', '/a/' + token, '/p/x/' + token]), src.choice(['GET', 'POST'])
    if req['outcome'][0] in ('exit', 'memory'):
        req['outcome'] = ('text', token)
    if specs[i].get('default') and src.bool(0.15):
        req['outcome'] = ('redirect', token)
    n = [0]

    def special():
        n[0] += 1
        others = [j for j in range(len(specs)) if j not in busy and j != i]
        k = src.pick((4 if others and depth else 0, 'call'), (1 if others and depth else 0, 'mount'), (2, 'newapp'), (1, 'copy'), (1, 'newcopy'))
        if k in ('call', 'mount'):
            j = src.choice(others)
            return (k, j, gen_req(src, f'{token}n{n[0]}', j, specs, busy | {i}, depth - 1))
        if k == 'newapp':
            return (k, src.choice(['app', 'bare', 'request', 'response', 'http', 'setup', 'listener']))
        if k == 'copy':
            return (k, [src.pick((2, ('read', src.choice(['path', 'headers', 'query', 'cookies', 'url', 'method', 'env:test.x']))), (1, ('ext', src.choice(['e1', 'e2', 'e3']), 'copied')), (1, ('env', src.choice(['test.x', 'HTTP_X_TOKEN', 'QUERY_STRING']), 'copied')))
                        for _ in range(src.count(0, 3, 1))])
        return (k,)

    def mix(ops, mean):
        ops = [op for op in ops if op[0] not in ('copy', 'newcopy')]
        for _ in range(src.count(0, 3, mean)):
            at = src.int(0, len(ops))
            ops[at:at] = [special()]
        if ops and src.bool(0.6):
            ops.append(('read', src.choice(zoo.READS).replace('@', token)))
            if src.bool():
                ops.append(('resp',))
        return ops
    req['ops'] = mix(req['ops'], 1.2)
    if specs[i]['hooks']:
        req['hookops'] = mix(req['hookops'], 0.4)
    req['errops'] = mix(req['errops'], 0.3)
    oc = req['outcome']
    if oc[0] in ('gen', 'genraise', 'genresp'):
        req['outcome'] = (oc[0], oc[1], mix(list(oc[2]), 0.8))
    return req


def gen_specs(src, n):
    specs = [zoo.gen_spec(src, name='app%d' % i) for i in range(n)]
    if src.bool(0.4):
        specs[src.below(n)]['default'] = True
    return specs


def gen_nested(src):
    specs = gen_specs(src, src.pick((3, 2), (2, 3)))
    tops = []
    for k in range(src.count(1, 4, 2)):
        i = src.below(len(specs))
        tops.append((i, gen_req(src, 'tok%d' % k, i, specs, frozenset(), 2)))
    return dict(specs=specs, tops=tops, before=src.bool(0.3))


def pristine(spec, req):
    return isolated(lambda: plain(zoo.World([spec]).serve(0, strip(req))))


class Want:
    """the reference is served before anything happens in the world (it uses the default application too)"""
    def __init__(self, specs, alone=alone):
        self.specs, self.memo, self.alone = specs, {}, alone

    def prepare(self, i, req):
        self.memo[i, req['token']] = self.alone(self.specs[i], req)
        for op in calls(req):
            self.prepare(op[1], op[2])

    def compare(self, ctx, i, req, got, where):
        want = self.memo[i, req['token']]
        if plain(got) != want:
            ctx.fail(f'{where} application {i}, {req["method"]} {req["path"]!r} {req["outcome"][0]} with {specials(req)}: {diff(plain(got), want)}')
        ops = {op[2]['token']: op for op in calls(req)}
        for x in got[-1]:
            if x[0] == 'nested':
                op = ops[x[2]]
                self.compare(ctx, op[1], op[2], x[1], where + f' nested in application {i}:')


def specials(req):
    return [op[0] for op in req['hookops'] + req['ops'] + req['errops'] + (req['outcome'][2] if req['outcome'][0].startswith('gen') else []) if op[0] in SPECIAL]


def mark(ctx, req, i, depth=0):
    s = specials(req)
    for k in s:
        ctx.tag(k)
    if depth:
        ctx.tag('depth-%d' % depth)
    if s:
        ctx.nontrivial()
    for op in calls(req):
        mark(ctx, op[2], op[1], depth + 1)


def run_nested(case, ctx):
    want = Want(case['specs'])
    for i, req in case['tops']:
        want.prepare(i, req)
        mark(ctx, req, i)
    if len({i for i, _ in case['tops']}) > 1:
        ctx.nontrivial()
    w = zoo.World(case['specs'])
    for i, req in case['tops']:
        if case['before']:
            w.extra_app('app')
            w.extra_app('request')
        want.compare(ctx, i, req, w.serve(i, req), 'on one thread:')


# ---- every reference in a process which never had another application
def run_pristine(case, ctx):
    want = Want(case['specs'], pristine)
    for i, req in case['tops']:
        want.prepare(i, req)
        mark(ctx, req, i)

    def world():
        w = zoo.World(case['specs'])
        out = []
        for i, req in case['tops']:
            if case['before']:
                w.extra_app('app')
            out.append(w.serve(i, req))
        return out
    for (i, req), got in zip(case['tops'], isolated(world)):
        want.compare(ctx, i, req, got, 'on one thread, against a process of its own:')


# ---- bodies of several applications are iterated alternately
def gen_lazy(src):
    specs = gen_specs(src, 2)
    tops = []
    for i in range(2):
        req = gen_req(src, 'tok%d' % i, i, specs, frozenset({0, 1}), 0)
        req['path'], req['method'] = '/echo', 'GET'
        ops = [('read', src.choice(zoo.READS).replace('@', req['token'])) for _ in range(src.int(1, 4))] + [('resp',)]
        req['outcome'] = ('gen', ['a' + req['token']] + ['b', 'c', 'd'][:src.int(1, 3)], ops)
        tops.append((i, req))
    return dict(specs=specs, tops=tops, order=[src.below(2) for _ in range(8)])


def lazy_serve(w, i, req):
    """like World.serve, as a generator which can be suspended between chunks"""
    me = zoo.Running(req, w)
    box = []
    s = zoo.stack()
    s.append(me)
    try:
        out = w.apps[i](zoo.request_env(req), lambda st, h, e=None: box.append((st, list(h))) or (lambda b: None))
    finally:
        s.pop()
    yield
    chunks = []
    it = iter(out)
    err = None
    while True:
        s.append(me)
        try:
            chunks.append(next(it))
        except StopIteration:
            break
        except Exception as e:
            err = zoo.exc(e)
            break
        finally:
            s.pop()
        yield
    s.append(me)
    try:
        if hasattr(out, 'close'):
            out.close()
    finally:
        s.pop()
    yield (box, b''.join(chunks), err, [x for x in me.log if x[0] not in ('copy', 'newcopy')])


def exhaust(g):
    r = None
    for x in g:
        r = x if x is not None else r
    return r


def run_lazy(case, ctx):
    want = []
    for i, req in case['tops']:
        t = threading.Thread(target=lambda: want.append(exhaust(lazy_serve(zoo.World([case['specs'][i]]), 0, strip(req)))))
        t.start()
        t.join()
    w = zoo.World(case['specs'])
    gens = [lazy_serve(w, i, req) for i, req in case['tops']]
    got = [None, None]
    for k in case['order'] + [0] * 9 + [1] * 9:
        x = next(gens[k], None)
        if x is not None:
            got[k] = x
    for k in (0, 1):
        if got[k] != want[k]:
            d = [(a, b) for a, b in zip(got[k][:3], want[k][:3]) if a != b] or [(a, b) for a, b in zip(got[k][3], want[k][3]) if a != b]
            ctx.fail(f'application {k} iterated alternately with another one ({case["order"]}): {repr(d[:1])[:900]}')
    ctx.tag('lazy')
    ctx.nontrivial()


# ---- threads
def gen_threads(src):
    n = src.pick((3, 2), (1, 3))
    specs = gen_specs(src, src.pick((3, 2), (1, 3)))
    tops = []
    for k in range(n):
        i = k % len(specs) if src.bool(0.8) else src.below(len(specs))
        tops.append((i, gen_req(src, 'tok%d' % k, i, specs, frozenset(), src.pick((2, 0), (1, 1)))))
    return dict(specs=specs, tops=tops, seed=src.below(1 << 16), segments=None)


def run_threads(case, ctx):
    want = Want(case['specs'])
    for i, req in case['tops']:
        want.prepare(i, req)
        mark(ctx, req, i)
    ctx.nontrivial()

    def one(segs, count=False):
        w = zoo.World(case['specs'])
        got, steps, stuck = sched.interleave([lambda i=i, r=r: w.serve(i, r) for i, r in case['tops']], segs, count=count, fresh=case['seed'] % 4 == 1)
        ctx.narrow = dict(case, segments=segs)
        for k, ((i, req), g) in enumerate(zip(case['tops'], got)):
            want.compare(ctx, i, req, g, f'thread {k} of schedule {segs}:')
        ctx.narrow = None
        ctx.tag('schedules')
        return steps
    if case['segments'] is not None:
        one(case['segments'])
        return
    rnd = random.Random(case['seed'])
    n = one([], True)
    for _ in range(10):
        segs = []
        for _ in range(rnd.randrange(1, 7)):
            i = rnd.randrange(len(n))
            segs.append((i, rnd.choice([1, 2, 3, 5, rnd.randrange(1, 30), rnd.randrange(1, n[i] + 1), rnd.randrange(1, n[i] + 1)])))
        one(segs)


def legs(tier):
    return [
        Leg('nested', run_nested, gen=gen_nested, quick=6000, thorough=250000, shards=4, hyp=40, need=('call', 'mount', 'newapp', 'copy', 'newcopy', 'depth-2')),
        Leg('pristine', run_pristine, gen=gen_nested, quick=900, thorough=30000, shards=3, hyp=0, need=('call', 'mount', 'newapp')),
        Leg('lazy', run_lazy, gen=gen_lazy, quick=2000, thorough=60000, shards=1, hyp=30, need=('lazy',)),
        Leg('threads', run_threads, gen=gen_threads, quick=1500, thorough=50000, shards=3, hyp=0, cpu=120.0, need=('schedules', 'call', 'newapp')),
    ]
