"""C08 - concurrent requests on one application never see each other."""
import random
import threading

from vt.core import Ctx, HarnessError, Leg, Violation
from vt import zoo, sched
from vt.fork import isolated

RULE = ('case = one application (hooks, error handlers, limits, debug) x 2-3 scripted requests (handlers read every request attribute and write '
        'status, headers, cookies, attributes; bodies of every kind; generators, files, raised / returned / shared responses, crashes, error '
        'pages, undecodable paths) x schedules of their threads at line granularity in the framework and operation granularity in the handler, '
        'run one thread at a time under a tracing scheduler: leg "sweep" takes every attribute a handler can read, every kind of change to the response and every outcome in turn (two requests of one kind with different data everywhere, every single preemption point), leg "one" every single preemption point of either thread, leg "two" every first '
        'point with a random second one, leg "many" random schedules of 2-3 threads with up to 8 switches, on cold or warm threads, on a new application (or the default one) or one that has served before, leg "fine" switches between the instructions of a line, leg "cold" the first requests of a freshly forked process; '
        'oracle (differential): status, header list, body and everything the handler read equal those of the same request served alone on '
        'a fresh application and thread. Non-trivial: some schedule switched threads in the middle of a request.')
ASSUMPTIONS = ['a thread switch happens between lines (leg fine: instructions) of the framework or between operations of the handler, not in the standard library',
               'the scripted handlers keep no state of their own besides module-level response objects which they raise']


def alone(spec, reqs):
    out = []
    for i, r in enumerate(reqs):
        box = []
        w = zoo.World([spec])
        t = threading.Thread(target=lambda: box.append(w.serve(0, r)))
        t.start()
        t.join()
        out.append(box[0])
    return out


def gen_case(src, n, rich=False):
    spec = zoo.gen_spec(src)
    reqs = [zoo.gen_req(src, 'tok%d' % i) for i in range(n)]
    for i, r in enumerate(reqs):
        if rich and src.bool(0.75):        # make sure it arrives in the handler and does something there
            r['path'] = src.choice(['/echo', '/a/tok%d' % i, '/p/x/tok%d' % i, '/r/tok%d' % i, '/r/tok%d' % i])
            r['method'] = src.choice(['GET', 'POST', 'PUT'])
            r['ops'] = r['ops'] + zoo.gen_ops(src, 'tok%d' % i, mean=4)
            if r['raw'] and src.bool(0.25):
                r['framing'] = 'chunked'
    if src.bool(0.6 if rich else 0.3):          # the same kind of request on every thread, different data
        for i in range(1, n):
            reqs[i] = zoo.subst(reqs[0], 'tok0', 'tok%d' % i) if src.bool(0.6) else zoo.variant(src, reqs[0], 'tok%d' % i)
    if src.bool(0.15):
        spec['default'] = True
        for i, r in enumerate(reqs):
            zoo.only_default(src, r, 'tok%d' % i, 0.5)
    warm = zoo.gen_req(src, 'warm') if src.bool(0.3) else None
    if warm and warm['outcome'][0] in ('exit', 'memory'):
        warm['outcome'] = ('text', 'w')
    return dict(spec=spec, reqs=reqs, warm=warm, seed=src.below(1 << 16), segments=None)


def one(ctx, case, want, segments, world=None, count=False):
    reqs = case['reqs']
    w = world or zoo.World([case['spec']])
    pre = (lambda i: w.serve(0, case['warm'])) if case['warm'] else None
    got, steps, stuck = sched.interleave([lambda r=r: w.serve(0, r) for r in reqs], segments, pre, count, fresh=world is not None and case['seed'] % 4 == 1, fine=case.get('fine', False))
    for i, (g, x) in enumerate(zip(got, want)):
        if g != x:
            from checks.c09 import diff
            ctx.narrow = dict(case, segments=segments)
            ctx.fail(f'thread {i} ({reqs[i]["method"]} {reqs[i]["path"]!r} {reqs[i]["outcome"][0]}) under schedule {segments}: {diff(g, x)}')
    ctx.tag('schedules')
    if stuck:
        ctx.tag('stuck')
    if len(segments) > 1:
        ctx.nontrivial()
    return steps


def prepare(ctx, case):
    want = alone(case['spec'], case['reqs'])
    for o, r in zip(want, case['reqs']):
        ctx.tag(str(o[0])[:3])
        ctx.tag(r['outcome'][0])
    return want


def stride(n):
    """every position of an ordinary request; of one that runs through tens of thousands of lines (a long body read
    in tiny pieces), evenly spread ones, so that the cost of a case does not grow with the square of its length"""
    return max(1, n // 1500)


def run_one(case, ctx):
    want = prepare(ctx, case)
    if case['segments'] is not None:
        one(ctx, case, want, case['segments'])
        return
    n = one(ctx, case, want, [], count=True)
    world = zoo.World([case['spec']]) if case['seed'] % 2 else None
    for a in range(len(n)) if not case.get('first') else (0,):
        step = stride(n[a])
        for k in range(1 + case['seed'] // 8 % step, n[a], step):
            one(ctx, case, want, [(a, k)] + [(b, sched.ALL) for b in range(len(n)) if b != a], world)


def run_two(case, ctx):
    want = prepare(ctx, case)
    if case['segments'] is not None:
        one(ctx, case, want, case['segments'])
        return
    rnd = random.Random(case['seed'])
    n = one(ctx, case, want, [], count=True)
    world = zoo.World([case['spec']]) if case['seed'] % 2 else None
    for a in (0, 1):
        step = 2 * stride(n[a])
        for k in range(1, n[a], step):
            k += rnd.randrange(step)
            one(ctx, case, want, [(a, k), (1 - a, rnd.randrange(1, n[1 - a] + 1)), (a, sched.ALL)], world)


# ---- every attribute and every kind of outcome in turn, two requests of the same kind with everything in them
def enum_sweep(tier):
    spec = dict(debug=False, errors=0, hooks=False, memfile=4096, maxbody=None, domain=False, name='', errmap=0, xscript=True, nocatch=False)
    todo = zoo.kinds(spec)
    for i, kw in enumerate(todo):
        s = kw.pop('spec', spec)
        yield dict(spec=s, reqs=[zoo.loaded(j, **kw) for j in (0, 1)], warm=None, seed=i * 8, segments=None, first=tier == 'quick')
        if tier == 'thorough':
            yield dict(spec=dict(s, hooks=True, errors=1), reqs=[zoo.loaded(j, **kw) for j in (0, 1)], warm=zoo.loaded(2, **kw) if i % 2 else None, seed=i * 8 + 1, segments=None)


# ---- switches between the instructions of one line
def gen_fine(src):
    return dict(gen_case(src, 2, True), fine=True)


def run_fine(case, ctx):
    """in a child process: tracing by instruction can crash this CPython (3.12), which must not end the run"""
    def go():
        rec = Ctx(ctx.tier, ctx.scratch)
        try:
            fine(case, rec)
        except Violation as v:
            return rec.tags, str(v), rec.narrow
        return rec.tags, None, None
    try:
        tags, msg, narrow = isolated(go, 100)
    except HarnessError:
        ctx.tag('tracer-crash')
        return
    for t, n in tags.items():
        ctx.tag(t, n)
    if msg is not None:
        ctx.narrow = narrow
        ctx.fail(msg)
    ctx.nontrivial()


def fine(case, ctx):
    want = prepare(ctx, case)
    if case['segments'] is not None:
        one(ctx, case, want, case['segments'])
        return
    rnd = random.Random(case['seed'])
    n = one(ctx, case, want, [], count=True)
    if not all(n):
        ctx.tag('uncounted')
    world = zoo.World([case['spec']]) if case['seed'] % 2 else None
    for _ in range(40):
        a = rnd.randrange(2)
        k = rnd.randrange(1, max(2, n[a]))
        segs = [(a, k), (1 - a, sched.ALL)] if rnd.random() < 0.4 else [(a, k), (1 - a, rnd.randrange(1, max(2, n[1 - a] + 1))), (a, sched.ALL)]
        one(ctx, case, want, segs, world)


# ---- the very first requests of a process: every schedule in a freshly forked process
def gen_cold(src):
    case = dict(gen_case(src, 2, True), warm=None)
    if src.bool(0.4):                    # framework pages and refused bodies need something of their own
        for i, r in enumerate(case['reqs']):
            if i and src.bool(0.7):
                continue
            r['path'] = src.choice(['/missing/', '/only-post', '/echo']) + r['token']
    return case


def run_cold(case, ctx):
    reqs = case['reqs']
    want = [isolated(lambda: zoo.World([case['spec']]).serve(0, r)) for r in reqs]

    def go(segs, count=False):
        w = zoo.World([case['spec']])
        return sched.interleave([lambda r=r: w.serve(0, r) for r in reqs], segs, count=count)
    if case['segments'] is not None:
        plans = [case['segments']]
    else:
        n = isolated(lambda: go([], True)[1])
        rnd = random.Random(case['seed'])
        plans = []
        for _ in range(10 if ctx.tier == 'quick' else 40):
            a = rnd.randrange(2)
            k = rnd.randrange(1, max(2, n[a]))
            plans.append([(a, k), (1 - a, sched.ALL)] if rnd.random() < 0.5 else [(a, k), (1 - a, rnd.randrange(1, n[1 - a] + 1)), (a, sched.ALL)])
    for segs in plans:
        got, _, stuck = isolated(lambda: go(segs))
        for i, (g, x) in enumerate(zip(got, want)):
            if g != x:
                from checks.c09 import diff
                ctx.narrow = dict(case, segments=segs)
                ctx.fail(f'thread {i} ({reqs[i]["method"]} {reqs[i]["path"]!r} {reqs[i]["outcome"][0]}), first requests of a process, under schedule {segs}: {diff(g, x)}')
        ctx.tag('schedules')
    ctx.tag(str(want[0][0])[:3])
    ctx.nontrivial()


def gen_many(src):
    return gen_case(src, src.pick((1, 2), (2, 3)))


def run_many(case, ctx):
    want = prepare(ctx, case)
    if case['segments'] is not None:
        one(ctx, case, want, case['segments'])
        return
    rnd = random.Random(case['seed'])
    n = one(ctx, case, want, [], count=True)
    for _ in range(6):
        segs = []
        for _ in range(rnd.randrange(2, 9)):
            i = rnd.randrange(len(n))
            segs.append((i, rnd.choice([1, 2, 3, 5, rnd.randrange(1, 30), rnd.randrange(1, n[i] + 1), rnd.randrange(1, n[i] + 1)])))
        one(ctx, case, want, segs)


def legs(tier):
    need = ('200', '404', '500', 'shared', 'raise', 'crash', 'gen')
    return [
        Leg('sweep', run_one, enum=enum_sweep, shards=16, tshards=16, cpu=120.0, need=('200', '404', '405', '500', '418')),
        Leg('one', run_one, gen=lambda s: gen_case(s, 2, True), quick=48, thorough=1600, shards=3, tshards=5, hyp=0, cpu=120.0, need=need),
        Leg('two', run_two, gen=lambda s: gen_case(s, 2, True), quick=60, thorough=2400, shards=3, tshards=5, hyp=0, cpu=120.0, need=need),
        Leg('fine', run_fine, gen=gen_fine, quick=100, thorough=2500, shards=2, tshards=4, hyp=0, cpu=120.0, need=need),
        Leg('cold', run_cold, gen=gen_cold, quick=300, thorough=6000, shards=2, tshards=4, hyp=0, cpu=120.0, need=('200', '404', '500')),
        Leg('many', run_many, gen=gen_many, quick=1200, thorough=40000, shards=2, tshards=6, hyp=0, cpu=120.0, need=need + ('400', '405', '413', '418', 'file', 'badhdr')),
    ]
