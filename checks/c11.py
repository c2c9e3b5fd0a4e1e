"""C11 - the router after any edit history equals a freshly built one."""
import io
import itertools
import random

from vt.core import Leg, HarnessError
from vt import rules as R

RULE = ('case = a history of route registrations (accepted and rejected: clashing methods, names, wildcard filters, malformed rules), removals by rule, '
        'name, Route object and prefix wildcard, hook and 404-hook installations and removals over related rules; after it every path of a '
        'list (aimed at present and removed rules, then disturbed) is requested. Oracles: (1) an application freshly built, in another order, '
        'from what a plain dictionary model says has survived: same responses, same hooks with the same prefixes, same name and rule lookups, '
        'same acceptance of every operation; (2) the rule-by-rule reference matcher plus "a hook fires iff its rule is a prefix of the matched rule, '
        'outermost first, with the matched path prefix". Legs: random histories; small scope: all histories of 3 (thorough: 4) operations over '
        'two fixed universes. Non-trivial: something was removed or rejected and something survived, or a hook fired.')
ASSUMPTIONS = ['hooks under a prefix removed by wildcard are unspecified until they are set or removed again', 'a rule extends another if its text does (wildcards count as equal marks), as documented for the radix tree',
               'removal by a stale Route object, and edits of a Route object itself, are not part of the histories', 'rules ending in / are dead (finding of C01) and not generated']


def pkey(rule):
    return R.pattern_key(rule)


def is_prefix(p, k):
    return k[:len(p)] == p


class Model:
    def __init__(self):
        self.routes = {}      # key -> {'rule': first rule, 'methods': {M: (hid, rule, style)}}
        self.names = {}       # name -> key
        self.hooks = {}       # key -> {'rule':, 'style':, slots: [hid|None, hid|None]}
        self.unknown = {}     # key -> [simple, partial] hooks in an unspecified state

    def apply(self, i, op):
        k = op[0]
        if k == 'add':
            _, rule, style, ms, name, ow = op
            r = self.routes.setdefault(pkey(rule), dict(rule=rule, style=style, methods={}))
            for m in ms:
                r['methods'][m.upper()] = (i, rule, style)
            if name:
                self.names[name] = pkey(rule)
        elif k in ('rm', 'rmroute'):
            self.drop([pkey(op[1])])
        elif k == 'rmname':
            self.drop([self.names[op[1]]])
        elif k == 'rmwild':
            p = wild_key(op)
            self.drop([x for x in self.routes if is_prefix(p, x)])
            for x in [x for x in self.hooks if is_prefix(p, x)]:
                old = self.unknown.get(x, [None, None])
                self.unknown[x] = [a if a is not None else b for a, b in zip(self.hooks.pop(x)['slots'], old)]
        elif k == 'hook':
            key = pkey(op[1])
            h = self.hooks.setdefault(key, dict(rule=op[1], style=op[2], slots=[None, None]))
            h['slots'][op[3]] = i
            if key in self.unknown:
                self.unknown[key][op[3]] = None
                if self.unknown[key] == [None, None]:
                    del self.unknown[key]
        elif k == 'unhook':
            self.hooks.pop(pkey(op[1]), None)
            self.unknown.pop(pkey(op[1]), None)

    def drop(self, keys):
        for x in keys:
            self.routes.pop(x, None)
        self.names = {n: x for n, x in self.names.items() if x in self.routes}


def wild_key(op):
    return pkey(op[1]) + (('c', '/'),) * op[2]


class Side:
    """an application with its call log"""
    def __init__(self, same=False):
        from ombott import Ombott
        self.app = Ombott()
        self.log = []
        self.one = None
        if same:                    # one function for all the hooks of the application
            def one(prefix, params=None):
                self.log.append(('hook', 0, prefix) if params is None else ('404-hook', 0, prefix, list(params)))
                return 'partial'
            self.one = one

    def handler(self, i):
        def handler(**kw):
            self.log.append(('handler', i, kw))
            return 'h%d' % i
        return handler

    def hook(self, i, kind):
        if self.one:
            return self.one
        if kind == 0:
            def hook(prefix):
                self.log.append(('hook', i, prefix))
        else:
            def hook(prefix, params):
                self.log.append(('404-hook', i, prefix, list(params)))
                return 'partial'
        return hook

    def do(self, i, op):
        """apply; answers None or the exception which rejected it"""
        app = self.app
        k = op[0]
        try:
            if k == 'add':
                _, rule, style, ms, name, ow = op
                app.route(R.spell(rule, style), ms if len(ms) > 1 else ms[0], self.handler(i), name=name, overwrite=ow)
            elif k == 'bad':
                if op[2]:
                    app.on_route(op[1], self.hook(i, 0))
                else:
                    app.route(op[1], 'GET', self.handler(i))
            elif k == 'rm':
                app.remove_route(R.spell(op[1], op[2]))
            elif k == 'rmroute':
                r = app.router[{'rule': R.spell(op[1], op[2])}]
                if r is None:
                    return LookupError('no such route')
                app.remove_route(r)
            elif k == 'rmname':
                app.remove_route(name=op[1])
            elif k == 'rmwild':
                app.remove_route(R.spell(op[1], [2]) + '/' * op[2] + '*')
            elif k == 'hook':
                if op[3]:
                    app.error(404, R.spell(op[1], op[2]))(self.hook(i, 1))
                else:
                    app.on_route(R.spell(op[1], op[2]), self.hook(i, 0))
            elif k == 'unhook':
                app.remove_route_hook(R.spell(op[1], op[2]))
            else:
                raise HarnessError(k)
        except HarnessError:
            raise
        except Exception as e:
            return e

    def get(self, method, path):
        self.log = []
        box = []
        env = {'REQUEST_METHOD': method, 'PATH_INFO': path.encode('utf8').decode('latin1'), 'QUERY_STRING': '', 'SERVER_NAME': 'h', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
               'wsgi.input': io.BytesIO(), 'wsgi.errors': io.StringIO(), 'wsgi.url_scheme': 'http'}
        body = b''.join(self.app(env, lambda s, h, e=None: box.append((s, h))))
        st = box[0][0][:3]
        allow = sorted(v for n, v in box[0][1] if n.lower() == 'allow')
        return st, allow, body if st == '200' else b'', self.log


def fresh(model, seed, same=False):
    s = Side(same)
    rnd = random.Random(seed)
    todo = []
    for key, r in model.routes.items():
        ms = [(m,) + v for m, v in r['methods'].items()]
        rnd.shuffle(ms)
        names = [n for n, k in model.names.items() if k == key]
        for j, (m, i, rule, style) in enumerate(ms):
            todo.append((i, ('add', rule, style, [m], names[j] if j < len(names) else None, False)))
        todo += [(ms[0][1], ('add', ms[0][2], ms[0][3], [ms[0][0]], n, True)) for n in names[len(ms):]]
    rnd.shuffle(todo)
    todo.sort(key=lambda t: t[1][5])         # overwriting ones (additional names) last
    hooks = []
    for key, h in model.hooks.items():
        hooks += [(i, ('hook', h['rule'], h['style'], kind)) for kind, i in enumerate(h['slots']) if i is not None]
    rnd.shuffle(hooks)
    if rnd.random() < 0.5:
        todo, hooks = hooks, todo
    for i, op in todo + hooks:
        e = s.do(i, op)
        if e is not None:
            raise AssertionError(f'a fresh application does not accept {describe(i, op)}: {type(e).__name__} {e}')
    return s


def text(rule, style):
    return R.spell(rule, style)


def describe(i, op):
    k = op[0]
    if k == 'add':
        return f'{i}: add {text(op[1], op[2])} {op[3]}' + (f' name={op[4]}' if op[4] else '') + (' overwrite' if op[5] else '')
    if k in ('rm', 'rmroute'):
        return f'{i}: {k} {text(op[1], op[2])}'
    if k == 'rmwild':
        return f'{i}: rm {text(op[1], [2])}{"/" * op[2]}*'
    if k == 'hook':
        return f'{i}: {"404-" if op[3] else ""}hook {text(op[1], op[2])}'
    if k == 'unhook':
        return f'{i}: unhook {text(op[1], op[2])}'
    return f'{i}: {op[0]} {op[1]}'


def story(case, n=None):
    return '; '.join(describe(i, op) for i, op in enumerate(case['ops'][:n]))


def expect(model, method, path):
    """independent expectation: (status, allow, log of hooks and handler) - None for what is left open"""
    p = path.strip('/')
    keys = list(model.routes)
    sel = R.select([model.routes[k]['rule'] for k in keys], p)
    if sel is None:
        return '404', None, None
    key = keys[sel[0]]
    r = model.routes[key]
    m = method if method in r['methods'] else 'ANY' if 'ANY' in r['methods'] else None
    if m is None:
        return '405', sorted(r['methods']), []
    i, rule, style = r['methods'][m]
    log = []
    for hk in sorted((h for h in model.hooks if is_prefix(h, key)), key=len):
        hid = model.hooks[hk]['slots'][0]
        if hid is not None:
            log.append(('hook', hid, '/' + p[:span(r['rule'], sel[1], len(hk))]))
    names = [s[1] for s in rule if s[0] == 'wild']
    log.append(('handler', i, {n: b[1] for n, b in zip(names, sel[1]) if n}))
    return '200', None, log


def span(rule, binding, ntok):
    """length of the text matched by the first ntok tokens of the rule"""
    n, w = 0, 0
    for t in R.tokens(rule)[:ntok]:
        if t[0] == 'c':
            n += 1
        elif t[0] == 'W':
            n += len(binding[w][2])
            w += 1
    return n


def known(model, log, unknown_ids):
    return [x for x in log if not (x[0] == 'hook' and x[1] in unknown_ids)]


def compare(ctx, case, real, model, paths, names, n=None):
    same = case.get('same', False)
    new = fresh(model, case['seed'], same)
    unknown_ids = {i for slots in model.unknown.values() for i in slots}
    fired = False
    for method, path in paths:
        got = real.get(method, path)
        ref = new.get(method, path)
        st, allow, log = expect(model, method, path)
        if log is not None and same:
            log = None if model.unknown else [('hook', 0, x[2]) if x[0] == 'hook' else x for x in log]
            ctx.tag('same-function')
        what = lambda: f'{method} {path!r} after [{story(case, n)}]: {got[0]} {got[1]} {got[3]}'   # noqa
        ctx.check(got[0] in (st, '200') if st == '404' else got[0] == st, lambda: f'{what()}, by the surviving rules it is {st} {log}')
        if st == '404':
            ctx.check(not any(x[0] in ('handler', 'hook') for x in got[3]), lambda: f'{what()}: no surviving rule matches')
        if log is not None:
            ctx.check(known(model, got[3], unknown_ids) == log, lambda: f'{what()}, by the surviving rules it is {st} {log}')
            fired = fired or any(x[0] == 'hook' for x in log)
        if allow is not None:
            ctx.check(got[1] == [','.join(allow)] or sorted(got[1][0].replace(' ', '').split(',')) == allow, lambda: f'{what()}, Allow should be {allow}')
        if not model.unknown:
            ctx.check(got == ref, lambda: f'{what()}, a fresh application answers {ref}')
        if st == '404' and got[3]:
            ctx.tag('404-hook')
        ctx.tag(st)
    if fired:
        ctx.tag('hook-fired')
        ctx.nontrivial()

    def picture(route):
        return None if route is None else (route.pattern, sorted((m, v.handler.__code__.co_name) for m, v in route.methods.items()))
    rr, nr = real.app.router, new.app.router
    told = lambda: f'after [{story(case, n)}]'   # noqa
    for nm in names:
        a, b = rr[nm], nr[nm]
        ctx.check((a is not None) == (nm in model.names), lambda: f'lookup of name {nm!r} gives {a!r} {told()}, surviving names: {sorted(model.names)}')
        ctx.check(picture(a) == picture(b), lambda: f'name {nm!r} is {picture(a)} {told()}, fresh: {picture(b)}')
    for op in case['ops'][:n]:
        if op[0] in ('add', 'rm', 'hook'):
            t = R.spell(op[1], op[2])
            a, b = rr[{t}], nr[{t}]
            ctx.check(picture(a) == picture(b) or model.unknown and (a is None) != (pkey(op[1]) in model.routes), lambda: f'rule {t!r} is {picture(a)} {told()}, fresh: {picture(b)}')
            for rule, txt in [(op[1], t)] + near(op[1], op[2]):
                # by rule: the route of exactly this rule, or nothing
                a_ = rr[{txt}]
                have = model.routes.get(pkey(rule))
                if have and filters(have['rule']) != filters(rule):
                    continue                             # the same places, other filters: a rule of its own, which was refused
                ctx.check(model.unknown or (a_ is not None) == (have is not None), lambda: f'lookup of rule {txt!r} gives {picture(a_)} {told()}, surviving rules: {[R.spell(r["rule"], r["style"]) for r in model.routes.values()]}')
            for nm, k in model.names.items():
                if a is not None and k == pkey(op[1]):
                    ctx.check(rr[nm] is a, lambda: f'name {nm!r} and rule {t!r} are different routes {told()}')
    ctx.check(sorted(map(picture, rr.routes.values())) == sorted(map(picture, nr.routes.values())), lambda: f'routes {sorted(rr.routes)} {told()}, fresh: {sorted(nr.routes)}')


def filters(rule):
    return [list(s[2:]) for s in rule if s[0] == 'wild']


def near(rule, style):
    """the same rule with and without an end slash, and with another end"""
    if not rule or rule[-1][0] != 'lit':
        return []
    head, text_ = list(rule[:-1]), rule[-1][1]
    out = [head + [('lit', text_ + x)] for x in '/q']
    if len(text_) > 1:
        out.append(head + [('lit', text_[:-1])])
    return [(r, R.spell(r, style)) for r in out]


def removal_kind(op):
    return op[0] in ('rm', 'rmroute', 'rmname', 'rmwild', 'unhook')


def step(ctx, case, real, model, i, op, new=None):
    """apply to the real application; acceptance is compared with a fresh one"""
    e = real.do(i, op)
    if new is not None:
        f = new.do(i, op)
        same = (e is None) == (f is None)
        if not same and not (model.unknown and f is None):
            ctx.fail(f'{describe(i, op)} after [{story(case, i)}] is {"accepted" if e is None else "rejected: %s %s" % (type(e).__name__, str(e)[:200])}, '
                     f'by a fresh application it is {"accepted" if f is None else "rejected: %s %s" % (type(f).__name__, str(f)[:200])}')
    if op[0] == 'rm' or op[0] == 'rmwild' or op[0] == 'unhook':
        ctx.check(e is None, lambda: f'{describe(i, op)} after [{story(case, i)}] raised {type(e).__name__}: {e}')
    if e is None:
        ctx.check(op[0] != 'bad', lambda: f'{describe(i, op)} is accepted')
        model.apply(i, op)
    return e


def run(case, ctx):
    same = case.get('same', False)
    real, model = Side(same), Model()
    dropped = False
    for i, op in enumerate(case['ops']):
        before = len(model.routes) + len(model.hooks)
        e = step(ctx, case, real, model, i, op, fresh(model, case['seed'] + i, same))
        ctx.tag(('rejected-' if e is not None else '') + op[0])
        dropped = dropped or e is not None or removal_kind(op) and len(model.routes) + len(model.hooks) < before
    if dropped and model.routes:
        ctx.nontrivial()
    compare(ctx, case, real, model, case['paths'], case['names'])


BAD = ['/a/{', '/a/<x', '/{x}/b/{x}', '/a/{x}/{y}/{x}', '/a/{x.nofilter()}', '/{a}/{b}/{c}/{a}/q', '/{x.re([)}', '/x/{y}-{y.int()}', '/a/{x.re(()}']


def gen(src):
    kw = dict(kinds=(None, None, None, 'int', 're', 'path', 'float'), anon=0.1, rex=src.bool(0.25), lits=['a', 'b', 'ab', 'abc', 'c', '-', 'é', 'x'])
    pool = R.gen_rules(src, 2, 7, 4, **kw)
    for r in pool:
        for seg in r:
            if seg[0] == 'lit':
                seg[1] = seg[1].replace('*', 'b')        # '*' at the end of a rule means something in a removal
    for r in list(pool):                  # prefixes of the rules are good places for hooks
        if src.bool(0.4) and len(r) > 1:
            pool.append(R.normalise([list(s) for s in r[:src.int(1, len(r) - 1)]]))
    if src.bool(0.3):
        pool.append([])
    names = src.choice([['n1', 'n2', 'n3'], ['n1', 'N1', 'n1 '], ['a', '/a', 'é'], ['a.b', 'b', 'a b']])
    ops = []

    def rule():
        return src.choice(pool), [src.below(12) for _ in range(3)]
    for _ in range(src.count(2, 14, 6)):
        k = src.pick((8, 'add'), (3, 'rm'), (1, 'rmroute'), (1, 'rmname'), (1, 'rmwild'), (4, 'hook'), (2, 'unhook'), (1, 'bad'))
        if k == 'add':
            r, st = rule()
            ms = [src.choice(['GET', 'GET', 'POST', 'ANY', 'put']) for _ in range(src.pick((5, 1), (1, 2)))]
            ops.append((k, r, st, ms, src.choice(names) if src.bool(0.3) else None, src.bool(0.2)))
        elif k in ('rm', 'rmroute', 'unhook'):
            ops.append((k,) + rule())
        elif k == 'rmname':
            ops.append((k, src.choice(names)))
        elif k == 'rmwild':
            r = [list(s) for s in src.choice(pool)]
            r = r[:src.int(0, len(r))]
            for n, seg in enumerate(r):
                if seg[0] == 'wild':
                    seg[1] = seg[1] or 'w%d' % n
            slash = 0
            if r and r[-1][0] == 'lit':
                if src.bool(0.3):
                    r[-1][1] = r[-1][1][:-1]
                r = R.normalise(r)
            slash = int(src.bool(0.4) and bool(r))
            if r and (r[-1][0] == 'lit' or r[-1][2] != 'path'):
                ops.append((k, r, slash))
            elif not r and src.bool(0.3):
                ops.append((k, [], 0))
        elif k == 'hook':
            ops.append((k,) + rule() + (int(src.bool(0.3)),))
        else:
            ops.append((k, src.choice(BAD), src.bool(0.3)))
        if ops and ops[-1][0] == 'rmwild' and src.bool(0.6):      # make the hooks below it definite again
            p = wild_key(ops[-1])
            for q in pool:
                if is_prefix(p, pkey(q)) and any(o[0] == 'hook' and pkey(o[1]) == pkey(q) for o in ops):
                    ops.append(('unhook', q, [2]))
    paths = [(src.pick((5, 'GET'), (1, 'POST')), R.gen_path(src, [src.choice(pool)])) for _ in range(src.int(3, 12))]
    return dict(ops=ops, paths=paths, names=names, seed=src.below(1000), same=src.bool(0.15))


# ---- small scope
def lit(t):
    return ['lit', t]


def wild(n, kind=None, conf=None):
    return ['wild', n, kind, conf]


def universe(k):
    if k == 0:
        rules = [[], [lit('a')], [lit('ab')], [lit('abc')], [lit('ac')], [lit('a/'), wild('x')], [lit('a/'), wild('x'), lit('/b')], [lit('a/'), wild('y', 'int')]]
        ops = [('add', r, [2], ['GET'], None, False) for r in rules] + [('hook', r, [2], 0) for r in rules] + [('rm', r, [2]) for r in rules] + [('unhook', r, [2]) for r in rules]
        ops += [('rmwild', [lit('a')], 0), ('rmwild', [lit('ab')], 0), ('rmwild', [lit('a')], 1), ('rmwild', [], 0), ('rmwild', [lit('a/'), wild('x')], 1)]
        paths = ['/', '/a', '/ab', '/abc', '/abcd', '/ac', '/a/1', '/a/q', '/a/q/b', '/a/1/b', '/a/1/c', '/b']
        return ops, [('GET', p) for p in paths], [], 16
    if k == 1:
        rules = [[lit('a')], [lit('ab')]]
        ops = [('add', r, [2], [m], n, ow) for r in rules for m in ('GET', 'POST') for n in (None, 'n1', 'n2') for ow in (False, True)]
        first = len(ops)
        ops += [(o, r, [2]) for o in ('rm', 'rmroute') for r in rules] + [('rmname', 'n1'), ('rmname', 'n2'), ('rmwild', [lit('a')], 0), ('rmwild', [lit('ab')], 0), ('bad', '/a/{x}/{x}', False)]
        return ops, [(m, p) for m in ('GET', 'POST') for p in ('/a', '/ab')], ['n1', 'n2'], first
    rules = [[lit('a')], [lit('a/'), wild('x')], [lit('a/'), wild('x', 'rex', '(a)|(b)') + [1]], [lit('a/'), wild('x', 'rex', '(a)|(b)') + [1], lit('/b')], [lit('a/'), wild('x', 'rex', '(a)|(b)') + [2], lit('/b')],
             [lit('a/'), wild('x', 'rex', '(a)|(b)') + [None]]]
    ops = [('add', r, [2], ['GET'], None, False) for r in rules] + [('hook', r, [2], t) for r in rules for t in (0, 1)] + [('rm', r, [2]) for r in rules] + [('unhook', r, [2]) for r in rules]
    return ops, [('GET', p) for p in ('/a', '/a/a', '/a/b', '/a/a/b', '/a/b/b', '/a/a/c', '/a/q', '/a/q/b')], [], 18


def enum_small(tier):
    for k in range(3):
        ops, paths, names, first = universe(k)
        depth = 3
        if tier == 'thorough':
            depth = 4
        for n in range(1, depth + 1):
            if tier == 'thorough' and k == 1 and n == 4:
                continue
            for seq in itertools.product(range(first), *[range(len(ops))] * (n - 1)):
                yield dict(u=k, seq=seq)


_u = {}


def run_small(case, ctx):
    k = case['u']
    if k not in _u:
        _u[k] = universe(k)
    ops, paths, names, _ = _u[k]
    ops = [ops[i] for i in case['seq']]
    case = dict(case, ops=ops, seed=sum(case['seq']))
    real, model = Side(), Model()
    for i, op in enumerate(ops):
        last = i == len(ops) - 1
        e = step(ctx, case, real, model, i, op, fresh(model, i) if last else None)
        if e is not None and not last:
            return                  # covered by the history without it, and by the one ending here
    ctx.tag(ops[-1][0] if e is None else 'rejected')
    if e is not None or any(removal_kind(o) for o in ops):
        ctx.nontrivial()
    compare(ctx, case, real, model, paths, names)


def legs(tier):
    return [
        Leg('histories', run, gen=gen, quick=12000, thorough=400000, shards=5, hyp=150,
            need=('200', '404', '405', 'hook-fired', 'same-function', '404-hook', 'rm', 'rmroute', 'rmname', 'rmwild', 'unhook', 'rejected-add', 'rejected-hook', 'rejected-rmname', 'rejected-bad')),
        Leg('small-scope', run_small, enum=enum_small, quick=0, thorough=0, shards=3, tshards=8, need=('rejected', 'rm', 'unhook', 'rmwild', 'rmname', 'hook-fired')),
    ]
