"""C02 - method dispatch: verb, ANY and HEAD fallbacks, 405 with exact Allow."""
from vt.core import Leg
from vt import rules as R
from vt import wsgi

RULE = ('case = overlapping rules, a history of registrations per rule (one or several method names in any letter case, through '
        'add_route / route() / the verb shortcuts, with and without overwrite, plus method removals on the Route object) and '
        'requests between the edits and after them (verb in any case x path aimed at the rules); compared with a reference dispatch table. Non-trivial: a request '
        'whose path selects a route and whose outcome is a fallback (HEAD->GET, ->ANY), a 405, or an exact hit among several.')
ASSUMPTIONS = ['route selection is the reference matcher of C01', 'Allow is compared as a set of names (order and blanks free)']

VERBS = ['GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'ANY', 'PROPFIND', 'M-SEARCH']


ODD = ['GE', 'GETS', 'HEADER', 'HEA', 'XHEAD', 'ANYTHING', 'AN', 'TRACE', 'CONNECT', 'OPTION', 'GET-X', 'X-GET', '_GET', 'G', '*', 'M', 'SEARCH', 'PUT2', 'QUERY', 'LOCK', 'UNLOCK', 'MKCOL', 'VERSION-CONTROL', "O'K", 'A.B', 'G+T', '~', '1', 'GETGET', 'NONE', 'TRUE']


def gen_verb(src):
    return src.pick((12, None), (1, src.choice(ODD))) or src.choice(VERBS)


class Batch(list):
    ''' a handler which is false as long as it is empty '''
    def __init__(self, f):
        super().__init__()
        self.f = f
        self.__module__, self.__qualname__ = __name__, 'Batch'

    def __call__(self, /, **kw):
        return self.f(**kw)


class Holder:
    def __init__(self, f):
        self.f = f

    def method(self, /, **kw):
        return self.f(**kw)

    def __eq__(self, other):
        return isinstance(other, Holder)

    __hash__ = None


def as_kind(f, kind):
    if kind == 'false':
        return Batch(f)
    if kind == 'bound':
        return Holder(f).method
    if kind == 'lambda':
        return lambda **kw: f(**kw)
    return f


def case_of(src, name):
    return src.pick((3, name), (1, name.lower()), (1, name.title()), (1, name[0].lower() + name[1:]))


def gen(src):
    base = R.gen_rules(src, 1, 4, 2.5, kinds=(None, None, 'int'), anon=0)
    rules = []
    for r in base:
        if not any(R.conflict(r, q) for q in rules):
            rules.append(r)
    ops = []
    for _ in range(src.count(1, 9, 4)):
        k = src.below(len(rules))
        how = src.pick((5, 'add'), (2, 'route'), (2, 'short'), (1, 'remove'), (1, 'setm'), (1, 'addm'), (1, 'endremove'), (1, 'default'))
        ms = [case_of(src, gen_verb(src)) for _ in range(src.pick((40, 1), (20, 2), (10, 3), (1, 30)))]
        if how == 'default':
            ms = ['GET']
        if how == 'short':
            ms = [src.choice(['get', 'post', 'head', 'put', 'delete', 'options', 'patch'])]
        ops.append([how, k, ms, src.bool(0.25), src.bool(0.4), src.pick((6, 'def'), (1, 'false'), (1, 'bound'), (1, 'lambda'))])
    reqs = [[case_of(src, src.pick((6, None), (1, 'HEAD'), (1, 'GET')) or gen_verb(src)), R.gen_path(src, rules)] for _ in range(src.count(1, 8, 5))]
    early = [[src.below(len(ops)), case_of(src, gen_verb(src)), R.gen_path(src, rules)] for _ in range(src.count(0, 5, 2))]
    # a before_request hook which has looked at the method replaces it by the one that counts
    over = [src.bool(0.4) and [src.choice(['environ', 'item']), case_of(src, gen_verb(src))] for _ in reqs] if src.bool(0.15) else []
    return dict(rules=rules, ops=ops, reqs=reqs, early=early, over=over)


def run(case, ctx):
    from ombott import Ombott
    app = Ombott()
    rules = case['rules']
    table = {}          # pattern key -> [rule, {METHOD: op index}]
    calls = []
    routes = {}

    def override():
        rq = app.request
        rq.method
        new = rq.environ.get('vt.method')
        if new:
            if new[0] == 'item':
                rq['REQUEST_METHOD'] = new[1]
            else:
                rq.environ['REQUEST_METHOD'] = new[1]

    if case.get('over'):
        app.add_hook('before_request', override)

    def edit(i, how, k, ms, overwrite, aslist, kind='def'):
        rule = rules[k]
        key = R.pattern_key(rule)
        text = R.spell(rule, [2])

        def handler(_i=i, **kw):
            calls.append(_i)
            return 'h%d' % _i
        handler = as_kind(handler, kind if how != 'route' and how != 'short' and how != 'default' or kind != 'false' else 'def')
        if kind != 'def':
            ctx.tag('kind-' + kind)
        up = [m.upper() for m in ms]
        have = table.get(key)
        if how in ('remove', 'setm', 'addm', 'endremove'):
            route = routes.get(key)
            if route is None:
                return
            if how == 'endremove':       # the registered method itself is asked to go
                for m in up:
                    if m in have[1]:
                        (route[ms[up.index(m)]] if aslist else route.methods[m]).remove()
                        have[1].pop(m)
                        ctx.tag('end-removed')
                return
            arg = ms if aslist or len(ms) > 1 else ms[0]
            if how == 'remove':
                route.remove_method(arg)
                for m in up:
                    have[1].pop(m, None)
                ctx.tag('removed')
            elif how == 'setm':
                route.set_method(arg, handler)
                for m in up:
                    have[1][m] = i
            else:
                clash = any(m in have[1] for m in up)
                try:
                    route.add_method(arg, handler)
                except Exception as e:
                    ctx.check(clash, f'add_method {ms} refused: {e}')
                else:
                    ctx.check(not clash, f'add_method {ms} on {text} accepted although registered: {sorted(have[1])}')
                    for m in up:
                        have[1][m] = i
            return
        arg = (tuple(ms) if aslist and overwrite else ms) if aslist or len(ms) > 1 else ms[0]
        clash = have is not None and not overwrite and any(m in have[1] for m in up)
        try:
            if how == 'add':
                route = app.add_route(text, arg, handler, overwrite=overwrite)
            elif how == 'default':
                app.route(text, overwrite=overwrite)(handler)
                route = None
            elif how == 'route':
                app.route(text, method=arg, overwrite=overwrite)(handler)
                route = None
            else:
                getattr(app, ms[0])(text, overwrite=overwrite)(handler)
                route = None
        except Exception as e:
            ctx.check(clash, lambda: f'registration {text} {ms} refused without reason: {type(e).__name__} {e}')
            ctx.tag('refused')
            return
        ctx.check(not clash, f'{text} {ms}: accepted although one of them is registered: {have and sorted(have[1])}')
        ctx.tag(how)
        if any(m in ODD for m in up):
            ctx.tag('odd-verb')
        if have is None:
            have = table[key] = [rule, {}]
        if route is not None or key not in routes:
            routes[key] = route or app.router[{text}]
        for m in up:
            have[1][m] = i

    # requests between the edits, then the others
    for i, op in enumerate(case['ops']):
        edit(i, *op)
        for n, verb, path in case.get('early', ()):
            if n == i:
                ask(ctx, app, table, calls, verb, path, f' after {i + 1} of {case["ops"]}')
                ctx.tag('early')
    for k, (verb, path) in enumerate(case['reqs']):
        over = case['over'][k] if k < len(case.get('over', ())) else None
        if over:
            ctx.tag('override')
            ask(ctx, app, table, calls, verb, path, f' (came as {over[1]}, a before_request hook made it {verb})', over)
        else:
            ask(ctx, app, table, calls, verb, path)


def ask(ctx, app, table, calls, verb, path, when='', over=None):
    live = [v[0] for v in table.values()]
    V = verb.upper()
    sel = R.select(live, path.strip('/'))
    del calls[:]
    if over:
        res = wsgi.call(app, wsgi.environ('POST' if over[1].upper() == 'HEAD' else over[1], path, extra={'vt.method': [over[0], verb]}))
    else:
        res = wsgi.call(app, wsgi.environ(verb, path))
    desc = lambda: f'{verb} {path!r} with {[(R.spell(r, [2]), sorted(m)) for r, m in table.values()]}{when}'   # noqa
    if sel is None:
        ctx.check(res.code == 404 and not calls, lambda: f'{desc()}: no route matches, expected 404, got {res.status} calls={calls}')
        ctx.check(res.header('Allow') is None, lambda: f'{desc()}: Allow on a 404')
        ctx.tag('404')
        return
    meths = table[R.pattern_key(live[sel[0]])][1]
    cand = [V] + (['GET'] if V == 'HEAD' else []) + ['ANY']
    want = next((meths[c] for c in cand if c in meths), None)
    how = next((c for c in cand if c in meths), None)
    ep, err = app.router.resolve(path, cand)
    if want is None:
        ctx.check(res.code == 405 and not calls, lambda: f'{desc()}: expected 405, got {res.status} calls={calls}')
        allow = res.all('Allow')
        ctx.check(len(allow) == 1, lambda: f'{desc()}: Allow headers {allow}')
        got = [a.strip() for a in allow[0].split(',')] if allow[0].strip() else []
        ctx.check(sorted(got) == sorted(meths), lambda: f'{desc()}: Allow {allow[0]!r}, registered {sorted(meths)}')
        ctx.check(ep is None and err[0] == 405, lambda: f'{desc()}: resolve() gives {ep} {err}')
        ctx.tag('405')
        ctx.nontrivial()
        return
    ctx.check(res.code == 200 and calls == [want],
              lambda: f'{desc()}: expected handler {want} ({how}), got {res.status}, calls {calls}')
    ctx.check(ep is not None and err is None, lambda: f'{desc()}: resolve() gives {ep} {err}')
    ctx.check(V == 'HEAD' or res.body == b'h%d' % want, lambda: f'{desc()}: body {res.body!r}')
    if how != V:
        ctx.tag('head->get' if how == 'GET' else 'any' if V != 'HEAD' else 'head->any')
        ctx.nontrivial()
    else:
        ctx.tag('exact')
        if len(meths) > 1:
            ctx.nontrivial()
    if verb != V:
        ctx.tag('verb-case')
    if len([1 for r in live if R.match(r, path.strip('/')) is not None]) > 1:
        ctx.tag('overlap')


# every subset of registered methods x every verb, on a static and on a wildcard route
def enum_tables(tier):
    names = ['GET', 'HEAD', 'POST', 'ANY', 'PUT']
    for bits in range(1, 1 << len(names)):
        ms = [n for i, n in enumerate(names) if bits >> i & 1]
        for wild in (False, True):
            for lower in (False, True):
                yield [ms, wild, lower]


def run_table(case, ctx):
    ms, wild, lower = case
    rule = [['wild', 'x', None, None]] if wild else [['lit', 'r']]
    other = [['lit', 'q']]
    ops = [['add', 0, [m.lower() if lower else m], False, False] for m in ms] + [['add', 1, ['ANY'], False, False]]
    reqs = [[v.lower() if lower else v, p] for v in VERBS for p in ('/r', '/q', '/r/s', '/')]
    run(dict(rules=[rule, other], ops=ops, reqs=reqs), ctx)


def legs(tier):
    return [
        Leg('histories', run, gen=gen, quick=60000, thorough=500000, shards=6, hyp=300, fuzz=20000,
            need=('404', '405', 'exact', 'head->get', 'any', 'head->any', 'verb-case', 'overlap', 'refused', 'removed', 'early', 'end-removed', 'default', 'odd-verb', 'override', 'kind-false', 'kind-bound')),
        Leg('tables', run_table, enum=enum_tables, quick=0, thorough=0, shards=1, tshards=1, need=('405', 'head->get', 'head->any')),
    ]
