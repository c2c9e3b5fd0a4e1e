"""C01 - route resolution equals the rule-by-rule semantics."""
import itertools

from vt.core import Leg
from vt import rules as R
from vt import wsgi

RULE = ('case = a list of rules (registered in order, sharing prefixes by construction; literals, plain, int, float, re, path, '
        'rex and anonymous wildcards; every documented spelling) and a list of request paths derived from the rules and '
        'mutated; each path is resolved by RadiRouter.resolve and through WSGI and compared with a rule-by-rule reference '
        'matcher. Non-trivial: at least one path is matched by a rule with a wildcard or by two rules, or a registered rule '
        'nearly matches (a 404 whose path shares a first segment with a rule).')
ASSUMPTIONS = [
    'leading/trailing slashes of the request path are ignored (documented in RadiRouter.resolve); rules that themselves end '
    'in a slash or start with two are dead and are a recorded finding, excluded by construction',
    'a wildcard needs at least one remaining path character at its position; a plain wildcard in front of a separator may be empty',
    'a filter regex is applied once at its position (no backtracking into the regex)',
    'rules do not contain a literal CR (the internal wildcard marker); a path wildcard is not directly followed by a wildcard',
    'a rule the router refuses at registration is not part of the rule set; refusal is only allowed when two rules put '
    'different filters on the same wildcard position',
]


def expect(live, path):
    """live: list of (idx, rule, method)"""
    sel = R.select([r for _, r, _ in live], path)
    if sel is None:
        return None
    key = R.pattern_key(live[sel[0]][1])
    return [(i, r, m) for i, r, m in live if R.pattern_key(r) == key]


def run(case, ctx):
    from ombott import Ombott
    rules, styles, methods, paths = case['rules'], case['styles'], case['methods'], case['paths']
    app = Ombott()
    calls = []
    live = []
    for i, rule in enumerate(rules):
        text = R.spell(rule, styles[i % len(styles)])
        meth = methods[i % len(methods)]

        def handler(_i=i, **kw):
            calls.append((_i, kw))
            return 'r%d' % _i
        dup = any(R.pattern_key(r) == R.pattern_key(rule) and m == meth for _, r, m in live)
        clash = any(R.conflict(rule, r) for _, r, _ in live)
        try:
            app.add_route(text, meth, handler)
        except Exception as e:
            ctx.check(dup or clash, lambda: f'rule {text!r} refused although it conflicts with no registered rule '
                                            f'({[R.spell(r, [2]) for _, r, _ in live]}): {type(e).__name__}: {e}')
            ctx.tag('refused-rule')
            continue
        ctx.check(not dup, f'second handler accepted silently for {text!r} {meth}')
        live.append((i, rule, meth))
    texts = [R.spell(r, [2]) for _, r, _ in live]
    for path in paths:
        bare = path.strip('/')
        cand = [r for _, r, _ in live if R.match(r, bare) is not None]
        want = expect(live, bare)
        if want and (len(want[0][1]) > 1 or want[0][1] and want[0][1][0][0] == 'wild' or len(cand) > 1):
            ctx.nontrivial()
        if not want and any(r and r[0][0] == 'lit' and bare.startswith(r[0][1][:1]) for _, r, _ in live):
            ctx.nontrivial()
        if len({R.pattern_key(r) for r in cand}) > 1:
            ctx.tag('ambiguous')
        ctx.tag('match' if want else 'nomatch')
        got_route = app.router.resolve(path)
        ctx.check(bool(got_route) == bool(want), lambda: f'rules {texts}: path {path!r}: resolve() says '
                  f'{"no match" if not got_route else "match " + repr(got_route.rule)}, reference says {[R.spell(r, [2]) for _, r, _ in want or []]}')
        for verb in ('GET', 'POST'):
            end, err = app.router.resolve(path, [verb])
            del calls[:]
            if len(live) <= 3 or verb == 'GET' or want and len(want) > 1:
                res = wsgi.call(app, wsgi.environ(verb, path))
            else:
                res = None
            if not want:
                ctx.check(end is None and err and err[0] == 404, lambda: f'rules {texts}: path {path!r}: expected 404, got {end} {err and err[0]}')
                ctx.check(res is None or res.code == 404 and not calls,
                          lambda: f'rules {texts}: path {path!r}: expected 404, got {res.status} calls={calls}')
                continue
            hit = [(i, r) for i, r, m in want if m == verb]
            if not hit:
                ctx.check(end is None and err and err[0] == 405 and (res is None or res.code == 405 and not calls),
                          lambda: f'rules {texts}: path {path!r} {verb}: expected 405, got {err and err[0]} {res and res.status}')
                continue
            i, r = hit[0]
            binding = R.match(r, bare)
            kw = {n: v for n, v, _ in binding if n is not None}
            ctx.check(end is not None, lambda: f'rules {texts}: path {path!r} {verb}: expected rule {R.spell(r, [2])!r}, got {err and err[0]}')
            same(ctx, end[1], kw, lambda: f'rules {texts}: path {path!r} {verb}: resolve() parameters of rule {R.spell(r, [2])!r}')
            if res is None:
                continue
            ctx.check(res.code == 200 and len(calls) == 1 and calls[0][0] == i,
                      lambda: f'rules {texts}: path {path!r} {verb}: expected rule {R.spell(r, [2])!r} (handler {i}), got {res.status}, calls={calls} {res.errors[-300:]}')
            same(ctx, calls[0][1], kw, lambda: f'rules {texts}: path {path!r} {verb}: handler arguments of rule {R.spell(r, [2])!r}')
            ctx.check(res.body == b'r%d' % i, f'body {res.body!r}')
            if kw:
                ctx.tag('bound')
            if any(s[0] == 'wild' and s[1] is None for s in r):
                ctx.tag('anonymous')
            for k, s in enumerate(r):
                if s[0] == 'wild' and s[2]:
                    ctx.tag('filter-' + s[2])
                    if s[2] == 'rex' and k + 1 < len(r):
                        ctx.tag('rex-then-' + ('wild' if r[k + 1][0] == 'wild' else 'digit' if r[k + 1][1][0].isdigit() else 'text'))
            if len(want) > 1 and want[0][1] != want[1][1]:
                ctx.tag('same-pattern-other-names')


def same(ctx, got, want, what):
    ok = got == want and all(type(got[k]) is type(want[k]) for k in want)
    if not ok and set(got) == set(want):
        ok = all(type(got[k]) is type(want[k]) and (got[k] == want[k]) for k in want)
    ctx.check(ok, lambda: f'{what()}: got {got!r}, expected {want!r}')


def gen(src, rex=False):
    kw = dict(rex=rex)
    if rex:
        kw['kinds'] = (None, 'int', 're')
        kw['lits'] = R.LITS + ['1', '2', '1', '12', '[1]', '/1', '/a']
    rules = R.gen_rules(src, 1, 8, 4, **kw)
    return dict(
        rules=rules,
        styles=src.list(lambda: src.list(lambda: src.below(12), 1, 3, 2), 1, 3, 2),
        methods=src.choice([['GET'], ['GET', 'POST'], ['POST', 'GET', 'GET']]),
        paths=[R.gen_path(src, rules) for _ in range(src.count(1, 6, 4))])


def gen_many(src):
    """a large table: many literals sharing beginnings, wildcards between them, paths aimed at all of them"""
    stems = src.list(lambda: src.text('abcAé-_.', 1, 6, 3), 3, 6, 4)
    lits = [a + b for a in stems for b in ('', 'a', 'b', 'ab', '-' + stems[0])]
    rules = R.gen_rules(src, 12, 45, 26, lits=lits, maxseg=6)
    return dict(rules=rules, styles=src.list(lambda: src.list(lambda: src.below(12), 1, 3, 2), 1, 3, 2),
                methods=src.choice([['GET'], ['GET', 'POST'], ['POST', 'GET', 'GET']]),
                paths=[R.gen_path(src, rules) for _ in range(src.count(6, 20, 12))])


def gen_deep(src):
    """long paths of few different segments against rules that follow them for a long way: many points to go back to"""
    depth = src.int(5, 16)
    segs = src.choice([['a'], ['a', 'b'], ['a', 'ab', '1'], ['a', 'b', '1', 'c']])
    base = [src.choice(segs) for _ in range(depth)]
    ends = []
    conf = src.pick((4, None), (1, 'int'), (1, 're'), (1, 'rex'))
    rules = []
    for _ in range(src.count(2, 14, 7)):
        wilds = {src.below(depth) for _ in range(src.pick((4, 1), (2, 2), (1, 4), (1, 0)))}
        n = src.pick((5, depth), (1, src.int(1, depth)))
        rule, names = [], 0
        for i in range(n):
            sep = '/' if i else ''
            if i in wilds:
                if sep:
                    _lit(rule, sep)
                rule.append(['wild', 'w%d' % names] + {None: [None, None], 'int': ['int', None], 're': ['re', '[^/]+'], 'rex': ['rex', '(a)|(b)|(ab)', src.pick((2, None), (1, 1), (1, 2))]}[conf])
                names += 1
            else:
                _lit(rule, sep + (base[i] if src.bool(0.93) else src.choice(segs)))
        end = src.pick((5, '/e%d' % src.below(4)), (1, ''), (1, 'x'))
        ends.append(end)
        if end:
            if rule[-1][0] == 'wild' and not end.startswith('/'):
                end = '/' + end
            _lit(rule, end)
        if src.bool(0.08):
            if rule[-1][0] == 'lit':
                _lit(rule, '/')
                rule.append(['wild', 'p', 'path', None])
        rules.append(rule)
    paths = []
    for _ in range(src.count(2, 8, 5)):
        b = [s if src.bool(0.93) else src.choice(segs + ['b', 'z']) for s in base[:src.pick((6, depth), (1, src.int(1, depth)))]]
        paths.append('/' + '/'.join(b) + src.pick((6, '/e%d' % src.below(4)), (6, src.choice(ends)), (1, ''), (1, 'x'), (1, '/e1/e2')))
    return dict(rules=rules, styles=[[0], [1]], methods=['GET'], paths=paths)


def _lit(rule, text):
    if rule and rule[-1][0] == 'lit':
        rule[-1] = ['lit', rule[-1][1] + text]
    else:
        rule.append(['lit', text])


def gen_confs(src):
    """regular expressions of any length which share their beginnings (and ends)"""
    words = ['w%d' % i for i in range(src.pick((3, 3), (2, 12), (2, 40), (1, 300)))]
    pre = '(?:' + '|'.join(words) + ')'
    tails = ['A', 'B', 'a', '', '[AB]', 'A|B', 'A$', '(?=B)', 'AB']
    confs = src.list(lambda: src.pick((4, pre + src.choice(tails)), (1, src.choice(tails[:5]) + pre), (1, pre)), 2, 5, 3)
    kind = 're'
    rules = [[['lit', 's%d/' % i], ['wild', 'x', kind, c]] + ([['lit', src.choice(['', 'B', '/z'])]] if src.bool(0.3) else []) for i, c in enumerate(confs)]
    rules = [[s for s in r if s[0] != 'lit' or s[1]] for r in rules]
    paths = []
    for _ in range(src.count(3, 10, 6)):
        i = src.below(len(rules))
        w = src.choice(words[:2] + words[-2:])
        c = confs[src.pick((3, i), (2, src.below(len(confs))))]
        text = c.replace(pre, w).replace('(?=B)', 'B').replace('[AB]', src.choice('AB')).replace('A|B', src.choice('AB')).replace('$', '') if src.bool(0.8) else src.choice(['', 'A']) + w + src.choice(['A', 'B', 'a', '', 'AB'])
        end = rules[i][-1][1] if rules[i][-1][0] == 'lit' else ''
        paths.append('/s%d/' % i + text + src.pick((6, end), (1, src.choice(['B', '/z', '']))))
    return dict(rules=rules, styles=[[0], [1]], methods=['GET'], paths=paths)


def gen_num(src):
    """number wildcards against number look-alikes, with and without a rule that takes what they leave"""
    kind = src.choice(['int', 'float'])
    pre, tail = src.choice(['n/', 'n', 'n-', 'n_']), src.choice([None, None, '/t', '.', '_', 'e', '-', '.5', 'x'])
    rule = [['lit', pre], ['wild', 'x', kind, None]] + ([['lit', tail]] if tail else [])
    if tail and src.bool(0.3):
        rule.append(['wild', 'y', src.choice(['int', 'float', None]), None])
    rules = [rule]
    if src.bool(0.3):
        rules.append([['lit', pre], ['wild', 'x', kind, None], ['lit', src.choice(['z', '_1', 'e5', '.'])]])
    if src.bool(0.4):
        rules.append([['wild', 'p', 'path', None]])
    paths = []
    for _ in range(src.count(2, 12, 0.8)):
        p = ''.join(g[1] if g[0] == 'lit' else R.gen_number(src) for g in src.choice(rules))
        paths.append('/' + p)
    return dict(rules=[R.normalise(r) for r in rules], styles=[[src.below(3)]], methods=['GET'], paths=paths)


def gen_long(src):
    """conversions at the edge of what the filter can convert"""
    kind = src.choice(['int', 'float'])
    n = src.pick((2, 20), (2, 310), (1, 4300), (2, 4301), (2, 6000))
    digits = src.choice('179') * n
    if src.bool(0.3):
        digits = '-' + digits
    if kind == 'float' and src.bool():
        digits += '.5'
    rules = [[['lit', 'n/'], ['wild', 'x', kind, None]]]
    if src.bool():
        rules.append([['lit', 'n/'], ['wild', 'x', kind, None], ['lit', 'z']])
    if src.bool():
        rules.append([['wild', 'y', None, None], ['lit', '/'], ['wild', 'z', None, None]])
    return dict(rules=rules, styles=[[0]], methods=['GET'], paths=['/n/' + digits + src.choice(['', 'z'])])


def gen_segments(src):
    """paths of very many segments, taken by a path wildcard or followed by a long rule"""
    n = src.pick((2, 40), (2, 250), (2, 260), (1, 900), (1, 2500))
    body = '/'.join([src.choice(['a', 'b', 'é', '1'])] * n) if src.bool(0.5) else 'a/' * n + 'b'
    rules = [[['lit', 's/'], ['wild', 'p', 'path', None]], [['lit', 's/a/a/a/a/a'], ['lit', '/z']], [['lit', 's/'], ['wild', 'x', None, None], ['lit', '/'], ['wild', 'q', 'path', None]]]
    rules = [R.normalise([list(s) for s in r]) for r in rules]
    rules = [r for r in rules if src.bool(0.7)] or rules[:1]
    if src.bool(0.3):
        rules.append(R.normalise([['lit', 's/' + body]]))
    return dict(rules=rules, styles=[[0]], methods=['GET'], paths=['/s/' + body + src.choice(['', '', '/z'])])


def run_rule(case, ctx):
    """one rule as text against one path which a plain comparison says it matches (the listed finding)"""
    from ombott.router import RadiRouter
    router = RadiRouter()
    router.add(case['rule'], 'GET', lambda **kw: None)
    end, err = router.resolve(case['path'], ['GET'])
    ctx.check(end is not None and end[1] == case['params'], lambda: f'rule {case["rule"]!r} alone: {case["path"]!r} gives {err or end[1]!r}, not {case["params"]!r}')


# small scope: every set of <= 3 rules out of a fixed family, every path of <= 3 segments
FAM = [
    [],
    [['lit', 'a']], [['lit', 'ab']], [['lit', 'a/b']], [['lit', 'a/bc']],
    [['wild', 'x', None, None]],
    [['wild', 'x', None, None], ['lit', '/b']],
    [['lit', 'a/'], ['wild', 'x', None, None]],
    [['lit', 'a/'], ['wild', 'y', 'int', None]],
    [['lit', 'a'], ['wild', 'y', 'int', None]],
    [['wild', 'x', None, None], ['lit', '/'], ['wild', 'y', None, None]],
    [['lit', 'a/'], ['wild', 'x', None, None], ['lit', '/c']],
    [['lit', 'a/'], ['wild', 'p', 'path', None]],
    [['lit', 'a/'], ['wild', 'p', 'path', None], ['lit', '/c']],
    [['wild', 'p', 'path', None]],
    [['lit', 'a/b/c']],
    [['wild', 'x', None, None], ['lit', '/b/'], ['wild', 'z', 'float', None]],
    [['lit', 'a/b/'], ['wild', 'z', 're', '[a-c]+']],
    [['lit', 'a/'], ['wild', 'w', None, None], ['lit', 'x']],
    [['wild', 'x', None, None], ['lit', '/b/c']],
]
SEG = ['a', 'b', 'ab', '1', 'c', '']


def enum_small(tier):
    paths = ['/' + '/'.join(p) for n in (1, 2, 3) for p in itertools.product(SEG, repeat=n)]
    paths += ['/a/1.5', '/a/b/1.5', '/a1', '/a/b/cx', '/a/b/c/c', '/a/\r', '/\r', '/a/\r/c', '/a/bx']
    depth = 2 if tier == 'quick' else 3
    for n in range(1, depth + 1):
        for combo in itertools.permutations(range(len(FAM)), n):
            yield list(combo)


_paths = None


def run_small(case, ctx):
    """router-level only (no WSGI): all paths against one ordered rule set"""
    global _paths
    from ombott.router import RadiRouter
    if _paths is None:
        _paths = ['/' + '/'.join(p) for n in (1, 2, 3) for p in itertools.product(SEG, repeat=n)]
        _paths += ['/a/1.5', '/a/b/1.5', '/a1', '/a/b/cx', '/a/b/c/c', '/a/\r', '/\r', '/a/\r/c', '/a/bx']
    router = RadiRouter()
    live = []
    for i in case:
        rule = FAM[i]
        text = R.spell(rule, [2])
        clash = any(R.conflict(rule, r) for r in live)
        try:
            router.add(text, 'GET', lambda **kw: None)
        except Exception as e:
            ctx.check(clash, lambda: f'rule {text!r} refused without conflict: {e}')
            continue
        live.append(rule)
    for p in _paths:
        bare = p.strip('/')
        sel = R.select(live, bare)
        end, err = router.resolve(p, ['GET'])
        ctx.tag('lookups')
        if sel is None:
            ctx.check(end is None and err[0] == 404, lambda: f'rules {[R.spell(r, [2]) for r in live]}: {p!r} should be 404')
            continue
        rule = live[sel[0]]
        ctx.check(end is not None, lambda: f'rules {[R.spell(r, [2]) for r in live]}: {p!r} should match {R.spell(rule, [2])}')
        ctx.check(end[0].route.rule == R.spell(rule, [2]),
                  lambda: f'rules {[R.spell(r, [2]) for r in live]}: {p!r} should match {R.spell(rule, [2])}, got {end[0].route.rule}')
        same(ctx, end[1], {n: v for n, v, _ in sel[1] if n is not None},
             lambda: f'rules {[R.spell(r, [2]) for r in live]}: {p!r} parameters')
    ctx.nontrivial()


def legs(tier):
    return [
        Leg('rulesets', run, gen=gen, quick=40000, thorough=400000, shards=6, tshards=8, hyp=400, hyp_thorough=6000, fuzz=40000,
            need=('match', 'nomatch', 'ambiguous', 'bound', 'anonymous', 'filter-int', 'filter-float', 'filter-re', 'filter-path',
                  'same-pattern-other-names')),
        Leg('rex', run, gen=lambda s: gen(s, rex=True), quick=12000, thorough=200000, shards=3, need=('match', 'filter-rex', 'rex-then-wild', 'rex-then-digit')),
        Leg('large-tables', run, gen=gen_many, quick=2500, thorough=60000, shards=4, tshards=8, need=('match', 'ambiguous', 'bound')),
        Leg('deep', run, gen=gen_deep, quick=12000, thorough=200000, shards=4, tshards=8, need=('match', 'nomatch', 'ambiguous', 'bound', 'filter-rex')),
        Leg('confs', run, gen=gen_confs, quick=3000, thorough=40000, shards=2, need=('match', 'nomatch', 'filter-re')),
        Leg('numbers', run, gen=gen_num, quick=4000, thorough=60000, shards=2, need=('match', 'nomatch')),
        Leg('conversion-edges', run, gen=gen_long, quick=150, thorough=1500, shards=1, hyp=0, need=('match',)),
        Leg('many-segments', run, gen=gen_segments, quick=600, thorough=6000, shards=1, hyp=0, need=('match', 'bound')),
        Leg('small-scope', run_small, enum=enum_small, quick=0, thorough=0, shards=2, tshards=8, need=('lookups',)),
        Leg('listed', run_rule),
    ]
