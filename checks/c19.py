"""C19 - building a URL from matched parameters leads back to the same match."""
import itertools
import re

from vt.core import Leg
from vt import rules as R

RULE = ('one rule (literals, named and anonymous wildcards with and without int / float / re / path filters, adjacent literals and wildcards, every spelling) and a path generated to match it (canonical and non-canonical numbers of any '
        'magnitude and script, texts with separators, empty segments); the parameters come from RadiRouter.resolve (anonymous ones through a twin rule in which they are named). Route.url with anonymous values positionally, '
        'resolved again on a router which holds only that rule, gives equal values; the URL consists of the literals verbatim, in order, around the values. Non-trivial: the path matches and the rule has a wildcard.')
ASSUMPTIONS = ['no rex filter (not in the property; its value is not the matched text)', 'no carriage return in rule text (it is the router\'s own wildcard mark)',
               'open finding: a number whose canonical text differs from the matched one after another filtered wildcard of the rule may change how that one splits the text (/<p:path>.<f:float> and a.5; /<a:int><b:int> and 0-0); such assignments are left out of the generated cases (known_findings.json)']

_st = {}


def setup(ctx):
    from ombott.router import RadiRouter
    _st['R'] = RadiRouter


def handler(**kw):
    pass


def router_of(text):
    r = _st['R']()
    r.add(text, 'GET', handler)
    return r


def same(a, b):
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)


NUMBER = r'-?\d+(?:\.\d+)?'


def named(rule):
    out, n = [], 0
    for s in rule:
        s = list(s)
        if s[0] == 'wild' and s[1] is None:
            s[1] = f'anon{n}'
            n += 1
        out.append(s)
    return out


def canonical(kind, v):
    if kind == 'int':
        return str(v)
    from decimal import Decimal
    t = format(Decimal(repr(v)), 'f')
    return t if '.' in t else t + '.0'


def ambiguous(rule, path):
    """a number's canonical text changes how an earlier filtered wildcard splits (by the reference)"""
    m = R.match(rule, path)
    if m is None:
        return False
    seen = False
    parts, k = [], 0
    for s in rule:
        if s[0] == 'lit':
            parts.append(s[1])
            continue
        _, v, t = m[k]
        k += 1
        if s[2] in ('int', 'float'):
            c = canonical(s[2], v)
            if c != t and seen:
                seen = 2
            t = c
        if s[2]:
            seen = seen or True
        parts.append(t)
    if seen != 2:
        return False
    again = R.match(rule, ''.join(parts))
    return again is None or [x[1] for x in again] != [x[1] for x in m]


def run(case, ctx, listed=False):
    rule, path = case['rule'], case['path']
    if not rule:
        ctx.tag('empty')
    text = R.spell(rule, case['style'])
    twin = named(rule)
    ttext = R.spell(twin, case['style'])
    full, one = router_of(ttext), router_of(text)
    end, err = full.resolve(path, ['GET'])
    if err:
        ctx.tag('unmatched')
        return
    if not listed and ambiguous(rule, path.strip('/')):
        ctx.tag('ambiguous (open finding)')
        return
    params = end[1]
    wilds = [s for s in twin if s[0] == 'wild']
    anon = [s[1] is None for s in rule if s[0] == 'wild']
    ctx.check(set(params) == {s[1] for s in wilds}, lambda: f'rule {ttext!r}: path {path!r} gives {params!r}')
    args = [params[s[1]] for s, a in zip(wilds, anon) if a]
    kw = {s[1]: params[s[1]] for s, a in zip(wilds, anon) if not a}
    route = one.resolve(path)
    ctx.check(route, lambda: f'rule {text!r}: path {path!r} is not resolved, though rule {ttext!r} resolves it')
    what = lambda: f'rule {text!r}: path {path!r} gives {params!r}'
    url = None
    for name, rt, a, k in (('', route, args, kw), (' (all named)', full.resolve(path), [], dict(params))):
        try:
            url = rt.url(*a, **k)
        except Exception as e:
            ctx.fail(f'{what()}: url(*{a!r}, **{k!r}){name} raises {type(e).__name__}: {e}')
        ctx.check(isinstance(url, str), lambda: f'{what()}: url() is {url!r}')
        second = rt.url(*a, **k)
        ctx.check(second == url, lambda: f'{what()}: url(){name} is {url!r}, called again it is {second!r}')
        # literals verbatim, in order, around the values
        rx, prev_num = '', False
        i = 0
        for s in rule:
            if s[0] == 'lit':
                rx += re.escape(s[1])
                continue
            v = params[wilds[i][1]]
            i += 1
            rx += NUMBER if s[2] in ('int', 'float') else re.escape(v)
        ctx.check(re.fullmatch('/*' + rx, url), lambda: f'{what()}: url(){name} is {url!r}')
        for u in (url, '/' + url.lstrip('/') if not url.startswith('/') else url[1:]):
            e2, er2 = full.resolve(u, ['GET'])
            ctx.check(not er2, lambda: f'{what()}: url(){name} is {url!r}; {u!r} is answered with {er2}')
            ctx.check(same(e2[1], params), lambda: f'{what()}: url(){name} is {url!r}; {u!r} gives {e2[1]!r}')
            e3, er3 = one.resolve(u, ['GET'])
            ctx.check(not er3 and same(e3[1], kw), lambda: f'{what()}: url(){name} is {url!r}; {u!r} gives {er3 or e3[1]!r} with the rule itself')
    if wilds:
        ctx.nontrivial()
    for s in rule:
        if s[0] == 'wild':
            ctx.tag((s[2] or 'plain') + ('-anon' if s[1] is None else ''))
    for a, b in zip(rule, rule[1:]):
        if a[0] == 'wild' and b[0] == 'wild':
            ctx.tag('adjacent')
        elif a[0] == 'wild' and a[2] == 'path':
            ctx.tag('path+literal')
        elif (a[0] == 'wild') != (b[0] == 'wild') and (a if a[0] == 'lit' else b)[1][-1 if a[0] == 'lit' else 0] != '/':
            ctx.tag('glued')
    if url.strip('/') != path.strip('/'):
        ctx.tag('canonicalised')


# ------------------------------------------------------------- generators
RE = {'[A-C]+': ['A', 'ABC', 'CAB'], 'É+': ['É'], r'\D+': ['a', 'x/y', '-'], r'[^\d/]+': ['a', 'é'], '[a-c]+': ['a', 'abc', 'b', 'cab'], '[0-9]{2}': ['12', '00', '٠٣'], 'to.': ['tok', 'to/', 'to.'], '(?:ab|a)': ['ab', 'a'], 'x(?=y)': ['x'], '[^/]+': ['q', 'a b', '1.5', '-'], '[ab]{1,2}': ['ab', 'a'], 'é+': ['é', 'éé'],
      'a*': ['', 'a', 'aa'], '.*': ['', 'x/y', '1'], '.+': ['x', 'x/y/z'], r'\d+': ['0', '007'], r'\w+': ['a_1', 'é'], r'a|b|ab': ['a', 'b'], r'(\d)\1': ['11', '77'], r'(?!no)\w+': ['yes', 'non'], r'[^.]+': ['a', 'a/b'], r'x$': ['x'],
      r'.{2}': ['ab', '/x', '//'], r'\$\{x\}': ['${x}'], r'%s': ['%s'], r'\\': ['\\'], r'[a-z]+(?=/|$)': ['a', 'abc'], r'[a-z]+(?=-)': ['ab'], r'(?<!x)a': ['a'], '[ -~]+?': ['a', 'b'], r'(?i)ab': ['AB', 'aB']}
TEXT = ['a', 'b', 'abc', '0', '12', '1.5', 'é', 'a b', '%2F', '{x}', ':x', '<y>', '*', '-', '.', 'x.html', '\n', 'a\rb', '\r', '\x00', '日', '\\', 'to', '$', '', '%s', '{}', '{0}', "'", '"', '?', '#', '&=', '\u2028', '-1', '--', '٣']
PATHS = ['a', 'a/b', 'a/b/c', 'a//b', 'x/y.html', '0/1', 'a b/é', '.', '..', 'a.b/c.d', '-/-', '\r/\n', 'a-b-c', 'b/b/b', '1/2.0/3']
INTS = ['0', '1', '12', '-3', '007', '-0', '-007', '٣', '١٢', '99999999999999999999', '9' * 400, '1' + '0' * 30, '00', '-1', '१२३']
FLOATS = ['0', '1', '1.5', '-0.25', '12', '-3.0', '3.14159', '00.50', '1' * 30, '-0', '-0.0', '0.1', '0.00001', '0.000000000001', '123456789012345678', '1' + '0' * 16, '1' + '0' * 22, '1' + '0' * 23, '9' * 308, '9' * 400, '0.' + '0' * 330 + '1',
          '1.10', '٣.٥', '2.0000000000000001', '4.9', '100', '1.0', '10.01', '-1' + '0' * 25, '0.30000000000000004', '5.' + '0' * 20 + '1', '-0.00000000000001']
LITS = ['a', 'b', 'ab', '-', '.', '0', 'x', 'é', 'to', '}', '\\', 'a b', '*', '.html', '-x', '00', '.5', '1', '$', '%s', '{', '/', 'y', '%', '+', 'no', 'v1', '.0', ')', '()', '[', '[1]']
LITS = [t for t in LITS if not set(t) & set('{[')]


def gen_seg_wild(src, n):
    kind = src.pick((4, None), (3, 'int'), (4, 'float'), (4, 're'), (3, 'path'))
    name = None if src.bool(0.3) else src.choice(['x', 'y', 'id', 'a1', 'name', 'method', 'self', 'args', 'rule', 'pos', 'n', 'end'])
    return ['wild', name, kind, src.choice(list(RE)) if kind == 're' else None]


def gen(src):
    segs = []
    for i in range(src.count(1, 5, 2.3)):
        if i and src.bool(0.75):
            segs.append(['lit', '/'])
        for _ in range(src.count(1, 3, 1.5)):
            segs.append(['lit', src.choice(LITS)] if src.bool(0.4) else gen_seg_wild(src, i))
    rule = R.normalise(segs)
    names = [s[1] for s in rule if s[0] == 'wild' and s[1]]
    if any(n.startswith('anon') for n in names):
        rule = []
    parts = []
    for k, s in enumerate(rule):
        if s[0] == 'lit':
            parts.append(s[1])
        elif s[2] == 'int':
            parts.append(src.pick((5, src.choice(INTS)), (2, str(src.int(-1000, 1000))), (1, str(src.below(10 ** 20)))))
        elif s[2] == 'float':
            parts.append(src.pick((6, src.choice(FLOATS)), (2, f'{src.int(-1000, 1000)}.{src.below(10000)}'), (1, f'{src.below(10 ** 18)}.{src.below(10 ** 18)}'), (1, '0.' + '0' * src.below(30) + str(src.below(10 ** 6))), (1, str(src.below(10 ** 6)) + '0' * src.below(40))))
        elif s[2] == 're':
            parts.append(src.choice(RE[s[3]]))
        elif s[2] == 'path':
            parts.append(src.choice(PATHS) if src.bool(0.7) else src.choice(TEXT) + '/' + src.choice(TEXT))
        else:
            parts.append(src.choice(TEXT) if src.bool(0.8) else src.choice(TEXT) + src.choice(TEXT))
    p = ''.join(parts)
    if src.bool(0.12):
        i = src.below(len(p) + 1)
        p = p[:i] + src.choice(['a', '/', '0', '.', '-', '\r', '1']) + p[i + src.below(2):]
    return dict(rule=rule, path='/' * src.pick((8, 1), (1, 0), (1, 2)) + p + '/' * src.pick((9, 0), (1, 1)), style=[src.below(12) for _ in range(3)])


def gen_scale(src):
    """many wildcards, long literals, long values"""
    rule, parts = [], []
    pure = src.pick((2, 0.0), (2, 1.0), (3, 0.5))
    for i in range(src.pick((4, 3), (4, 12), (2, 40), (1, 110)) + src.below(6)):
        if i:
            rule.append(['lit', '/'])
            parts.append('/')
        if src.bool(0.3):
            t = src.pick((3, 'n%d-' % i), (1, 'long' * src.pick((1, 20), (1, 120)) + '.'))
            rule.append(['lit', t])
            parts.append(t)
        kind = src.pick((5, None), (2, 'int'), (2, 'float'), (1, 're'))
        rule.append(['wild', None if src.bool(pure) else src.pick((3, 'p%d' % i), (1, 'name_%s_%d' % ('x' * 40, i))), kind, '[^/]+' if kind == 're' else None])
        parts.append(str(src.below(1000)) if kind == 'int' else f'{src.below(1000)}.{src.below(100)}' if kind == 'float' else src.pick((4, f'v{i}{src.choice("abc")}'), (1, ('w%d' % i) * src.pick((1, 30), (1, 400), (1, 3000)))))
        if src.bool(0.2):
            rule.append(['lit', '.z'])
            parts.append('.z')
            if kind != 'int':            # plain, float and re wildcards would read on
                parts.pop()
                rule.pop()
    if src.bool(0.3):
        t = src.pick((1, '/' + 'end' * 60), (1, '/x'))
        rule.append(['lit', t])
        parts.append(t)
    return dict(rule=R.normalise(rule), path='/' + ''.join(parts), style=[src.below(12) for _ in range(3)])


def run_scale(case, ctx):
    run(case, ctx)
    n = sum(s[0] == 'wild' for s in case['rule'])
    ctx.tag('many' if n > 9 else 'few')
    ctx.tag('mixed' if 0 < sum(s[0] == 'wild' and s[1] is None for s in case['rule']) < n else 'pure')
    if len(case['path']) > 1500:
        ctx.tag('long')


def enum_small(tier):
    """every rule of up to 3 pieces from a small set x every path of up to 5 characters over a small alphabet that could match"""
    segs = [['lit', 'a'], ['lit', '/'], ['lit', '-'], ['lit', '0'], ['wild', 'x', None, None], ['wild', None, 'int', None], ['wild', 'f', 'float', None], ['wild', 'r', 're', '[a0]+'], ['wild', 'p', 'path', None], ['wild', None, 're', 'a(?=-|0)']]
    n = 3 if tier == 'quick' else 4
    paths = [''.join(t) for k in range(1, 5 if tier == 'quick' else 6) for t in itertools.product('a/-0.' if tier != 'quick' else 'a/-0', repeat=k)]
    rules = []
    for k in range(1, n + 1):
        for combo in itertools.product(segs, repeat=k):
            r = R.normalise([list(s) for s in combo])
            if r not in rules:
                rules.append(r)
    for r in rules:
        if any(s[0] == 'wild' for s in r):
            yield dict(rule=r, paths=paths)


def run_small(case, ctx):
    rule = case['rule']
    paths = [case['path']] if 'path' in case else case['paths']
    for p in paths:
        if R.match(rule, p.strip('/')) is not None:
            ctx.narrow = dict(rule=rule, path=p)
            run(dict(rule=rule, path=p, style=[0, 1, 2]), ctx)
            ctx.tag('matched')
    ctx.narrow = None


def legs(tier):
    return [
        Leg('rules', run, gen=gen, quick=120000, thorough=1500000, shards=5, hyp=400, fuzz=60000,
            need=('plain', 'int', 'float', 're', 'path', 'int-anon', 'float-anon', 're-anon', 'path-anon', 'adjacent', 'path+literal', 'glued', 'canonicalised')),
        Leg('small-scope', run_small, enum=enum_small, quick=0, thorough=0, shards=3, tshards=8, need=('matched', 'path+literal', 'adjacent', 'glued', 'canonicalised')),
        Leg('scale', run_scale, gen=gen_scale, quick=6000, thorough=100000, shards=2, hyp=40, need=('many', 'few', 'mixed', 'pure', 'long')),
        Leg('listed', lambda case, ctx: run(case, ctx, True)),
    ]
