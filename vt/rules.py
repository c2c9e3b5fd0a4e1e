"""Rules as data, their spellings, and the rule-by-rule reference matcher.

A rule is a list of segments:
   ['lit', text]
   ['wild', name|None, kind, conf]      kind: None int float re path rex
   ['wild', name|None, 'rex', conf, selector|None]
The reference never builds a tree: it walks one rule over one path."""
import re

RE_VALUES = {'[a-c]+': ['a', 'abc', 'b'], '[0-9]{2}': ['12', '00'], 'to.': ['tok', 'to/', 'toto'],
             '(?:ab|a)': ['ab', 'a', 'abc'], 'x(?=y)': ['x', 'xy'], '[^/]+': ['q', 'a b'],
             '[ab]{1,2}': ['ab', 'a', 'bba'], 'é+': ['é', 'éé'],
             # near relatives of the ones above: other case, other greediness, blanks, anchors
             '[A-C]+': ['A', 'ABC', 'aB'], '[a-c]+?': ['a', 'ab'], r'\d+': ['0', '12', '007'], r'\D+': ['a', 'ab-', '-'],
             r'\w+': ['a1', 'é', 'Ab'], r'\W+': ['-', '. '], 'TO.': ['TOK', 'TO/'], '(?i)ab': ['Ab', 'aB', 'ab'],
             '[ab]{1,2}$': ['ab', 'b'], ' [ab]': [' a', ' b'], '[ab]': ['a', 'b'], '[ab]?x': ['x', 'ax'],
             # parentheses, brackets and backslashes which the rule syntax has to tell from its own
             r'a\)b': ['a)b'], r'\(\w': ['(x', '(1'], '[()]+': ['(', ')(', '()'], '(?:a(?:b)?)': ['a', 'ab'], r'\\': ['\\'], r'a\\': ['a\\'],
             '(?:a|(?:b|(?:c)))+': ['abc', 'cb'], r'\\\(': ['\\('], '[{}<>:]+': ['{', ':>', '}'], r'\[': ['['], '(a)(b)?': ['a', 'ab'], r'(\)|b)': [')', 'b']}
RE_CONFS = list(RE_VALUES)
INF = float('inf')
REX_CONFS = ['(a)|(b)|(ab)', '(foo)|(bar)', 'x(1)?y(2)?', '[ab]+', 'x(1*)y|(2*)y', '(a?)(b?)c?', '(?:(a)|(b))+', '(x)(y?)', r'(a\))|(\(b)', '((a)b)|(c)', r'(\\)|(x)', '|'.join('(%s)' % c for c in 'abcdefghijkl')]


def follow(rule, i):
    ''' literal text right behind segment i (what a path wildcard stops at) '''
    return rule[i + 1][1] if i + 1 < len(rule) and rule[i + 1][0] == 'lit' else ''


def filter_key(rule, i):
    seg = rule[i]
    kind = seg[2]
    if kind == 'path':
        return ('path', follow(rule, i))
    if kind in ('re', 'rex'):
        return (kind, seg[3])
    return (kind,)


def mask(rule, i):
    kind = rule[i][2]
    if kind == 'int':
        return r'-?\d+'
    if kind == 'float':
        return r'-?\d+(\.\d+)?'
    if kind == 'path':
        lit = follow(rule, i)
        return '.+(?=%s)' % re.escape(lit) if lit else '.+$'
    return rule[i][3]


_cache = {}


def _compile(s):
    r = _cache.get(s)
    if r is None:
        if len(_cache) > 5000:
            _cache.clear()
        r = _cache[s] = re.compile(s)
    return r


def match(rule, path):
    """path without outer slashes -> list of (name, value, text) or None"""
    i, out, n = 0, [], len(path)
    for k, seg in enumerate(rule):
        if seg[0] == 'lit':
            if not path.startswith(seg[1], i):
                return None
            i += len(seg[1])
            continue
        if i >= n:                      # a wildcard needs something to look at
            return None
        kind = seg[2]
        if kind is None:
            j = path.find('/', i)
            if j < 0:
                j = n
            text = val = path[i:j]
            i = j
        else:
            m = _compile(mask(rule, k)).match(path[i:])
            if not m:
                return None
            text = val = m.group()
            i += m.end()
            if kind in ('int', 'float'):
                try:
                    val = int(text) if kind == 'int' else float(text)
                    if val in (INF, -INF):
                        return None
                except ValueError:      # the filter cannot convert it: not accepted
                    return None
            elif kind == 'rex':
                sel = None
                for gi, g in enumerate(m.groups(), 1):
                    if g is not None:
                        sel, val = gi, g
                        break
                if len(seg) > 4 and seg[4] is not None and seg[4] != sel:
                    return None
        out.append((seg[1], val, text))
    return out if i == n else None


def tokens(rule):
    """comparison form: literal characters, 'W' marks, selectors"""
    out = []
    for k, seg in enumerate(rule):
        if seg[0] == 'lit':
            out.extend(('c', c) for c in seg[1])
        else:
            out.append(('W', filter_key(rule, k)))
            if seg[2] == 'rex' and len(seg) > 4 and seg[4] is not None:
                out.append(('S', seg[4]))
    return out


def pattern_key(rule):
    ''' rules with equal keys are one route '''
    return tuple(('W',) if t[0] == 'W' else t for t in tokens(rule))


def conflict(a, b):
    """the two rules put different filters on the same wildcard position"""
    for x, y in zip(tokens(a), tokens(b)):
        if x[0] == 'W' and y[0] == 'W':
            if x != y:
                return True
        elif x != y:
            return False
    return False


def prefer(a, b):
    """of two rules matching the same path: literal text wins at the first difference"""
    ta, tb = tokens(a), tokens(b)
    for x, y in zip(ta, tb):
        if x == y:
            continue
        if x[0] == 'S' or y[0] == 'S':
            return a if x[0] == 'S' else b
        if x[0] == 'c' and y[0] == 'W':
            return a
        if x[0] == 'W' and y[0] == 'c':
            return b
        raise AssertionError(f'both rules cannot match: {a} {b}')
    return a if len(ta) > len(tb) and ta[len(tb)][0] == 'S' else b if len(tb) > len(ta) else a


def select(rules, path):
    """reference resolution; rules: list of rules -> (index, binding) or None"""
    best = None
    for i, r in enumerate(rules):
        m = match(r, path)
        if m is None:
            continue
        if best is None:
            best = (i, m)
        elif pattern_key(r) == pattern_key(rules[best[0]]):
            continue
        elif prefer(rules[best[0]], r) is r:
            best = (i, m)
    return best


# ------------------------------------------------------------------ spelling
def spell(rule, style):
    """render; style: list of ints, one per wildcard (cycled)"""
    out = ['/']
    w = 0
    for k, seg in enumerate(rule):
        if seg[0] == 'lit':
            out.append(seg[1])
            continue
        _, name, kind, conf = seg[:4]
        s = style[w % len(style)] if style else 0
        w += 1
        nxt = rule[k + 1] if k + 1 < len(rule) else None
        at_sep = nxt is None or nxt[0] == 'lit' and nxt[1][0] == '/'
        if kind is None:
            if name is None:
                assert at_sep
                out.append(':')
            elif at_sep and s % 3 == 0:
                out.append(':' + name)
            elif s % 3 == 1:
                out.append('<%s>' % name)
            else:
                out.append('{%s}' % name)
            continue
        if kind == 'rex':
            sel = '[%d]' % seg[4] if len(seg) > 4 and seg[4] is not None else ''
            out.append('{%srex(%s)%s}' % (name + '.' if name else '', conf, sel))
            continue
        op, cl = ('<', '>') if s % 2 else ('{', '}')
        if kind == 're':
            bottle = '}' not in conf and ':' not in conf and '>' not in conf
            if name is None:
                body = ':re:%s' % conf if bottle and s % 4 >= 2 else 're(%s)' % conf
            else:
                body = [name + '.re(%s)' % conf, name + ':re(%s)' % conf,
                        name + ':re:%s' % conf if bottle else name + '.re(%s)' % conf][s % 3]
        elif kind == 'path':
            if name is None:
                body = 'path()' if s % 4 < 2 else ':path'
            else:
                body = [name + ':path', name + '.path()', name + '.path', name + ':path()'][s % 4]
        else:                       # int / float: one spelling family keeps one filter object
            if name is None:
                body = kind + '()'
            else:
                body = name + ['.%s()', ':%s()'][s % 2] % kind
        out.append(op + body + cl)
    return ''.join(out)


def static_prefix_ok(rule):
    """domain of the generators: no dead rules (outer slashes are ignored in paths),
    no CR in rule text, distinct names, path not directly followed by a wildcard"""
    if rule:
        if rule[0][0] == 'lit' and rule[0][1].startswith('/'):
            return False
        if rule[-1][0] == 'lit' and rule[-1][1].endswith('/'):
            return False
    names = [s[1] for s in rule if s[0] == 'wild' and s[1]]
    if len(names) != len(set(names)):
        return False
    for k, s in enumerate(rule):
        if s[0] == 'wild':
            nxt = rule[k + 1] if k + 1 < len(rule) else None
            if s[2] == 'path' and nxt and nxt[0] == 'wild':
                return False
            if s[2] is None and s[1] is None and nxt:
                return False
    return True


# ------------------------------------------------------------------ generators
LITS = ['a', 'b', 'ab', 'abc', 'c', '-', '.', '0', 'x', 'é', 'to', '}', '\\', 'a b', '*', 'A', 'Ab', 'É', 'ss', 'ß']
NAMES = ['x', 'y', 'id', 'a1', 'name', 'X', 'Id', 'x_', '_x', 'anon', 'anon0', 'anon_0', 'anonymous', 'self', 'route', 'path', 'int']


def gen_wild(src, names, kinds=(None, None, None, 'int', 'float', 're', 'path'), anon=0.15, rex=False):
    kind = src.choice(kinds + (('rex', 'rex') if rex else ()))
    name = None if src.bool(anon) else src.choice(names)
    if kind == 're':
        return ['wild', name, 're', src.choice(RE_CONFS)]
    if kind == 'rex':
        conf = src.choice(REX_CONFS)
        ng = _compile(conf).groups
        sel = src.int(1, ng) if ng and src.bool(0.6) else None
        return ['wild', name, 'rex', conf, sel]
    return ['wild', name, kind, None]


def normalise(rule):
    ''' merge adjacent literals, repair what is outside the domain '''
    out = []
    for seg in rule:
        if seg[0] == 'lit':
            if not seg[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ['lit', out[-1][1] + seg[1]]
            else:
                out.append(list(seg))
        else:
            out.append(list(seg))
    used = set()
    for seg in out:
        if seg[0] == 'wild' and seg[1]:
            nm = seg[1]
            while nm in used:
                nm += '_'
            seg[1] = nm
            used.add(nm)
    if out and out[0][0] == 'lit':
        out[0][1] = out[0][1].lstrip('/')
    if out and out[-1][0] == 'lit':
        out[-1][1] = out[-1][1].rstrip('/')
    out = [s for s in out if s[0] == 'wild' or s[1]]
    for k, s in enumerate(out):
        if s[0] != 'wild':
            continue
        nxt = out[k + 1] if k + 1 < len(out) else None
        if s[2] == 'path' and nxt and nxt[0] == 'wild':
            s[2] = None
        if s[2] is None and s[1] is None and nxt:
            nm = 'n'
            while nm in used:
                nm += '_'
            s[1] = nm
            used.add(nm)
    return out


def gen_rule(src, *, anon=0.15, rex=False, kinds=(None, None, None, 'int', 'float', 're', 'path'), maxseg=4, lits=LITS):
    segs = []
    for i in range(0 if src.below(24) == 1 else src.count(1, maxseg, 2.2)):
        if i:
            segs.append(['lit', '/'])
        shape = src.below(8)
        if shape < 3:
            segs.append(['lit', src.choice(lits)])
        elif shape < 6:
            segs.append(gen_wild(src, NAMES, kinds, anon, rex))
        elif shape == 6:
            segs.append(['lit', src.choice(lits)])
            segs.append(gen_wild(src, NAMES, kinds, anon, rex))
            if src.bool(0.4):
                segs.append(['lit', src.choice(lits)])
        else:
            segs.append(gen_wild(src, NAMES, kinds, anon, rex))
            segs.append(src.pick((3, ['lit', src.choice(lits)]), (1, gen_wild(src, NAMES, kinds, anon, rex))))
    return normalise(segs)


def vary_rule(src, rule, **kw):
    """a relative: same prefix, different tail / swapped segment"""
    if not rule:
        return gen_rule(src, **kw)
    r = [list(s) for s in rule]
    how = src.below(5)
    k = src.below(len(r))
    if how == 0:                      # cut the tail, graft another
        tail = gen_rule(src, **kw)
        r = r[:k] + ([['lit', '/']] if src.bool() else []) + tail
    elif how == 1 and r[k][0] == 'lit':        # extend / shorten a literal
        t = r[k][1]
        r[k][1] = t + src.choice(LITS) if src.bool() else t[:-1]
    elif how == 2:                    # literal <-> wildcard
        if r[k][0] == 'lit':
            t = r[k][1]
            r[k:k + 1] = ([['lit', '/']] if t.startswith('/') else []) + [gen_wild(src, NAMES, kw.get('kinds', (None, 'int')), kw.get('anon', .15))] \
                + ([['lit', '/']] if t.endswith('/') else [])
        else:
            r[k] = ['lit', src.choice(LITS)]
    elif how == 3:                    # rename the wildcards
        for s in r:
            if s[0] == 'wild' and s[1]:
                s[1] = src.choice(NAMES)
    else:                             # extend
        r = r + [['lit', '/']] + gen_rule(src, **kw)
    return normalise(r)


def gen_rules(src, lo=1, hi=8, mean=4, **kw):
    rules = []
    n = src.count(lo, hi, mean)
    while len(rules) < n:
        if rules and src.bool(0.65):
            rules.append(vary_rule(src, src.choice(rules), **kw))
        else:
            rules.append(gen_rule(src, **kw))
    return rules


VALS = ['a', 'b', 'ab', 'abc', '0', '1', '12', '-3', '1.5', '-0.25', '1.', '.5', 'to', 'tok', 'x', 'xy', 'é', 'foo', 'bar',
        'x1y', 'x1y2', '', 'a b', 'a\n', '\r', 'a\rb', '٣', '007', '1e3', '-', '--1', '%2F', 'a.b', 'foobar', '{x}', ':x', '*', '\x00', 'A', 'AB', 'aB', 'É', 'ß', 'TOK', ' a', 'e\u0301', '１']


def gen_number(src):
    """text which some notion of "a number" accepts: signs, underscores, exponents, other bases, words, other digits"""
    if src.bool(0.2):
        return src.choice(['nan', 'inf', '-inf', 'infinity', 'NaN', 'True', 'None', '0x1F', '0b1', '0o7', '1j', '1L', '1.', '.5', '-.5', '-', '+', '1-2', '1/2', '²', '½', '一', '⁻1', '1,5', '1 000', ' 1', '1 ', '1\n', '-٣', '१.५'])
    d = lambda: ''.join(src.choice('0123456789') for _ in range(src.pick((4, 1), (3, 2), (1, 5))))
    out = src.pick((6, ''), (3, '-'), (1, '+'), (1, '--'), (1, '\u2212')) + d()
    for _ in range(src.pick((5, 0), (4, 1), (1, 2))):
        out += src.choice(['.', '_', 'e', 'E', 'e-', 'e+', ',', '.-', '..', '-', '_.', '._', "'", ' ', 'x', 'L']) + (d() if src.bool(0.85) else '')
    return out


def gen_path(src, rules):
    """a path aimed at one rule, then disturbed"""
    parts = []
    if rules:
        r = src.choice(rules)
        lits = [t for q in rules for g in q if g[0] == 'lit' for t in g[1].split('/') if t] or ['a']
        for k, s in enumerate(r):
            if s[0] == 'lit':
                parts.append(s[1])
            else:
                kind = s[2]
                if kind in (None, 're') and src.bool(0.4):
                    parts.append(src.choice(lits))
                elif kind == 'path' and src.bool(0.3):
                    parts.append('/'.join(src.list(lambda: src.choice(lits), 1, 3, 2)))
                elif kind in ('int', 'float') and src.bool(0.4):
                    parts.append(gen_number(src))
                elif kind == 'int' and src.bool(0.75):
                    parts.append(src.choice(['0', '1', '12', '-3', '007', '٣', '99999999999999999999']))
                elif kind == 'float' and src.bool(0.75):
                    parts.append(src.choice(['0', '1.5', '-0.25', '12', '-3.0', '3.14159', '00.50', '1' * 30]))
                elif kind == 'path' and src.bool(0.75):
                    parts.append('/'.join(src.list(lambda: src.choice(VALS), 1, 4, 2)))
                elif kind == 're' and src.bool(0.75):
                    parts.append(src.choice(RE_VALUES.get(s[3], ['a'])))
                elif kind == 'rex' and src.bool(0.8):
                    parts.append(src.choice(['a', 'b', 'ab', 'foo', 'bar', 'j', 'l', 'a)', '(b', '\\', 'x1y', 'xy2', 'xy', 'x1y2', 'y', '2y', 'bc', 'c', 'ba', 'x', 'x11y']))
                else:
                    parts.append(src.choice(VALS))
    p = ''.join(parts)
    for _ in range(src.count(0, 3, 0.6)):
        how = src.below(6)
        k = src.below(len(p) + 1)
        if how == 0:
            p = p[:k] + src.choice(['a', 'b', '/', '0', '.', '-', '\r', 'é', '\n', 'x', '_', 'e', 'E', '+']) + p[k:]
        elif how == 1:
            p = p[:k] + p[k + 1:]
        elif how == 2:
            p = p[:k] + src.choice(['a', 'b', '/', '0', 'c']) + p[k + 1:]
        elif how == 3:
            p = p + '/' + src.choice(VALS)
        elif how == 4:
            p = p[:k]
        else:
            q = ''.join(s[1] for s in src.choice(rules) if s[0] == 'lit') if rules else 'a'
            p = p[:k] + q
    p = '/' * src.pick((12, 1), (1, 0), (1, 2)) + p + '/' * src.pick((9, 0), (2, 1), (1, 2))
    return p
