"""C14 - response header values cannot split the response and are wire-safe."""
import datetime
import enum
import re

from vt.core import Leg, Violation
from vt.app import make_app
from vt import wsgi

RULE = ('case = a sequence of header operations (item assignment, append, setdefault, delete, clear, the header attributes, constructor arguments as '
        'mapping / pairs / keywords) with values over all of Unicode, control characters at any position, ints, floats, bools, None, '
        'hostile subclasses and other types, on the application response, on raised or returned HTTPResponse / HTTPError, or on redirect(), '
        'x status x method; oracle: an offer containing CR, LF or NUL raises and changes nothing; the emitted list, read back as '
        'Latin-1 -> UTF-8, equals the modelled values per name in order; forbidden entity headers absent for 204/304 in any letter case. '
        'Non-trivial: some value is not plain ASCII, or is rejected, or a header is multi-valued or forbidden.')
ASSUMPTIONS = ['header names are tokens; one spelling per header and case', 'text that UTF-8 cannot encode (lone surrogates) may be refused at the setter or fail the response with 500',
               'objects of unsupported types may be rejected; if accepted only the wire form is judged', 'the bulk operations update() and .dict are not single-value setters']

FORBID = {204: {'content-type'}, 304: {'allow', 'content-encoding', 'content-language', 'content-length', 'content-range', 'content-type', 'content-md5', 'last-modified'}}
NAMES = ['X-A', 'X-B', 'x-low', 'X_U', 'ETag', 'Vary', 'Location', 'Content-Type', 'Content-Length', 'Content-Language', 'Content-Encoding', 'Content-Range', 'Content-MD5', 'Last-Modified', 'Allow', 'Expires', 'Link', 'P3P']
SPELL = [str, str.lower, str.upper, str.title]
CTL = re.compile('[\r\n\0]')


class EvilStr(str):
    def __new__(cls, shown, inner):
        s = str.__new__(cls, inner)
        s.shown = shown
        return s

    def __str__(self):
        return self.shown


class EvilInt(int):
    def __str__(self):
        return '1\r\nX-Evil: 1'
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


class EvilFloat(float):
    def __str__(self):
        return '1.0\nX-Evil: 1'
    __repr__ = __str__


class EvilEnum(str, enum.Enum):
    A = 'a\r\nX-Evil: 1'


class Obj:
    def __str__(self):
        return 'a\r\nX-Evil: 1'
    encode = None


class Obj2:
    def __str__(self):
        return 'plain'


OTHER = ['bytes', 'bytes-ctl', 'list', 'list-ctl', 'tuple', 'dict', 'evilstr1', 'evilstr2', 'evilint', 'evilfloat', 'enum', 'obj', 'obj2', 'date', 'complex', 'bytearray']


def build(v):
    k = v[0]
    if k == 'v':
        return v[1]
    return {'bytes': b'abc', 'bytes-ctl': b'a\r\nX: b', 'list': ['a', 'b'], 'list-ctl': ['a', 'b\r\nX-Evil: 1'], 'tuple': ('a\r\nb',), 'dict': {'a': 'b\n'}, 'evilstr1': EvilStr('a\r\nX-Evil: 1', 'inner'),
            'evilstr2': EvilStr('shown', 'inner\r\nX-Evil: 1'), 'evilint': EvilInt(3), 'evilfloat': EvilFloat(2.0), 'enum': EvilEnum.A, 'obj': Obj(), 'obj2': Obj2(),
            'date': datetime.datetime(2020, 1, 2, 3, 4, 5), 'complex': 1j, 'bytearray': bytearray(b'x\n')}[k]


def gen_text(src):
    how = src.below(6)
    if how == 0:
        return src.choice(['', 'a', 'v 1', 'text/plain', 'text/html; charset=utf8', '1', '"q"', 'a,b', ' lead', 'trail ', 'x' * 300])
    alpha = ['a', 'é', '\xff', '\x80', '日', '\U0001f600', '\t', ' ', ';', '\x7f', '\x01', '\x0b', '\x0c', '\x1c', '\x1e', '\x85', '\u2028', '\u2029', '\ufeff', '\u0130', 'ſ', '%0d%0a', '\\r\\n', 'İ', '\ud7ff', '\ue000', '\U0010ffff', '\x1f']
    n = src.count(1, 8, 3)
    out = [src.choice(alpha) if src.bool(0.8) else chr(src.pick((1, 0), (1, 0x80), (1, 0x7f0), (1, 0xff00)) + src.below(256)) for _ in range(n)]
    if how in (1, 2):
        out.insert(src.below(len(out) + 1), src.choice(['\r', '\n', '\0', '\r\n', '\r\nX-Evil: 1', '\n\n<b>', '\r\n\r\n']))
    elif how == 3 and src.bool(0.1):
        out.insert(src.below(len(out) + 1), src.choice(['\ud800', '\udfff', '\udc0a']))
    return ''.join(out)


def gen_value(src):
    k = src.pick((8, 't'), (1, 'i'), (1, 'f'), (1, 'o'), (1, 'b'))
    if k == 't':
        return ('v', gen_text(src))
    if k == 'i':
        return ('v', src.choice([0, 1, -5, 10 ** 30, 1 << 70]))
    if k == 'f':
        return ('v', src.choice([0.0, -1.5, 1e300, 1e16, float('inf'), float('nan')]))
    if k == 'b':
        return ('v', src.choice([None, True, False]))
    return (src.choice(OTHER),)


OPS = ['set', 'append', 'setdefault', 'ctype', 'clen', 'expires', 'del', 'clear', 'clearname', 'rset']


def gen_ops(src, lo=0, hi=7, mean=3):
    pool = [src.choice(SPELL)(src.choice(NAMES)) for _ in range(3)]
    pool = list({n.lower(): n for n in pool}.values())
    ops = []
    for _ in range(src.count(lo, hi, mean)):
        op = src.pick((4, 'set'), (4, 'append'), (3, 'setdefault'), (1, 'ctype'), (1, 'clen'), (1, 'expires'), (1, 'del'), (1, 'clearname'))
        name = src.choice(pool)
        if op in ('ctype', 'clen', 'expires'):
            name = {'ctype': 'Content-Type', 'clen': 'Content-Length', 'expires': 'Expires'}[op]
            if any(n.lower() == name.lower() and n != name for n in pool):
                continue
        ops.append((op, name, gen_value(src)))
    return ops, pool


class Model(dict):
    """name -> list of texts; OPEN where an unsupported object was accepted"""
    def __init__(self, *a):
        super().__init__(*a)
        self.open = set()

    def forget(self, name):
        self.pop(name, None)
        self.open.discard(name)


def offer(ctx, model, name, v, how, do, exists_may_skip=False):
    val = build(v)
    plain = v[0] == 'v'
    text = str(val) if plain else None
    bad = plain and CTL.search(text)
    surro = plain and re.search('[\ud800-\udfff]', text)
    try:
        do(val)
        raised = None
    except Violation:
        raise
    except Exception as e:
        raised = e
    if bad:
        if raised is None and not (exists_may_skip and how == 'setdefault'):
            ctx.fail(f'{how} of {name!r} accepts {text!r}')
        ctx.tag('rejected')
        return False
    if raised is not None:
        ctx.check(not plain or surro, lambda: f'{how} of {name!r} rejects {val!r}: {raised!r}')
        return False
    if surro:
        model.surrogates = True
    return text if plain else True


def apply_ops(ctx, res, ops, model):
    H = res.headers
    for op, name, v in ops:
        if op == 'set':
            r = offer(ctx, model, name, v, 'item assignment', lambda x: H.__setitem__(name, x))
        elif op == 'append':
            r = offer(ctx, model, name, v, 'append', lambda x: H.append(name, x))
        elif op == 'setdefault':
            r = offer(ctx, model, name, v, 'setdefault', lambda x: H.setdefault(name, x), exists_may_skip=name in model or name in model.open)
        elif op == 'ctype':
            r = offer(ctx, model, name, v, 'content_type', lambda x: setattr(res, 'content_type', x))
        elif op == 'clen':
            r = offer(ctx, model, name, v, 'content_length', lambda x: setattr(res, 'content_length', x))
        elif op == 'expires':
            if v[0] == 'v' and not isinstance(v[1], str) or v[0] == 'date':
                continue
            r = offer(ctx, model, name, v, 'expires', lambda x: setattr(res, 'expires', x))
        elif op == 'del':
            if name in model:
                del H[name]
                model.forget(name)
            continue
        elif op == 'clearname':
            H.clear(name)
            model.forget(name)
            continue
        if r is False:
            continue
        known = name in model or name in model.open
        if r is True:                      # an unsupported object went in
            if op == 'setdefault' and known:
                continue
            model.pop(name, None)
            model.open.add(name)
        elif name in model.open and op != 'set' and op not in ('ctype', 'clen', 'expires'):
            pass
        elif op == 'append':
            model.setdefault(name, [])
            model[name] = model[name] + [r]
        elif op == 'setdefault':
            model.setdefault(name, [r])
        else:
            model.open.discard(name)
            model[name] = [r]


def construct(ctx, cls, how, status, init, model):
    """build a response through its constructor; bad values must be refused"""
    vals = [(n, build(v)) for n, v in init]
    texts = [str(x) if v[0] == 'v' else None for (n, v), (_, x) in zip(init, vals)]
    bad = any(t is not None and CTL.search(t) for t in texts)
    other = any(t is None for t in texts)
    surro = any(t is not None and re.search('[\ud800-\udfff]', t) for t in texts)
    kw = {}
    if how == 'kw':
        kw = dict(vals)
        merged = {n: t for (n, _), t in zip(init, texts)}
        items = [(n, t) for n, t in merged.items()]
        bad = any(t is not None and CTL.search(t) for _, t in items)
        other = any(t is None for _, t in items)
    elif how == 'dict':
        kw = dict(headers=dict(vals))
        items = list({n: t for (n, _), t in zip(init, texts)}.items())
        bad = any(t is not None and CTL.search(t) for _, t in items)
        other = any(t is None for _, t in items)
    else:
        kw = dict(headers=vals)
        items = [(n, t) for (n, _), t in zip(init, texts)]
    try:
        res = cls(status=status, body='', **kw)
    except Violation:
        raise
    except Exception as e:
        ctx.check(bad or other or surro, lambda: f'{cls.__name__}({kw}) raises {e!r}')
        if bad:
            ctx.tag('rejected-constructor')
        return cls(status=status, body='')
    ctx.check(not bad, lambda: f'{cls.__name__}({kw}) is accepted')
    for n, t in items:
        if t is None:
            model.pop(n, None)
            model.open.add(n)
        elif n not in model.open:
            model[n] = model.get(n, []) + [t]
            if re.search('[\ud800-\udfff]', t):
                model.surrogates = True
    return res


def judge(ctx, hl, model, status, what, extra=()):
    got = {}
    for k, v in hl:
        got.setdefault(k, []).append(v)
    forbid = FORBID.get(status, ())
    for k in got:
        ctx.check(k.lower() not in forbid, lambda: f'{k!r} is emitted with {status}: {what()}')
        ctx.check('evil' not in k.lower(), lambda: f'{k!r} emitted: {what()}')
    for n, vs in model.items():
        if n.lower() in forbid:
            ctx.tag('forbidden-withheld')
            ctx.nontrivial()
            continue
        back = []
        for v in got.get(n, []):
            try:
                back.append(v.encode('latin1').decode('utf8'))
            except UnicodeError as e:
                ctx.fail(f'{n}: {v!r} is not UTF-8 in Latin-1 ({e}): {what()}')
        ctx.check(back == vs, lambda: f'{n} is emitted as {back!r}, expected {vs!r}: {what()}')
        if len(vs) > 1:
            ctx.tag('multi')
            ctx.nontrivial()
        if not all(v.isascii() for v in vs):
            ctx.tag('non-ascii')
            ctx.nontrivial()
    known = {n.lower() for n in model} | {n.lower() for n in model.open} | {'content-type', 'content-length', *extra}
    for k in got:
        ctx.check(k.lower() in known, lambda: f'unexpected header {k!r} (values {got[k]!r}): {what()}')


STATUS = [200, 204, 304, 404, 500, 299, 201, 301]


def gen(src):
    where = src.pick((3, 'direct'), (3, 'wsgi'), (2, 'raise'), (1, 'return'), (1, 'error'), (1, 'redirect'))
    ops, pool = gen_ops(src)
    init = [(src.choice(pool), gen_value(src)) for _ in range(src.count(0, 4, 1))] if where in ('direct', 'raise', 'return', 'error') else []
    if where == 'redirect':       # Location is the redirect's own
        ops = [o for o in ops if o[1].lower() != 'location']
    return dict(where=where, cls=src.choice(['HTTPResponse', 'HTTPError']), how=src.choice(['list', 'dict', 'kw']), init=init, ops=ops, method=src.choice(['GET', 'HEAD', 'POST']),
                status=src.choice(STATUS), body=src.choice(['', 'x', 'é']), location='/' + gen_text(src) if where == 'redirect' and src.bool() else '/x', early=src.bool(0.3))


def run(case, ctx):
    import ombott
    model = Model()
    model.surrogates = False
    status, where = case['status'], case['where']
    what = lambda: repr(case)   # noqa
    n0 = ctx.tags.get('rejected', 0) + ctx.tags.get('rejected-constructor', 0)
    if where == 'direct':
        cls = {'HTTPResponse': ombott.HTTPResponse, 'HTTPError': ombott.HTTPError}[case['cls']]
        res = construct(ctx, cls, case['how'], status, case['init'], model)
        apply_ops(ctx, res, case['ops'], model)
        try:
            hl = res.headerlist
        except Exception:
            if model.open or model.surrogates:
                return
            raise
        wsgi_like(ctx, hl, what)
        judge(ctx, hl, model, status, what)
    else:
        redirect = where == 'redirect'
        app = ombott.default_app() if redirect else make_app()
        err = []

        def h():
            try:
                if where in ('wsgi', 'redirect'):
                    app.response.status = status
                    apply_ops(ctx, app.response, case['ops'], model)
                    if redirect:
                        ombott.redirect(case['location'])
                    return case['body']
                cls = ombott.HTTPError if where == 'error' else ombott.HTTPResponse
                if case['early']:
                    app.response.headers['X-Evil-Early'] = 'dropped'
                r = construct(ctx, cls, case['how'], status, case['init'], model)
                apply_ops(ctx, r, case['ops'], model)
                r.body = case['body']
            except Violation as v:
                err.append(v)
                return ''
            except ombott.HTTPResponse:
                raise
            if where == 'return':
                return r
            raise r
        app.route('/c14', method=['GET', 'HEAD', 'POST'], callback=h, overwrite=True)
        try:
            res = wsgi.call(app, wsgi.environ(case['method'], '/c14'))
        finally:
            if redirect:
                app.remove_route('/c14')
        if err:
            raise err[0]
        if redirect and res.code == 500 and (CTL.search(case['location']) or not case['location'].isascii() or '[' in case['location']):
            return
        if res.code == 500 and (model.open or model.surrogates):
            ctx.check(not any('evil' in k.lower() for k, _ in res.headers), lambda: f'{res}: {what()}')
            ctx.tag('unsendable')
            return
        want = 303 if redirect else status
        ctx.check(res.code == want, lambda: f'answered {res.status} {res.errors[-400:]}: {what()}')
        judge(ctx, res.headers, model, want, what, extra=('location',) if redirect else ())
    ctx.tag(where)
    ctx.tag(f'{where}-{status}' if status in (204, 304) else 'other-status')
    if ctx.tags.get('rejected', 0) + ctx.tags.get('rejected-constructor', 0) > n0 or model.open:
        ctx.nontrivial()


def wsgi_like(ctx, hl, what):
    for item in hl:
        ctx.check(isinstance(item, tuple) and len(item) == 2 and type(item[0]) is str and type(item[1]) is str, lambda: f'header item {item!r}: {what()}')
        ctx.check(not CTL.search(item[1]), lambda: f'header item {item!r}: {what()}')
        try:
            item[1].encode('latin1')
        except UnicodeError:
            ctx.fail(f'header item {item!r} is not Latin-1: {what()}')


# ---- many headers, many values of one header, long values
def gen_scale(src):
    def text():
        unit = src.choice(['x', 'é', 'a, b', '日', 'a;', ' ', '%'])
        n = src.pick((4, 3), (2, 90), (1, 1100), (1, 9000))
        t = unit * (n + src.below(9))
        if src.bool(0.3):                # another kind of character once, anywhere
            i = src.pick((1, 0), (3, len(t)), (2, len(t) - 1), (2, src.below(len(t) + 1)))
            t = t[:i] + src.choice(['é', '日', '\u2028', 'x', ' ', '\x7f', '\U0001f600', '\x85', ',']) + t[i:]
        if src.bool(0.15):
            i = src.pick((1, 0), (2, len(t) - 1), (1, len(t)), (2, src.below(len(t) + 1)))
            t = t[:i] + src.choice(['\r', '\n', '\0', '\r\nX-Evil: 1', '\n\n<b>']) + t[i:]
        return ('v', t)
    names = ['X-A', 'Vary', 'Link', 'ETag'] + ['X-%d' % i for i in range(src.pick((2, 0), (2, 10), (1, 150)))]
    where = src.pick((3, 'direct'), (3, 'wsgi'), (2, 'raise'), (1, 'return'), (1, 'error'))
    init = [(src.choice(names), text()) for _ in range(src.pick((4, 0), (1, 2), (1, 40)))] if where != 'wsgi' else []
    one = src.choice(names)
    ops = []
    for _ in range(src.pick((2, 4), (2, 25), (1, 130))):
        k = src.pick((2, 'set'), (6, 'append'), (1, 'setdefault'), (1, 'del'))
        n = one if src.bool(0.4) else src.choice(names)
        if k == 'del' and n == one:
            k = 'append'
        ops.append((k, n, text()))
    return dict(where=where, cls=src.choice(['HTTPResponse', 'HTTPError']), how=src.choice(['list', 'dict', 'kw']), init=init, ops=ops, method='GET', status=src.choice([200, 404, 204, 304]), body='x' if where != 'direct' else '', location='/x', early=False)


def run_scale(case, ctx):
    run(case, ctx)
    if len(case['ops']) > 100:
        ctx.tag('many-ops')
    if any(len(o[2][1]) > 5000 and CTL.search(o[2][1]) for o in case['ops']):
        ctx.tag('long-bad')
    if any(len(o[2][1]) > 5000 and not CTL.search(o[2][1]) for o in case['ops']):
        ctx.tag('long-good')


# ---- every setter x control character / every BMP block x position
def enum_chars(tier):
    step = 1 if tier == 'thorough' else 1
    cps = list(range(0, 0x300, step)) + [0x2028, 0x2029, 0xfeff, 0xfffd, 0x10ffff, 0x0a0d, 0x0d0a, 0x010a, 0x010d, 0x0100, 0x560a, 0x560d, 0x5600, 0x1f60a, 0x1f60d, 0xd7ff, 0xe000]
    if tier == 'thorough':
        cps += list(range(0x300, 0xd800, 3)) + list(range(0x10000, 0x10ffff, 199))
    for cp in cps:
        yield dict(cp=cp)


def run_chars(case, ctx):
    import ombott
    c = chr(case['cp'])
    app = make_app()
    box = []
    texts = ['a' + c + 'b', c + 'b', 'a' + c, c, 'a' * 40 + c + 'b' * 3]

    def setters(name):
        def attr(a):
            return lambda r, v: setattr(r, a, v)
        return [('item', name, lambda r, v: r.headers.__setitem__(name, v)), ('append', name, lambda r, v: r.headers.append(name, v)),
                ('append2', name, lambda r, v: (r.headers.append(name, 'first'), r.headers.append(name, v))), ('append3', name, lambda r, v: (r.headers.append(name, 'first'), r.headers.append(name, 'first'), r.headers.append(name, v))),
                ('setdefault', name, lambda r, v: r.headers.setdefault(name, v)), ('content_type', 'Content-Type', attr('content_type')), ('content_length', 'Content-Length', attr('content_length')),
                ('expires', 'Expires', attr('expires'))]

    @app.route('/')
    def h():
        box[0](app.response)
        return ''
    for text in texts:
        bad = c in '\r\n\0'
        for how, name, do in setters('X-T'):
            for target in ('response', 'HTTPResponse'):
                raised = []

                def act(r):
                    try:
                        do(r, text)
                    except (ValueError, TypeError) as e:
                        raised.append(e)
                if target == 'response':
                    box[:] = [act]
                    hl = wsgi.call(app, wsgi.environ()).headers
                else:
                    r = ombott.HTTPResponse()
                    act(r)
                    hl = r.headerlist
                    wsgi_like(ctx, hl, lambda: f'{how} {text!r}')
                vals = [v.encode('latin1').decode('utf8') for k, v in hl if k == name]
                if bad:
                    ctx.check(raised, lambda: f'{how} on {target} accepts {text!r}')
                    ctx.check(text not in vals, lambda: f'{how} on {target}: {text!r} is emitted')
                else:
                    ctx.check(not raised, lambda: f'{how} on {target} rejects {text!r}: {raised}')
                    ctx.check(vals[-1:] == [text], lambda: f'{how} on {target}: {text!r} is emitted as {vals!r}')
        for cls in (ombott.HTTPResponse, ombott.HTTPError):
            for kw in (dict(headers={'X-T': text}), dict(headers=[('X-S', 'ok'), ('X-T', text)]), {'X-T': text}, dict(headers=[('X-T', 'first'), ('X-T', text)])):
                try:
                    r = cls(**kw)
                except ValueError:
                    ctx.check(bad, lambda: f'{cls.__name__}({kw!r}) is rejected')
                    continue
                ctx.check(not bad, lambda: f'{cls.__name__}({kw!r}) is accepted')
                vals = [v.encode('latin1').decode('utf8') for k, v in r.headerlist if k == 'X-T']
                ctx.check(vals[-1] == text, lambda: f'{cls.__name__}({kw!r}) emits {vals!r}')
    ctx.nontrivial()


# ---- 204/304: every forbidden header, any letter case, every way to send it
def enum_forbid(tier):
    for status in (204, 304):
        for name in ['Allow', 'Content-Encoding', 'Content-Language', 'Content-Length', 'Content-Range', 'Content-Type', 'Content-MD5', 'Content-Md5', 'Last-Modified', 'ETag', 'X-A', 'Vary', 'Location', 'Set-Cookie2']:
            for sp in range(4):
                for where in ('wsgi', 'raise', 'return', 'error', 'direct'):
                    for line in (False, True):
                        yield dict(where=where, cls='HTTPResponse', how='list', init=[], ops=[('set' if sp % 2 else 'append', SPELL[sp](name), ('v', '5'))] + ([('append', SPELL[sp](name), ('v', '6'))] if line else []),
                                   method='GET', status=status, body='', early=False)


def legs(tier):
    return [
        Leg('ops', run, gen=gen, quick=240000, thorough=3000000, shards=6, hyp=400,
            need=('direct', 'wsgi', 'raise', 'return', 'error', 'redirect', 'rejected', 'rejected-constructor', 'multi', 'non-ascii', 'forbidden-withheld', 'wsgi-304', 'wsgi-204', 'direct-304')),
        Leg('scale', run_scale, gen=gen_scale, quick=10000, thorough=100000, shards=2, hyp=40, need=('many-ops', 'long-bad', 'long-good', 'multi', 'non-ascii', 'rejected')),
        Leg('characters', run_chars, enum=enum_chars, quick=0, thorough=0, shards=2, tshards=6),
        Leg('forbidden', run, enum=enum_forbid, quick=0, thorough=0, shards=1, tshards=1, need=('forbidden-withheld',)),
    ]
