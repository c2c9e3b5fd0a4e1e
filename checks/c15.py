"""C15 - cookies round-trip; forged signed cookies are never deserialised."""
import base64
import datetime
import decimal
import hashlib
import hmac
import pickle
import sys

from vt.core import Leg
from vt import wsgi

RULE = ('round trip: sets of cookies (token names; text over all of Unicode with every separator, quote and backslash, the empty string; '
        'picklable values of many types with text / bytes / long secrets; attributes) set on the response object, a raised or returned '
        'response, a copied response or a redirect, sent back as a client does, read with get_cookie and compared with what was set. '
        'Forgery: cookies signed with the real key and then altered (every position x every other character of the alphabet, deletions, insertions, truncations of '
        'either part, swapped parts, decoded-equal base64), signed with other keys or not at all, whose payload is a pickle with a canary; the cookie must read as '
        'the default and neither the unpickler nor the canary may run. Non-trivial: a value needing quoting / UTF-8 / pickling, or a forgery which differs from a valid cookie.')
ASSUMPTIONS = ['cookie names are RFC 6265 tokens which do not start with $ and are no attribute names (http.cookies does not read those back)',
               'plain text has no control characters (this http.cookies refuses to set them)',
               'a signed cookie is at most 4096 characters (documented limit)', 'secrets are not equivalent as HMAC keys (no trailing NUL, not the digest of the other)',
               'a request carries only cookies set by this application', 'text has no lone surrogates']

NAMES = ['a', 'b', 'session', 'x-y', 'A', 'n1', '_', 'a.b', '~', 'user_id', '!#%&', "it's", 'Sess', 'p|q', '^', '`', '*+', 'token', 'c1']
RESERVED = {'expires', 'path', 'comment', 'domain', 'max-age', 'secure', 'httponly', 'version', 'samesite'}

TEXTS = ['', 'v', 'a b', 'a=b', 'a;b', 'a,b', '"', '"q"', '\\', '\\"', 'é', 'Жук', 'é€', '日本', '\U0001f600', '\x80', '\xff', '\\351', '\\303\\251', '%41', '!sig?msg', '!?', '?', ' ', ' x ', '""', "'",
         '<&>', 'Ã©', 'None', '0', 'a' * 200, 'é' * 50, '\u2028', '\ufeff', 'Thu, 01 Jan 1970 00:00:00 GMT', '$x', '\\u00e9', '\u0100', '~' * 10, '=', ';', ',']


def gen_text(src):
    return ''.join(c for c in gen_text_(src) if c >= ' ' and c != '\x7f')


def gen_text_(src):
    if src.bool(0.7):
        return src.choice(TEXTS)
    if src.bool():
        return src.choice(TEXTS) + src.choice(TEXTS)
    return ''.join(chr(c) if not 0xd800 <= c < 0xe000 else 'x' for c in (src.pick((4, src.int(0, 255)), (1, src.int(0, 0x2ff)), (1, src.int(0, 0x10ffff))) for _ in range(src.count(0, 12, 5))))


def gen_value(src, depth=2):
    k = src.pick((4, 'text'), (2, 'int'), (1, 'none'), (1, 'bool'), (1, 'float'), (2, 'bytes'), (1, 'date'), (1, 'dec'), (2 if depth else 0, 'list'), (2 if depth else 0, 'tuple'), (2 if depth else 0, 'dict'), (1 if depth else 0, 'set'))
    if k == 'text':
        return gen_text(src)
    if k == 'int':
        return src.pick((3, src.int(-5, 300)), (1, 10 ** 30), (1, 0))
    if k == 'none':
        return None
    if k == 'bool':
        return src.bool()
    if k == 'float':
        return src.choice([0.0, 1.5, -2.25, 1e300, float('inf')])
    if k == 'bytes':
        return src.raw(src.count(0, 20, 6)) if hasattr(src, 'raw') else bytes(src.below(256) for _ in range(src.count(0, 20, 6)))
    if k == 'date':
        return datetime.datetime(2020, 1, 1 + src.below(28), src.below(24))
    if k == 'dec':
        return decimal.Decimal(src.below(1000)) / 8
    items = [gen_value(src, depth - 1) for _ in range(src.count(0, 4, 1.5))]
    if k == 'list':
        return items
    if k == 'tuple':
        return tuple(items)
    if k == 'dict':
        return {gen_text(src): v for v in items}
    return {src.int(0, 50) for _ in items}


SECRETS = ['s3cret', 'x', 'ключ', b'bytes\x00key', b'\xff\xfe', 'k' * 100, 's3cret2', 'S3cret', ' s3cret', 's', 's3cret ', 'k' * 101, 'é', 'e\u0301', '0', 'a' * 64, 'a' * 65]


def tob(s):
    return s if isinstance(s, bytes) else s.encode('utf8')


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


# --------------------------------------------------------------- round trip
def gen_trip(src):
    cookies = []
    names = src.list(lambda: src.choice(NAMES), 1, 5, 2.2)
    for n in names:
        secret = src.choice(SECRETS) if src.bool(0.45) else None
        value = gen_value(src) if secret is not None else gen_text(src)
        opts = {}
        for _ in range(src.count(0, 3, 0.7)):
            o, v = src.choice([('path', '/'), ('path', '/a b'), ('path', '/é'), ('max_age', 100), ('max_age', ('delta', 5)), ('expires', 86400), ('expires', ('date', 2030)), ('expires', 'Thu, 01-Jan-2030 00:00:00 GMT'), ('domain', '.example.org'),
                               ('httponly', True), ('secure', True), ('samesite', 'lax'), ('comment', 'a "b" c; d'), ('version', '1'), ('path', ''), ('secure', False), ('httponly', False), ('max_age', 0), ('domain', ''), ('comment', '')])
            opts[o] = v
        cookies.append([n, value, secret, opts])
    how = src.pick((5, 'response'), (2, 'raise'), (1, 'return'), (2, 'copy'), (2, 'redirect'), (1, 'raise-plain'), (1, 'error-page'), (1, 'after-hook'), (1, 'generator'))
    return dict(cookies=cookies, how=how, sep=src.pick((4, '; '), (1, ';'), (1, ' ; ')), order=src.below(24), again=src.bool(0.3))


def gen_big(src):
    """many cookies, values near the limit, long secrets"""
    cookies = []
    for i in range(src.pick((2, 1), (2, 6), (1, 70)) + src.below(3)):
        secret = src.choice(SECRETS + ['k' * 1000, b'\xff' * 3000]) if src.bool(0.5) else None
        unit = src.choice(['x', 'é', 'a;b', '"', 'Жук ', '=', '\\'])
        room = src.pick((2, 200), (2, 1200), (3, 2900)) if secret is not None else src.pick((2, 200), (2, 1200), (3, 3990))
        n = room // len(unit.encode()) - src.below(12)
        value = unit * n
        if secret is not None and src.bool(0.4):
            value = src.pick((1, {'k%d' % j: 'v' * 20 for j in range(n // 60)}), (1, list(range(n // 6))), (1, bytes(range(256)) * (n // 400)), (1, [[[value[:n // 2]]]]))
        cookies.append(['n%d%s' % (i, 'x' * src.pick((4, 0), (1, 100))), value, secret, {}])
    return dict(cookies=cookies, how=src.choice(['response', 'raise', 'copy', 'redirect', 'error-page']), sep=src.pick((4, '; '), (1, ';')), order=src.below(24), again=src.bool(0.3))


def run_big(case, ctx):
    run_trip(case, ctx)
    ctx.tag('many' if len(case['cookies']) > 50 else 'few')
    if any(s is None and len(v) > 3000 for _, v, s, _ in case['cookies']):
        ctx.tag('long')
    if any(s is not None and isinstance(v, str) and len(v.encode()) > 2800 for _, v, s, _ in case['cookies']):
        ctx.tag('long-signed')


def option(v):
    if isinstance(v, (list, tuple)):
        return datetime.timedelta(seconds=v[1]) if v[0] == 'delta' else datetime.datetime(v[1], 1, 1)
    return v


def set_all(res, cookies):
    for n, v, secret, opts in cookies:
        kw = {k: option(x) for k, x in opts.items()}
        if secret is not None:
            kw['secret'] = secret
        res.set_cookie(n, v, **kw)


def emit(ctx, case):
    """the Set-Cookie headers of a response on which the cookies are set"""
    import ombott
    how, cookies = case['how'], case['cookies']
    app = ombott.Ombott() if how != 'redirect' else ombott.default_app()

    def h():
        res = app.response
        if how in ('response', 'redirect', 'raise-plain', 'generator', 'error-page'):
            if how != 'error-page':
                set_all(res, cookies)
            if how == 'redirect':
                ombott.redirect('/elsewhere')
            if how == 'raise-plain':
                raise ombott.HTTPError(403, 'no')
            if how == 'error-page':
                raise ombott.HTTPError(404, 'no')
            if how == 'generator':
                return (x for x in ['a', 'b'])
            return 'ok'
        if how == 'after-hook':
            return 'ok'
        if how == 'copy':
            set_all(res, cookies)
            r = res.copy(cls=ombott.HTTPResponse)
            r.body = 'copied'
            raise r
        r = ombott.HTTPResponse('x', 200)
        set_all(r, cookies)
        if how == 'raise':
            raise r
        return r
    app.route('/c15', callback=h, overwrite=True)
    if how == 'error-page':
        @app.error(404)
        def page(err):
            set_all(app.response, cookies)
            return 'page'
    if how == 'after-hook':
        @app.on('after_request')
        def hook():
            set_all(app.response, cookies)
    try:
        r = wsgi.call(app, wsgi.environ('GET', '/c15'))
    finally:
        if how == 'redirect':
            app.remove_route('/c15')
    return r


def client(headers):
    """what a browser keeps of Set-Cookie: name and the raw text of the value"""
    jar = {}
    for h in headers:
        pair = h.split(';', 1)[0]
        n, _, v = pair.partition('=')
        jar[n.strip(' \t')] = v.strip(' \t')
    return jar


SENTINEL = object()


def read(names_secrets, header):
    import ombott
    app = ombott.Ombott()
    got = []

    @app.route('/c15')
    def h():
        for n, s in names_secrets:
            got.append(app.request.get_cookie(n, SENTINEL, secret=s) if s is not None else app.request.get_cookie(n, SENTINEL))
        got.append(app.request.get_cookie('never-set', SENTINEL))
        second.extend(app.request.get_cookie(n, SENTINEL, secret=s) for n, s in names_secrets[::-1])
        for n, s in names_secrets:
            if s is None:
                views.append((n, app.request.cookies.getunicode(n), app.request.cookies.decode()[n], app.request.copy().get_cookie(n)))
        return 'x'
    second, views = [], []
    r = wsgi.call(app, wsgi.environ('GET', '/c15', headers={'Cookie': header}))
    return r, got, second[::-1], views


def spoil(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
    if isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoiled'] = 1
    elif isinstance(v, list):
        v.append('spoiled')
    elif isinstance(v, set):
        v.add('spoiled')


def run_trip(case, ctx):
    cookies = case['cookies']
    want = {}
    for n, v, secret, _ in cookies:
        want[n] = (v, secret)
    ctx.tag(case['how'])
    try:
        size = max(len(base64.b64encode(pickle.dumps((n, v), -1))) + 40 if s is not None else len(v) for n, (v, s) in want.items())
    except Exception:
        size = 0
    if size > 4000:
        return
    r = emit(ctx, case)
    what = lambda: f'cookies {[(n, v, s) for n, (v, s) in want.items()]} through {case["how"]}: {r}'   # noqa
    codes = {'redirect': 303, 'raise-plain': 403, 'error-page': 404}
    ctx.check(r.code == codes.get(case['how'], 200), what)
    sent = r.all('Set-Cookie')
    ctx.check(len(sent) == len(want), lambda: f'{len(sent)} Set-Cookie headers for ' + what())
    jar = client(sent)
    names = list(want)
    k = case['order']
    names = names[k % len(names):] + names[:k % len(names)]
    ctx.check(set(jar) == set(names), lambda: f'names {sorted(jar)} sent for ' + what())
    header = case['sep'].join('%s=%s' % (n, jar[n]) for n in names)
    for _ in range(1 + 2 * case['again']):
        r2, got, second, views = read([(n, want[n][1]) for n in names], header)
        ctx.check(r2.code == 200, lambda: f'reading {header!r}: {r2}')
        for n, *vs in views:
            ctx.check(all(x == want[n][0] for x in vs), lambda: f'cookie {n}={want[n][0]!r} is {vs} as cookies.getunicode(), cookies.decode(), copy().get_cookie(), from {header!r}')
        for n, g in list(zip(names, got)) + list(zip(names, second)):
            v, s = want[n]
            ctx.check(g is not SENTINEL, lambda: f'cookie {n}={v!r} (secret {s!r}, by {case["how"]}) reads as absent from {header!r}')
            ctx.check(same(g, v), lambda: f'cookie {n}={v!r} (secret {s!r}, by {case["how"]}) reads as {g!r} from {header!r}')
        for g in got:
            spoil(g)                     # the handler may do with its value what it likes
        ctx.check(got[-1] is SENTINEL, lambda: f'a cookie never set reads as {got[-1]!r} from {header!r}')
    for n, (v, s) in want.items():
        if s is not None:
            ctx.tag('signed')
            ctx.nontrivial()
        elif not v:
            ctx.tag('empty')
            ctx.nontrivial()
        elif not v.isascii():
            ctx.tag('non-ascii')
            ctx.nontrivial()
        elif any(c in v for c in ' ;,"\\\r\n\t'):
            ctx.tag('quoted')
            ctx.nontrivial()


# --------------------------------------------------------------- forgery
RAN = []


def canary(x):
    RAN.append(x)
    return x


class Canary:
    def __reduce__(self):
        return canary, ('ran',)


_watch = {'on': False, 'hits': []}


def _audit(event, args):
    if event == 'pickle.find_class' and _watch['on']:
        _watch['hits'].append((event,) + tuple(map(str, args[:2])))


def setup(ctx):
    sys.addaudithook(_audit)
    for name in ('loads', 'load', 'Unpickler', '_loads', '_load', '_Unpickler'):
        real = getattr(pickle, name)
        if isinstance(real, type):
            class Seen(real):
                def __init__(self, *a, _n=name, **kw):
                    if _watch['on']:
                        _watch['hits'].append(_n)
                    super().__init__(*a, **kw)
            setattr(pickle, name, Seen)
        else:
            def seen(*a, _r=real, _n=name, **kw):
                if _watch['on']:
                    _watch['hits'].append(_n)
                return _r(*a, **kw)
            setattr(pickle, name, seen)


def near(src, secret):
    """another secret that looks nearly the same"""
    s = secret if isinstance(secret, str) else secret.decode('latin1')
    k = src.below(16)
    out = [s + ' ', s + '\n', ' ' + s, '\t' + s + '\r\n', s.upper(), s.lower(), s.swapcase(), s[:-1], s[1:], s + '\x01', s + s, s[::-1], s.replace('3', 'З'), s.encode('utf-16').decode('latin1'), s + '\u0301', s[:16]][k]
    if src.bool(0.2):
        out = out.encode('utf8')
    return out


def same_key(a, b):
    a, b = tob(a), tob(b)
    pad = lambda x: (hashlib.md5(x).digest() if len(x) > 64 else x).ljust(64, b'\0')   # noqa
    return pad(a) == pad(b)


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='


def gen_forge(src):
    value = src.pick((6, 'canary'), (4, gen_value(src, 1)), (2, gen_text(src)), (1, 'x' * src.below(2400)), (1, ['%d' % i for i in range(src.below(300))]))
    secret = src.choice(SECRETS)
    edits = []
    for _ in range(src.int(1, 12)):
        k = src.pick((5, 'subst'), (2, 'any'), (2, 'del'), (2, 'ins'), (2, 'cut'), (1, 'cutsig'), (1, 'cuthead'), (1, 'swap'), (1, 'malleable'), (2, 'othersecret'), (4, 'theirs'), (1, 'unsigned'), (1, 'nosig'), (1, 'emptysig'), (1, 'resign'), (1, 'case'), (1, 'double'), (1, 'space'), (1, 'prefix-sig'), (1, 'payload'), (1, 'twobytes'), (2, 'rename'))
        edits.append([k, src.below(1 << 16), src.choice(B64), src.below(256), src.choice(SECRETS + ['s3cre', b'', 's3cret\x01']) if src.bool() else near(src, secret)])
    return dict(value=value, name=src.choice(NAMES), secret=secret, edits=edits, via=src.pick((3, 'plain'), (1, 'quoted')))


def bump(s, i, c):
    return s[:i] + c + s[i + 1:]


def hmac_md5(key, msg):
    return base64.b64encode(hmac.new(tob(key), msg.encode('utf8', 'surrogatepass'), digestmod=hashlib.md5).digest()).decode()


def forge(cookie, edit, case):
    """an altered cookie text, or None if it is not really an alteration"""
    k, at, c, byte, other = edit
    sig, msg = cookie[1:].split('?', 1)
    n = len(cookie)
    if k == 'subst':
        return bump(cookie, at % n, c)
    if k == 'any':
        return bump(cookie, at % n, chr(byte))
    if k == 'del':
        return cookie[:at % n] + cookie[at % n + 1:]
    if k == 'ins':
        return cookie[:at % (n + 1)] + c + cookie[at % (n + 1):]
    if k == 'cut':
        return cookie[:at % n]
    if k == 'cuthead':
        return cookie[at % n + 1:]
    if k == 'cutsig':
        return '!' + sig[:at % len(sig)] + '?' + msg
    if k == 'prefix-sig':
        return '!' + sig[at % len(sig) + 1:] + '?' + msg
    if k == 'swap':
        return '!' + msg + '?' + sig
    if k == 'malleable':          # base64 with other unused bits
        i = len(sig.rstrip('=')) - 1
        return '!' + bump(sig, i, B64[(B64.index(sig[i]) & 0x30) | (byte & 0xf)]) + '?' + msg
    if k == 'othersecret':
        return '!' + hmac_md5(other, msg) + '?' + msg if not same_key(other, case['secret']) else None
    if k == 'unsigned':
        return '!?' + msg
    if k == 'nosig':
        return '!' + msg
    if k == 'emptysig':
        return '!' + '=' * (at % 30) + '?' + msg
    if k == 'resign':              # signed as a digest without the key
        return '!' + base64.b64encode(hashlib.md5(msg.encode()).digest()).decode() + '?' + msg
    if k == 'case':
        return cookie.swapcase()
    if k == 'double':
        return cookie + cookie
    if k == 'space':
        return cookie[:at % (n + 1)] + ' ' + cookie[at % (n + 1):]
    if k == 'payload':             # a payload of one's own under the signature of the cookie
        return '!' + sig + '?' + base64.b64encode(pickle.dumps((case['name'], Canary()), at % 6)).decode()
    if k == 'twobytes':
        s = bump(cookie, at % n, c)
        return bump(s, (at * 7 + byte) % n, cookie[at % n])
    raise AssertionError(k)


def quote(v):
    return '"' + ''.join('\\' + x if x in '"\\' else x if ' ' <= x < '\x7f' and x not in ',;' else ''.join('\\%03o' % b for b in x.encode('utf8')) for x in v) + '"'


def make_signed(ctx, name, value, secret):
    v = Canary() if value == 'canary' else value
    r = emit(ctx, dict(how='response', cookies=[[name, v, secret, {}]]))
    ctx.check(r.code == 200 and len(r.all('Set-Cookie')) == 1, lambda: f'a signed cookie is not set: {r}')
    raw = client(r.all('Set-Cookie'))[name]
    # the value of a well-formed cookie as the request shows it
    import ombott
    req = ombott.Request({'HTTP_COOKIE': f'{name}={raw}'})
    text = req.get_cookie(name)
    ctx.check(isinstance(text, str) and text.startswith('!') and '?' in text, lambda: f'signed cookie is {text!r} (on the wire {raw!r})')
    return raw, text


def refused(ctx, name, secret, wire, what, same_request=False, value_only=False):
    import ombott
    req = _last[0] if same_request else ombott.Request({'HTTP_COOKIE': f'{name}={wire}'})
    RAN[:] = []
    _watch['hits'][:] = []
    _watch['on'] = True
    try:
        got = req.get_cookie(name, SENTINEL, secret=secret)
        again = req.get_cookie(name, secret=secret)
    finally:
        _watch['on'] = False
    ctx.check(value_only or not RAN and not _watch['hits'], lambda: f'{what()}: its payload is deserialised ({_watch["hits"][:3]}, canary {"ran" if RAN else "did not run"})')
    ctx.check(got is SENTINEL and again is None, lambda: f'{what()}: reads as {got!r}')


_last = [None]


def accepted(ctx, name, secret, wire, keep=False):
    """the watchers do see the unaltered cookie"""
    import ombott
    RAN[:] = []
    _watch['hits'][:] = []
    _watch['on'] = True
    try:
        req = ombott.Request({'HTTP_COOKIE': f'{name}={wire}'})
        got = req.get_cookie(name, SENTINEL, secret=secret)
        _last[0] = req if keep else None
    finally:
        _watch['on'] = False
    ctx.check(got is not SENTINEL, lambda: f'the unaltered cookie {wire!r} reads as absent')
    return bool(_watch['hits'])


def run_forge(case, ctx):
    name, secret = case['name'], case['secret']
    if case['value'] != 'canary' and len(pickle.dumps(case['value'])) > 2500:
        return
    raw, text = make_signed(ctx, name, case['value'], secret)
    if accepted(ctx, name, secret, raw):
        ctx.tag('watched')
    for e in case['edits']:
        if e[0] == 'theirs':             # set by an application with another secret
            if not e[4] or same_key(e[4], secret):
                continue
            theirs, text2 = make_signed(ctx, name, case['value'], e[4])
            ctx.tag('theirs')
            ctx.nontrivial()
            for wire, right, wrong, t in ((theirs, e[4], secret, text2), (raw, secret, e[4], text)):
                if e[1] % 3:             # somebody with the right secret reads it first, perhaps from the same request
                    accepted(ctx, name, right, wire, e[1] % 3 == 2)
                    ctx.tag('read-before')
                refused(ctx, name, wrong, wire, lambda: f'cookie {t!r} signed with {right!r}, read with {wrong!r}', e[1] % 3 == 2)
            continue
        if e[0] == 'rename':             # a genuine cookie of this secret, sent under a name it was not signed for
            other = NAMES[e[1] % len(NAMES)] if e[3] & 1 else [name.swapcase(), name + 'x', name[:-1] or 'z', name + name, '_' + name][e[1] % 5]
            if other != name:
                ctx.tag('rename')
                refused(ctx, other, secret, raw, lambda: f'cookie {text!r} of secret {secret!r} signed for {name!r} and sent as {other!r}', value_only=True)
            continue
        try:
            v = forge(text, e, case)
        except ValueError:
            continue
        if v is None or v == text:
            continue
        plain = case['via'] == 'plain' and all(x in B64 + '!?' for x in v)
        wire = '"%s"' % v if plain else quote(v)
        ctx.tag(e[0])
        ctx.nontrivial()
        refused(ctx, name, secret, wire, lambda: f'cookie {text!r} of secret {secret!r} altered by {e[0]} to {v!r}')


# every position, every other character
def enum_all(tier):
    values = [['canary', 's3cret'], ['x', 'k' * 100], ['long ' * 460, 's3cret'], [list(range(700)), b'\xff\xfe']] + ([[{'a': [1, 2]}, b'\xff\xfe'], [None, 'x'], ['é' * 20, 'ключ']] if tier == 'thorough' else [])
    for v, s in values:
        for part in range(40):
            yield dict(value=v, secret=s, part=part)


def bump_chars(c):
    return ('A' if c != 'A' else 'B') + (chr(ord(c) ^ 1) if c in B64 else '')


def run_all(case, ctx):
    raw, text = make_signed(ctx, 'sess', case['value'], case['secret'])
    n = 0
    for i in range(case['part'], len(text), 40):
        for c in B64 + '!?"\\ .-_é\x00' if len(text) < 500 else bump_chars(text[i]):
            if c != text[i]:
                v = bump(text, i, c)
                refused(ctx, 'sess', case['secret'], quote(v), lambda: f'cookie {text!r} with {c!r} at {i}')
                n += 1
        refused(ctx, 'sess', case['secret'], quote(text[:i]), lambda: f'cookie {text!r} cut at {i}')
        refused(ctx, 'sess', case['secret'], quote(text[:i] + text[i + 1:]), lambda: f'cookie {text!r} without character {i}')
    sig, msg = text[1:].split('?', 1)
    if case['part'] < len(sig):
        k = case['part']
        for s in (sig[:k], sig[k + 1:], sig[:k] + sig[k + 1:], sig + sig[:k + 1]):
            refused(ctx, 'sess', case['secret'], quote('!' + s + '?' + msg), lambda: f'cookie {text!r} with signature {s!r}')
    ctx.tag('alterations')
    ctx.nontrivial()


def legs(tier):
    return [
        Leg('round-trip', run_trip, gen=gen_trip, quick=24000, thorough=400000, shards=4, hyp=150, need=('signed', 'empty', 'non-ascii', 'quoted', 'response', 'raise', 'return', 'copy', 'redirect', 'raise-plain', 'error-page', 'after-hook', 'generator')),
        Leg('scale', run_big, gen=gen_big, quick=2400, thorough=40000, shards=1, hyp=20, need=('many', 'few', 'long', 'long-signed')),
        Leg('forgery', run_forge, gen=gen_forge, quick=16000, thorough=300000, shards=3, hyp=80, need=('watched', 'subst', 'del', 'ins', 'cut', 'cutsig', 'malleable', 'othersecret', 'theirs', 'read-before', 'unsigned', 'emptysig', 'payload')),
        Leg('every-byte', run_all, enum=enum_all, quick=0, thorough=0, shards=1, tshards=2, need=('alterations',)),
    ]
