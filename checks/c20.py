"""C20 - framework error pages never reflect request data unescaped."""
import html.parser
import itertools
import json
import re

from vt.core import Leg, Violation
from vt import wsgi

RULE = ('a request whose path, query string, Host / X-Forwarded-* / X-Script-Name, method and form carry payloads (markup, quotes, entities, braces and format-string syntax, URL look-alikes, control and non-ASCII characters, invalid UTF-8) '
        'is driven into every framework-generated error (404, 405, 400 bad path / bad body, 413, 500 raised with the request text in the exception, in a generator, unsupported type, endless loop, static_file 403 / 404 / 416, '
        'errors in hooks, last-resort page by a bad header / failing error handler) with debug off and different Accept headers. Oracle: the expected status; the HTML parses to exactly the elements and attributes of the page of a harmless twin request; '
        'between the marks put around each payload there is no raw <, >, quote or non-entity &; no part of the exception or of the application\'s secrets appears; JSON bodies parse strictly, with a JSON content type, and carry no raw markup of the request. '
        'Non-trivial: a payload contains a character HTML, JSON or str.format treats specially.')
ASSUMPTIONS = ['debug is off', 'JSON is requested by an Accept header which starts with application/json (Request.is_json_requested); other Accept headers naming JSON may get either form',
               'text which the application itself puts into an HTTPError body is the application\'s (escaping it is not required by the property)']

MARK = re.compile('qZ1(.*?)qZ2', re.S)
SECRET = 'tOpSeCrEt'
_st = {}


class Boom(Exception):
    pass


def setup(ctx):
    import ombott
    from ombott import Ombott
    import os
    root = os.path.join(ctx.scratch, 'www')
    os.makedirs(root)
    _st['root'] = root
    _st['apps'] = {}
    with open(os.path.join(root, 'f.txt'), 'w') as f:
        f.write('0123456789')


def request_text(rq):
    env = rq.environ
    return ' '.join(str(env.get(k, '')) for k in ('PATH_INFO', 'QUERY_STRING', 'HTTP_HOST', 'HTTP_X_FORWARDED_HOST')) + ' ' + SECRET


def app_for(cfg):
    key = tuple(sorted(cfg.items()))
    if key in _st['apps']:
        return _st['apps'][key]
    from ombott import Ombott, HTTPResponse, HTTPError
    import ombott
    # an application mapped by host: the Host header becomes the first segment of its path
    mapped = dict(domain_map=lambda host: (host or '').encode('latin1', 'replace').decode('utf8', 'replace').encode('utf8').decode('latin1')) if cfg.get('domain') else {}
    app = Ombott({k: v for k, v in cfg.items() if k != 'domain'} | dict(max_body_size=1000) | mapped)
    state = dict(hook=None)
    rq, rs = app.request, app.response

    def add(name, method=('GET', 'POST')):
        def deco(fn):
            app.route(f'/{name}/<rest:re((?s:.+))>', method=list(method))(fn)
            return fn
        return deco

    @add('raise')
    def h(rest):
        raise Boom(request_text(rq))

    @add('uni')
    def h(rest):
        return (request_text(rq) + 'é').encode('ascii').decode()

    @add('key')
    def h(rest):
        return {}[request_text(rq)]

    @add('unprintable')
    def h(rest):
        class E(Exception):
            def __str__(self):
                raise RuntimeError(request_text(rq))
            __repr__ = __str__
        raise E()

    @add('gen')
    def h(rest):
        if rest is None:
            yield ''
        raise Boom(request_text(rq))

    @add('type')
    def h(rest):
        return [object()]

    @add('type2')
    def h(rest):
        return 5

    @add('loop')
    def h(rest):
        r = HTTPResponse('x')
        r.body = r
        return r

    @add('form')
    def h(rest):
        return repr(dict(rq.forms))

    @add('json')
    def h(rest):
        return repr(rq.json)

    @add('body')
    def h(rest):
        return rq.body.read()

    @add('abort')
    def h(rest):
        ombott.abort(403)

    @add('abort400')
    def h(rest):
        raise HTTPError(400, 'Nope')

    @add('err')
    def h(rest):
        raise HTTPError(503)

    @add('exc')
    def h(rest):
        try:
            raise Boom(request_text(rq))
        except Boom as e:
            import traceback
            raise HTTPError(502, 'Bad', e, traceback.format_exc())

    @add('hdr')
    def h(rest):
        rs.headers.append('X-A', 'x')
        rs.headers['X-Bad'] = 'a\ud800'          # can not be sent: the last-resort page
        return ''

    @add('status')
    def h(rest):
        rs.charset and None
        rs.content_type = 'text/html; charset=no-such-' + 'codec'
        return 'text'

    @add('teapot')
    def h(rest):
        raise HTTPError(418, 'x')

    @app.error(418)
    def eh(res):
        raise Boom(request_text(rq))

    @add('fwrap')
    def h(rest):
        class F:
            def read(self, n=-1):
                return b''
        rq.environ['wsgi.file_wrapper'] = lambda f, n=0: (_ for _ in ()).throw(Boom(request_text(rq))) if False else boom(rq)
        return F()

    def boom(rq):
        raise Boom(request_text(rq))

    @add('only', ('PUT',))
    def h(rest):
        return ''

    def before():
        if state['hook'] == 'before':
            raise Boom(request_text(rq))
    def after():
        if state['hook'] == 'after':
            raise Boom(request_text(rq))
    app.on('before_request', before)
    app.on('after_request', after)
    _st['apps'][key] = app, state
    return app, state


def default_app():
    if 'default' not in _st['apps']:
        import ombott

        @ombott.route('/static/<name:re((?s:.+))>')
        def h(name):
            return ombott.static_file(ombott.request.query.f or name, _st['root'])
        _st['apps']['default'] = ombott.app, dict(hook=None)
    return _st['apps']['default']


# kind -> (route prefix, expected code, method)
KINDS = {'404': ('', 404), '404-deep': ('raise', 404), '405': ('only', 405), 'badpath': ('raise', 400), 'raise': ('raise', 500), 'uni': ('uni', 500), 'key': ('key', 500), 'unprintable': ('unprintable', 500), 'gen': ('gen', 500), 'type': ('type', 500),
         'type2': ('type2', 500), 'loop': ('loop', 500), 'chunk': ('body', 400), 'form': ('form', 400), 'json': ('json', 400), 'big': ('body', 413), 'abort': ('abort', 403), 'abort400': ('abort400', 400), 'err': ('err', 503), 'exc': ('exc', 502),
         'before': ('raise', 500), 'after': ('abort', 500), 'static404': ('static', 404), 'static403': ('static', 403), 'static416': ('static', 416),
         'crit-hdr': ('hdr', 500), 'crit-charset': ('status', 500), 'crit-handler': ('teapot', 500), 'crit-wrapper': ('fwrap', 500)}
CRITICAL = {'crit-hdr', 'crit-charset', 'crit-handler', 'crit-wrapper'}


def serve(case, benign=False):
    kind = case['kind']
    prefix, code = KINDS[kind]

    def p(x):
        """a payload, marked; its twin has the same marks around a harmless text"""
        if x is None:
            return None
        return 'qZ1' + ('payload' if benign else x) + 'qZ2'
    if kind.startswith('static'):
        app, state = default_app()
    else:
        app, state = app_for(case['cfg'])
    state['hook'] = kind if kind in ('before', 'after') else None
    path = case['path']
    rest = p(path)
    if isinstance(rest, str):
        rest = rest.encode('utf8', 'surrogatepass').decode('latin1')
    if kind == 'badpath':
        rest = rest + '\xff'
    if kind == '404':
        full = '/' + case['lead'] + rest
    elif kind == '404-deep':
        full = '/' + case['lead'] + 'nothing/' + rest
    else:
        full = f'/{prefix}/' + rest
    headers = {}
    for k in ('Host', 'X-Forwarded-Host', 'X-Forwarded-Proto', 'X-Script-Name', 'Referer', 'User-Agent'):
        if case['headers'].get(k) is not None:
            headers[k] = p(case['headers'][k])
    if case['accept']:
        headers['Accept'] = case['accept']
    qs = p(case['qs']) or ''
    kw = {}
    method = case['method']
    if kind == '405' and method in ('PUT',):
        method = 'GET'
    if kind in ('chunk', 'form', 'json', 'big', 'static403', 'static416') or kind.startswith('static'):
        method = 'POST' if not kind.startswith('static') else 'GET'
    elif kind not in ('404', '404-deep', '405', 'badpath') and method not in ('GET', 'POST', 'HEAD'):
        method = 'GET'
    if kind == 'chunk':
        kw = dict(body=b'zz' + (p(case['body']) or '').encode('utf8', 'replace') + b'\r\n', chunked=True)
    elif kind == 'form':
        kw = dict(body=(p(case['body']) or '').encode('utf8', 'replace') + b'&%zz', ctype='multipart/form-data; boundary=b')
    elif kind == 'json':
        kw = dict(body=b'{' + (p(case['body']) or '').encode('utf8', 'replace'), ctype='application/json')
    elif kind == 'big':
        kw = dict(body=(p(case['body']) or '').encode('utf8', 'replace') + b'x' * 1001)
    elif kind == 'static403':
        qs = 'f=../x/' + qs.replace('&', '%26').replace('+', '%2b')
    elif kind == 'static416':
        qs = 'f=f.txt&' + qs
        headers['Range'] = 'bytes=20-'
    env = wsgi.environ(method, '/', qs=qs, headers=headers, script=p(case['script']) or '', **kw)
    env['PATH_INFO'] = full
    r = wsgi.call(app, env)
    return r, method


class Structure(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = []

    def handle_starttag(self, tag, attrs):
        self.out.append(('start', tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.out.append(('self', tag, tuple(attrs)))

    def handle_endtag(self, tag):
        self.out.append(('end', tag))

    def handle_comment(self, d):
        self.out.append(('comment', d))

    def handle_decl(self, d):
        self.out.append(('decl', d))

    def handle_pi(self, d):
        self.out.append(('pi', d))

    def unknown_decl(self, d):
        self.out.append(('unknown', d))


def structure(text):
    s = Structure()
    s.feed(text)
    s.close()
    return s.out


BARE = re.compile(r'&(?!(?:[a-zA-Z][a-zA-Z0-9]*|#[0-9]+|#[xX][0-9a-fA-F]+);)')


def inspect(ctx, r, case, what):
    kind = case['kind']
    ct = (r.header('Content-Type') or '').lower()
    try:
        text = r.body.decode('utf8')
    except UnicodeDecodeError as e:
        raise Violation(f'{what()}: the page is not UTF-8: {e}')
    ctx.check(SECRET not in text, lambda: f'{what()}: the page shows the exception though debug is off: {text[:500]!r}')
    acc = case['accept'] or ''
    if acc.startswith('application/json'):
        ctx.tag('JSON')
        ctx.check(ct.split(';')[0].strip() == 'application/json', lambda: f'{what()}: JSON is requested, Content-Type is {ct!r}, body {text[:200]!r}')
        def bad(c):
            raise ValueError(f'constant {c}')
        try:
            obj = json.loads(text, parse_constant=bad)
        except ValueError as e:
            raise Violation(f'{what()}: the body is not valid JSON ({e}): {text[:300]!r}')
        strings = []

        def walk(o):
            if isinstance(o, str):
                strings.append(o)
            elif isinstance(o, dict):
                for k, v in o.items():
                    walk(k), walk(v)
            elif isinstance(o, list):
                [walk(x) for x in o]
        walk(obj)
        for s in strings:
            for m in MARK.findall(s):
                ctx.check(not re.search('[<>]', m), lambda: f'{what()}: JSON body reflects {m!r} unescaped')
        return 'json', None
    if 'json' in acc and ct.startswith('application/json'):
        json.loads(text)
        return 'json', None
    ctx.tag('HTML')
    ctx.check(ct.split(';')[0].strip() == 'text/html', lambda: f'{what()}: Content-Type {ct!r} for {text[:100]!r}')
    for m in MARK.findall(text):
        ctx.tag('reflected')
        ctx.check(not re.search('[<>"\']', m) and not BARE.search(m), lambda: f'{what()}: the page reflects {m[:200]!r} unescaped')
    if text.count('qZ1') != text.count('qZ2'):
        ctx.tag('cut')
    return 'html', structure(text)


def run(case, ctx):
    kind = case['kind']
    for k in case.get('before', ()):
        # earlier requests of the process, to an app with debug on too, may leave nothing behind
        serve(dict(case, kind=k, cfg=dict(case['cfg'], debug=True)))
        ctx.tag('primed')
    r, method = serve(case)
    what = lambda: f'{kind} page for {r.env["REQUEST_METHOD"]} {r.env["PATH_INFO"]!r}, query {r.env["QUERY_STRING"]!r}, headers { {k: v for k, v in r.env.items() if k.startswith("HTTP_")} }, config {case["cfg"]}'
    code = KINDS[kind][1]
    if any(set(str(x)) & set('<>&"\'{}\\%') for x in [case['path'], case['qs'], case['script'], *case['headers'].values()] if x):
        ctx.nontrivial()
    ctx.tag(kind)
    if case['cfg'].get('domain') and 'Host' in case['headers']:
        ctx.tag('domain')
    ctx.check(r.code == code, lambda: f'{what()}: status {r.status}, expected {code}; {r.body[:200]!r} {r.errors[-300:]}')
    if method == 'HEAD':
        ctx.tag('HEAD')
        ctx.check(not r.body, lambda: f'{what()}: HEAD has a body')
        return
    if kind not in CRITICAL:
        ctx.check(b'Critical error' not in r.body, lambda: f'{what()}: last-resort page: {r.body[:200]!r}')
    form, struct = inspect(ctx, r, case, what)
    if form == 'html':
        r2, _ = serve(case, benign=True)
        ctx.check(r2.code == code, lambda: f'harmless twin of {what()}: status {r2.status}')
        s2 = structure(r2.body.decode('utf8'))
        ctx.check(struct == s2, lambda: f'{what()}: the page has the structure {diff(struct, s2)} of a harmless request: {r.body[:600]!r}')


def diff(a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return f'{x!r} at {i} instead of {y!r}'


# ------------------------------------------------------------- payloads
PAY = ['<script>alert(1)</script>', '<', '>', '"', "'", '&', '&lt;', '&amp;lt;', '<b>', '</tt>', '"><img src=x onerror=alert(1)>', "'><svg onload=1>", '{', '}', '{}', '{0}', '{e}', '{e.status}', '{url}', '{exception}', '{traceback}', '{e.__class__}', '{e.__init__.__globals__}',
       '{e.traceback}', '{e.exception}', '{{e.status}}', '{!r}', '{url!r:>10}', '%s', '%(x)s', '%', '%%', '%n', '%41', '%3Cb%3E', '$x', '${x}', '\\', '\\x3cb\\x3e', '\\u003cb\\u003e', '\n', '\r\n', '\t', '\0', '\x1b', '\x7f', '\xa0', 'é', '日', '\u2028', '\u202e', '\ufeff', '\U0001f600', '<!--', '-->', '<!DOCTYPE x>',
       '<?php', ']]>', '<![CDATA[', '&#60;b&#62;', '&#x3c;', '＜b＞', '<style>', '</style>', '</pre>', '</title>', '<title>', 'javascript:alert(1)', 'http://[x', 'http://evil.example/<b>', '//[x', '/[', '[::1', ']', '@', ':', ':99999', ':x', '?', '#', ';', '..', '../..', '/../', '.', '//', 'x' * 300, '<' * 50, 'a=b&c=<d>', "' onmouseover='1",
       '`', '+ADw-script+AD4-', '\u212a', '\ufffd', '\x85', '\x80', '\xff', 'None', '<script\n>', '<a href="', '=', "repr'\"", '"\'<&>', '\\"', "\\'", '{"a": 1}', '"}', '","x":"', '\b', '</script', '<ſcript>', 'x-special:', 'data:text/html,<b>', '{e', 'e}', '{e.body}', '{e!s}', '{{', '}}', '{url[0]}', '{url.__class__}', '{0.__class__}', '{:{}}']
ACCEPT = [(6, None), (5, 'application/json'), (1, 'application/json, text/html'), (1, 'text/html'), (1, '*/*'), (1, 'text/html, application/json;q=0.5'), (1, 'application/json; charset=utf-8'), (1, 'application/json;q="<b>"')]
METHODS = [(10, 'GET'), (3, 'POST'), (1, 'HEAD'), (1, 'DELETE'), (1, '<B>'), (1, 'PUT'), (1, '{x}'), (1, 'get')]


def gen_payload(src, latin=False):
    s = src.choice(PAY)
    while src.bool(0.35):
        s += src.choice(PAY) if src.bool(0.8) else chr(src.below(256))
    if latin:
        s = s.encode('utf8', 'replace').decode('latin1')
    return s


def gen(src):
    kind = src.choice(list(KINDS))
    c = dict(kind=kind, path=gen_payload(src) if src.bool(0.8) else 'x', qs=gen_payload(src, True) if src.bool(0.5) else None, script=gen_payload(src, True) if src.bool(0.15) else None, headers={}, accept=src.pick(*ACCEPT), method=src.pick(*METHODS), body=None, cfg={}, lead='')
    if src.bool(0.6):
        c['headers']['Host'] = gen_payload(src, True)
    for k in ('X-Forwarded-Host', 'X-Forwarded-Proto', 'X-Script-Name', 'Referer', 'User-Agent'):
        if src.bool(0.12):
            c['headers'][k] = gen_payload(src, True)
    if src.bool(0.3):
        c['cfg']['allow_x_script_name'] = True
    if src.bool(0.2):
        c['cfg']['app_name_header'] = src.choice(['HTTP_X_APP', 'HTTP_HOST'])
    if kind in ('form', 'json', 'chunk', 'big'):
        c['body'] = gen_payload(src)
    if kind.startswith('404'):
        if src.bool(0.15):
            c['cfg'].update(domain=True)
        c['lead'] = src.pick((5, ''), (1, 'http://['), (1, '/'), (1, '//['), (1, 'http://evil/'), (1, '['), (1, '../'), (1, 'x:'), (1, '{0}/'))
    if src.bool(0.1):
        c['before'] = [src.choice([k for k in KINDS if not k.startswith('static')]) for _ in range(src.int(1, 2))] + [kind] * (not kind.startswith('static'))
    if kind == 'static404':
        c['path'] = c['path'].replace('..', '')
        c['qs'] = None
    return c


FILL = ['x', '&', '%20', '/d', 'é', '{}', ' ', 'ab&lt;', '.']


def gen_scale(src):
    """the payload far behind (and before) a lot of other text"""
    c = gen(src)
    n = src.pick((2, 60), (2, 130), (3, 520), (2, 2100), (1, 9000)) + src.below(40)
    fill = (src.choice(FILL) * n)[:n]

    def grow(x):
        return x if x is None else fill + x if src.bool(0.7) else x + fill + src.choice(['<b>', '"', "'"])
    c['path'] = grow(c['path'])
    for k in ('qs', 'script', 'body'):
        if src.bool(0.6):
            c[k] = grow(c[k]) if k == 'body' or c[k] is None else grow(c[k].encode('latin1').decode('utf8', 'replace')).encode('utf8').decode('latin1')
    for k in list(c['headers']):
        if src.bool(0.6):
            c['headers'][k] = (fill.encode('utf8').decode('latin1') + c['headers'][k])
    if c['kind'] in ('big', 'form', 'json', 'chunk') and c['body'] and len(c['body']) > 150:
        c['body'] = c['body'][-150:]
    if c['kind'] == 'static404':
        c['path'] = 'x' + c['path'].replace('..', '')
    return c


def run_scale(case, ctx):
    run(case, ctx)
    if len(case['path']) > 2000:
        ctx.tag('long')


def enum_all(tier):
    """every kind x every payload, in the path / the query / the Host, HTML and JSON"""
    for kind in KINDS:
        for pay in PAY:
            lat = pay.encode('utf8').decode('latin1')
            for acc in (None, 'application/json'):
                for where in ('path', 'qs', 'host', 'all') if kind in ('404', '405', 'raise', 'badpath', 'crit-hdr', 'crit-handler', 'gen') or tier != 'quick' else ('all',):
                    if kind == 'static404' and '..' in pay:
                        continue
                    yield dict(kind=kind, path=pay if where in ('path', 'all') else 'x', qs=lat if where in ('qs', 'all') and kind != 'static404' else None, script=lat if where == 'all' else None, headers={'Host': lat} if where in ('host', 'all') else {}, accept=acc,
                               method='GET', body=pay, cfg={}, lead='')


def legs(tier):
    return [
        Leg('kinds', run, enum=enum_all, quick=0, thorough=0, shards=3, tshards=4, need=('HTML', 'JSON', 'reflected') + tuple(KINDS)),
        Leg('payloads', run, gen=gen, quick=75000, thorough=1500000, shards=4, hyp=200, need=('HTML', 'JSON', 'reflected', 'HEAD', 'primed', 'domain') + tuple(KINDS)),
        Leg('scale', run_scale, gen=gen_scale, quick=15000, thorough=150000, shards=2, hyp=40, need=('HTML', 'JSON', 'reflected', 'long')),
    ]
