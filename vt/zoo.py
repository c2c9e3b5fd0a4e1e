"""Scripted requests: each request carries the operations its handler performs.

The handler logs everything it can see of its request and response, so that two
executions can be compared.  Used by C08 (schedules), C09 (histories), C10 (several
applications)."""
import base64
import hashlib
import hmac
import io
import os
import pickle
import re
import threading

from . import wsgi
from .core import Violation
from .sched import point, atomic

_cur = threading.local()
STATIC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'static')
FILES = ['a.txt', 'a.txt', 'b.html', 'c.bin', 'empty.txt', 'sub/d.tar.gz', 'nope.txt', '../zoo.py', 'sub', '/a.txt']


class Running:
    __slots__ = ('req', 'log', 'world')

    def __init__(self, req, world):
        self.req, self.log, self.world = req, [], world


def stack():
    s = getattr(_cur, 'stack', None)
    if s is None:
        s = _cur.stack = []
    return s


def exc(e):
    return ('raised', type(e).__name__, getattr(e, 'status_code', None), getattr(e, 'body', None) if hasattr(e, 'status_code') else str(e)[:200])


def plain(v):
    """a comparable picture of what a handler reads"""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, 'file') and hasattr(v, 'raw_filename'):
        v.file.seek(0)
        return ('upload', v.name, v.raw_filename, v.file.read(), v.content_type)
    if hasattr(v, 'read'):
        v.seek(0)
        return v.read()
    if v is None or isinstance(v, (str, bytes, int, float, bool)):
        return v
    return f'<{type(v).__name__}>'


def view(r, what):
    if what == 'headers':
        return {k: r.headers[k] for k in sorted(r.headers)}
    if what == 'headers.get':
        return r.headers.get('X-Token'), 'X-Token' in r.headers
    if what == 'query':
        return plain(r.query)
    if what == 'keys':
        return sorted(k for k in r.keys() if not k.startswith('ombott.request.') or k.startswith('ombott.request.ext.'))
    if what == 'environ':
        return {k: v for k, v in sorted(r.environ.items()) if isinstance(v, str)}
    if what.startswith('env:'):
        return r.get(what[4:], 'absent')
    if what.startswith('item:'):
        return r[what[5:]]
    if what.startswith('ext:'):
        return plain(getattr(r, what[4:]))
    if what.startswith('cookie:'):
        return r.get_cookie(what[7:], 'absent')
    if what.startswith('scookie:'):
        name, secret = what[8:].split(':')
        return r.get_cookie(name, 'absent', secret=secret)
    if what == 'route':
        return r.route.rule
    if what == 'app':
        return stack()[-1].world.name(r.app)
    if what == 'repr':
        return repr(r)
    if what == 'urlparts':
        return tuple(r.urlparts)
    return plain(getattr(r, what))


READS = ['path', 'method', 'query_string', 'query', 'headers', 'headers.get', 'cookies', 'cookie:c1', 'scookie:sg:s-@', 'scookie:sg:s3', 'body', 'forms', 'files', 'POST', 'json', 'params', 'url', 'urlparts', 'fullpath', 'script_name', 'content_type',
         'content_length', 'ctype', 'chunked', 'is_xhr', 'auth', 'remote_route', 'remote_addr', 'url_args', 'route', 'app', 'keys', 'environ', 'env:HTTP_X_TOKEN', 'env:test.x', 'item:PATH_INFO', 'ext:e1', 'ext:e2', 'repr', 'is_json_requested', 'GET']


def show_response(res):
    return (res.status, res.status_code, res.status_line, plain(dict(res.headers.items())), plain(res.body) if isinstance(res.body, (str, bytes)) else '',
            list(res.headerlist), res.charset)


def do_ops(app, ops, log, request=None):
    r = request if request is not None else app.request
    res = app.response
    for op in ops:
        k = op[0]
        point()
        try:
            if k == 'read':
                log.append((op[1], view(r, op[1])))
            elif k == 'status':
                res.status = op[1]
            elif k == 'set':
                res.headers[op[1]] = op[2]
            elif k == 'append':
                res.headers.append(op[1], op[2])
            elif k == 'setdefault':
                res.headers.setdefault(op[1], op[2])
            elif k == 'delh':
                res.headers.pop(op[1], None)
            elif k == 'clear':
                res.headers.clear()
            elif k == 'cookie':
                res.set_cookie(op[1], op[2], secret=op[3], **op[4])
            elif k == 'delcookie':
                res.delete_cookie(op[1])
            elif k == 'ctype':
                res.content_type = op[1]
            elif k == 'rbody':
                res.body = op[1]
            elif k == 'resp':
                log.append(('response', show_response(res)))
            elif k == 'ext':
                setattr(r, op[1], op[2])
            elif k == 'env':
                r[op[1]] = op[2]
            elif k == 'delenv':
                del r[op[1]]
            elif k == 'copy':
                c = r.copy()
                sub = []
                do_ops(app, op[1], sub, c)
                log.append(('copy', sub))
            elif k == 'newcopy':         # a copy whose environ is changed
                c = r.copy()
                c['PATH_INFO'] = '/copied'
                c['QUERY_STRING'] = 'copied=1'
                c['HTTP_X_TOKEN'] = 'copied'
                log.append(('copy', view(c, 'path'), view(c, 'query'), view(c, 'env:HTTP_X_TOKEN')))
            elif k == 'mutate':          # a parsed container is changed in place
                v = r.environ if op[1] == 'environ' else getattr(r, op[1])
                if op[1] == 'body':
                    v.write(op[2].encode())
                elif op[1] == 'environ':
                    v['HTTP_X_MUT'] = op[2]
                elif isinstance(v, list):
                    v.append(op[2])
                else:
                    for x in list(v.values()) if hasattr(v, 'values') else ():
                        if isinstance(x, list):
                            x.append(op[2])
                    v['mut'] = op[2]
                log.append(('mutated', op[1], plain(v) if op[1] != 'environ' else ''))
            elif k == 'mutate-error':    # a body error which is caught and changed
                try:
                    getattr(r, op[1])
                except Exception as e:
                    log.append(exc(e))
                    if hasattr(e, 'set_cookie'):
                        e.set_cookie('mut', op[2])
                        e.headers.append('X-Mut', op[2])
                        e.body = op[2]
                        e.status = '400 ' + op[2]
                    if op[3]:
                        raise
            elif k == 'call':            # serve another request inside this one
                w = stack()[-1].world
                o = w.serve(op[1], op[2])
                log.append(('nested', o, op[2]['token']))
            elif k == 'mount':           # pass a copy of the environ on to another application
                w = stack()[-1].world
                env = dict(r.environ)
                env.update({'PATH_INFO': op[2]['path'] if isinstance(op[2]['path'], str) else op[2]['path'].decode('latin1'), 'REQUEST_METHOD': 'GET', 'wsgi.input': io.BytesIO(), 'CONTENT_LENGTH': '0'})
                for n in [n for n in env if n.startswith('ombott.request.') and not n.startswith('ombott.request.ext.')]:
                    del env[n]
                env.pop('HTTP_TRANSFER_ENCODING', None)
                log.append(('mounted', w.serve(op[1], op[2], env)[0]))
            elif k == 'newapp':
                w = stack()[-1].world
                w.extra_app(op[1])
            elif k == 'listen':          # follow the changes of this one request object
                r.on('env_changed', lambda rq, key, value, tag=op[1]: log.append(('heard', tag, key, plain(value))))
            else:
                raise AssertionError(k)
        except (Violation, AssertionError):
            raise
        except Exception as e:
            if k == 'mutate-error':
                raise
            log.append((k, op[1] if len(op) > 1 and isinstance(op[1], str) else '', exc(e)))


def outcome(app, oc, shared, log):
    import ombott
    k = oc[0]
    point()
    if k == 'text' or k == 'bytes':
        return oc[1]
    if k == 'list':
        return list(oc[1])
    if k == 'none':
        return None
    if k == 'gen' or k == 'genraise' or k == 'genresp':
        def g():
            for i, c in enumerate(oc[1]):
                if i:
                    do_ops(app, oc[2], log)
                if k == 'genraise' and i == len(oc[1]) - 1:
                    raise RuntimeError('in generator ' + str(c))
                yield c
        if k == 'genresp':
            def g2():
                do_ops(app, oc[2], log)
                raise ombott.HTTPResponse('from generator ' + str(oc[1]), 202, {'X-Gen': 'g'})
                yield 'x'
            return g2()
        return g()
    if k == 'file':
        return io.BytesIO(oc[1])
    if k == 'badfile':
        class Bad(io.BytesIO):
            def read(self, n=-1):
                raise OSError('no ' + oc[1])
        return Bad(b'x')
    if k in ('raise', 'return'):
        cls = ombott.HTTPError if oc[1] == 'HTTPError' else ombott.HTTPResponse
        r = cls(status=oc[2], body=oc[3])
        for n, v in oc[4]:
            r.headers.append(n, v)
        for n, v in oc[5]:
            r.set_cookie(n, v)
        if k == 'raise':
            raise r
        return r
    if k == 'shared':
        if oc[2]:
            raise shared[oc[1]]
        return shared[oc[1]]
    if k == 'crash':
        raise {'ValueError': ValueError, 'KeyError': KeyError, 'ZeroDivisionError': ZeroDivisionError, 'AttributeError': AttributeError}[oc[1]](oc[2])
    if k == 'memory':
        raise MemoryError(oc[1])
    if k == 'exit':
        raise SystemExit(oc[1])
    if k == 'abort':
        ombott.abort(oc[1], oc[2])
    if k == 'static':                    # default application only
        return ombott.static_file(oc[1], STATIC, **oc[2])
    if k == 'redirect':                  # default application only
        ombott.redirect('/to/' + oc[1])
    if k == 'badhdr':
        app.response.headers['X-Bad'] = 'a\ud800'
        return oc[1]
    if k == 'object':
        return 42
    raise AssertionError(k)


_sub = []


def subclass():
    """one subclass of the application class for all who use one"""
    import ombott
    if not _sub:
        class Site(ombott.Ombott):
            title = 'site'
        _sub.append(Site)
    return _sub[0]


def build(spec):
    """an application from a spec: dict(debug, errors, hooks, memfile, maxbody, domain, name)"""
    import ombott
    cfg = dict(debug=spec['debug'], max_memfile_size=spec['memfile'])
    if spec['maxbody'] is not None:
        cfg['max_body_size'] = spec['maxbody']
    if spec.get('domain'):
        cfg['domain_map'] = lambda host: {'sub.example': 'sub'}.get(host)
        cfg['app_name_header'] = 'HTTP_X_APP_NAME'
    more(cfg, spec)
    app = (subclass() if spec.get('sub') else ombott.Ombott)(cfg)
    with atomic():        # routes are registered by one thread at a time
        furnish(app, spec)
    return app


def more(cfg, spec):
    import ombott
    from ombott.request_pkg import errors as E
    if spec.get('errmap'):
        n = spec.get('name', '')
        cfg['errors_map'] = {E.RequestError: ombott.HTTPError(422, 'mapped ' + n), E.BodySizeError: ombott.HTTPError(420, 'large ' + n, X_Map='m')}
        if spec['errmap'] == 2:
            cfg['errors_map'][E.BodyParsingError] = ombott.HTTPError(424, 'unparsable ' + n)
    if spec.get('xscript'):
        cfg['allow_x_script_name'] = True
    if spec.get('nocatch'):
        cfg['catchall'] = False


default_hooks = []


def default_app(spec):
    """the default application, emptied and furnished again"""
    import ombott
    from ombott.router import RadiRouter
    app = ombott.default_app()
    app.router = RadiRouter()
    for name, func in default_hooks:
        app.remove_hook(name, func)
    del default_hooks[:]
    app.error_handlers.clear()
    app.error_handlers['404-hooks'] = {}
    cfg = dict(debug=spec['debug'], max_memfile_size=spec['memfile'], max_body_size=spec['maxbody'])
    if spec.get('domain'):
        cfg['domain_map'] = lambda host: {'sub.example': 'sub'}.get(host)
        cfg['app_name_header'] = 'HTTP_X_APP_NAME'
    more(cfg, spec)
    app.setup(cfg)
    furnish(app, spec, default_hooks)
    return app


def furnish(app, spec, installed=None):
    import ombott
    installed = [] if installed is None else installed
    s0 = ombott.HTTPError(418, 'shared teapot')
    s0.headers.append('X-Shared', 'one')
    s0.headers.append('X-Shared', 'two')
    s0.set_cookie('shared', 'c')
    s1 = ombott.HTTPResponse('shared ok', 203)
    s1.headers.append('X-Shared', '1')
    s1.headers.append('X-Shared', '2')
    s1.set_cookie('sharedok', 'c')
    s2 = ombott.HTTPError(410, 'bare')
    shared = [s0, s1, s2]
    tag = spec.get('name', '')

    def handler(**kw):
        me = stack()[-1]
        log = me.log
        log.append(('args', tag, dict(kw)))
        do_ops(app, me.req['ops'], log)
        return outcome(app, me.req['outcome'], shared, log)
    for rule in ('/echo', '/a/{x}', '/a/{x}/b', '/p/{rest:path}', '/{app}/echo', r'/r/<x:rex(tok([02468]\w*)|tok(\w+)|(.+))>', r'/r/<x:rex(tok([02468]\w*)|tok(\w+)|(.+))>/<y:re(\w+)>', '/n/<i:int>/<x>-<f:float>'):
        app.route(rule, method=['GET', 'POST', 'PUT'], callback=handler)
    app.route('/only-post', method='POST', callback=handler)
    if spec['hooks']:
        @app.on('before_request')
        def before():
            me = stack()[-1]
            me.log.append(('before', view(app.request, 'path'), show_response(app.response)))
            app.response.headers.append('X-Before', me.req['token'])
            app.response.headers.append('X-Before', 'b')
            if me.req.get('hookops'):
                do_ops(app, me.req['hookops'], me.log)

        @app.on('after_request')
        def after():
            me = stack()[-1]
            me.log.append(('after', view(app.request, 'path'), show_response(app.response)))
            app.response.headers.append('X-After', me.req['token'])
            app.response.set_cookie('after', me.req['token'])
        installed += [('before_request', before), ('after_request', after)]

        @app.on_route('/a')
        def hook(prefix):
            me = stack()[-1]
            me.log.append(('route-hook', prefix, view(app.request, 'path')))
            app.response.headers['X-Hook'] = prefix
    if spec['errors']:
        def page(err):
            me = stack()[-1]
            me.log.append(('error-page', err.status, plain(err.body), view(app.request, 'path'), show_response(app.response), list(err.headerlist)))
            if me.req.get('errmut') and not any(err is x for x in shared):       # (the shared ones belong to the handler)
                err.headers.append('X-On-Err', me.req['token'])
                err.set_cookie('onerr', me.req['token'])
                err.body = f'{err.body} changed by {me.req["token"]}'
            app.response.headers.append('X-Shared', me.req['token'])
            app.response.headers.append('X-Err', me.req['token'])
            app.response.set_cookie('err', me.req['token'])
            if me.req.get('errops'):
                do_ops(app, me.req['errops'], me.log)
            return f'custom {err.status} {app.request.path} {err.body}'
        for code in (418, 413, 500) if spec['errors'] == 1 else (400, 404, 405, 500):
            app.error(code)(page)

        @app.error(404, rule='/a')
        def partial(route, params):
            me = stack()[-1]
            me.log.append(('404-hook', route, plain(params)))
            if me.req.get('errmut') and isinstance(params, list):
                params.append(me.req['token'])
            app.response.status = 404
            return 'partial ' + route


class World:
    """several applications in one process; serve() answers a picture of the whole exchange"""
    def __init__(self, specs):
        self.specs = list(specs)
        self.apps = [build(s) if not s.get('default') else default_app(s) for s in specs]
        self.extra = []

    def name(self, app):
        for i, a in enumerate(self.apps):
            if a is app:
                return self.specs[i].get('name') or i
        return 'other'

    def extra_app(self, how):
        import ombott
        if how == 'listener':            # an application which follows the changes of its requests
            a = build(self.specs[0])
            log = self.heard = getattr(self, 'heard', [])
            a.request.on('env_changed', lambda rq, key, value: (rq.environ.__setitem__('HTTP_X_HEARD', key), log.append(key)))
            self.extra.append(a)
        elif how == 'app':
            self.extra.append(build(self.specs[0]))
        elif how == 'bare':
            self.extra.append(ombott.Ombott())
        elif how == 'request':
            self.extra.append(ombott.Request({'PATH_INFO': '/extra', 'QUERY_STRING': 'extra=1'}))
        elif how == 'response':
            r = ombott.Response()
            r.status = '299 extra'
            r.headers['X-Extra'] = '1'
            r.set_cookie('extra', '1')
            self.extra.append(r)
        elif how == 'http':
            self.extra.append(ombott.HTTPResponse('extra', 299, {'X-Extra': '1'}))
        elif how == 'setup':
            a = ombott.Ombott()
            a.setup({'debug': True})
            self.extra.append(a)

    def serve(self, i, req, env=None):
        env = env or request_env(req)
        me = Running(req, self)
        s = stack()
        s.append(me)
        try:
            try:
                res = wsgi.call(self.apps[i], env, iter_errors=True, let_escape=True)
            except SystemExit as e:
                return ('exit', str(e), me.log)
        finally:
            s.pop()
        if req['outcome'][0] == 'static':
            res.headers[:] = [h for h in res.headers if h[0] != 'Date']
        return (res.status, res.headers, res.body, exc(res.escaped) if res.escaped else None, exc(res.iter_error) if res.iter_error else None, me.log)


class Breaking(wsgi.Stream):
    """the client is gone for a moment after some bytes"""
    def __init__(self, data, cut, token):
        super().__init__(data, [cut])
        self.cut, self.token, self.broken = cut, token, False

    def _take(self, n):
        if self.pos >= self.cut and not self.broken:
            self.broken = True
            raise OSError('lost ' + self.token)
        return super()._take(n)


def request_env(req, marker=None):
    raw = req['raw']
    chunked = req['framing'] == 'chunked'
    data = raw
    if chunked:
        k = req['cut']
        data = b''.join(b'%x\r\n%b\r\n' % (len(raw[i:i + k]), raw[i:i + k]) for i in range(0, len(raw), k)) + b'0\r\n\r\n'
    elif req['framing'] == 'badchunk':
        data, chunked = b'zz\r\n' + raw, True
    headers = dict(req['headers'])
    headers['X-Token'] = req['token']
    if '!sign:' in headers.get('Cookie', ''):
        headers['Cookie'] = re.sub('!sign:(\\w+):([^;!]+)!', lambda m: '"%s"' % signed(m[1], m[2], 's-' + m[2]), headers['Cookie'])
    extra = {'test.x': req['token'], 'REMOTE_ADDR': req['addr']}
    if req.get('keyform'):
        extra['REMOTE_USER'] = req['token']
    return wsgi.environ(req['method'], req['path'], qs=req['qs'], headers=headers, stream=Breaking(data, req['cut'], req['token']) if req['framing'] == 'breaks' else wsgi.Stream(data), ctype=req['ctype'], clen=None if chunked else len(raw) + (9 if req['framing'] == 'short' else 0),
                        chunked=chunked, script=req['script'], proto=req['proto'], extra=extra)


def signed(name, value, secret):
    msg = base64.b64encode(pickle.dumps((name, value), -1))
    return '!' + base64.b64encode(hmac.new(secret.encode(), msg, digestmod=hashlib.md5).digest()).decode() + '?' + msg.decode()


# ------------------------------------------------------------ generators
def gen_spec(src, name=''):
    return dict(debug=src.bool(0.25), errors=src.pick((2, 0), (2, 1), (2, 2)), hooks=src.bool(0.35), memfile=src.pick((3, 1024), (2, 32)), maxbody=src.pick((2, None), (2, 150)), domain=src.bool(0.12), name=name,
                errmap=src.pick((5, 0), (1, 1), (1, 2)), xscript=src.bool(0.15), nocatch=src.bool(0.1), sub=src.bool(0.25))


def gen_reads(src, token, hi=6, mean=2):
    return [('read', src.choice(READS).replace('@', token)) for _ in range(src.count(0, hi, mean))]


def gen_ops(src, token, depth=0, hi=8, mean=3, heavy=True):
    ops = []
    for _ in range(src.count(0, hi, mean)):
        k = src.pick((6, 'read'), (2, 'set'), (2, 'append'), (1, 'setdefault'), (2, 'cookie'), (1, 'delcookie'), (2, 'status'), (1, 'ctype'), (1, 'resp'), (1, 'ext'), (1, 'env'), (1, 'delh'), (1, 'rbody'), (1, 'copy'), (1, 'newcopy'), (1, 'mutate-error'), (1, 'delenv'), (1, 'clear'), (2, 'mutate'))
        if k == 'read':
            ops.append(('read', src.choice(READS).replace('@', token)))
        elif k in ('set', 'append', 'setdefault'):
            ops.append((k, src.choice(['X-A', 'X-B', 'X-Shared', 'Link', 'ETag']), src.choice([token, token + 'é', 'const'])))
        elif k == 'cookie':
            ops.append((k, src.choice(['c1', 'c2', 'err', 'shared']), token, src.pick((3, None), (1, 's3'), (1, 's-' + token)), src.choice([{}, {'path': '/' + token}, {'max_age': 5, 'httponly': True}])))
        elif k == 'delcookie':
            ops.append((k, src.choice(['c1', 'c2'])))
        elif k == 'status':
            ops.append((k, src.choice([201, 202, '299 ' + token, 404, 500, 204, 304])))
        elif k == 'ctype':
            ops.append((k, src.choice(['text/plain', 'text/x-' + token, 'text/html; charset=latin1', 'application/json'])))
        elif k == 'ext':
            ops.append((k, src.choice(['e1', 'e2']), token))
        elif k == 'env':
            ops.append((k, src.choice(['test.x', 'QUERY_STRING', 'HTTP_X_TOKEN', 'PATH_INFO', 'HTTP_COOKIE']), src.choice([token, '/changed/' + token, 'c1=changed' + token])))
        elif k == 'delenv':
            ops.append((k, src.choice(['test.x', 'HTTP_X_TOKEN', 'QUERY_STRING'])))
        elif k == 'delh':
            ops.append((k, src.choice(['X-A', 'X-Before', 'Content-Type'])))
        elif k == 'rbody':
            ops.append((k, token))
        elif k == 'copy':
            ops.append((k, gen_reads(src, token, 3, 1)))
        elif k == 'mutate':
            ops.append((k, src.choice(['query', 'GET', 'forms', 'params', 'files', 'POST', 'cookies', 'json', 'url_args', 'ctype', 'environ', 'body', 'remote_route']), token))
        elif k == 'mutate-error':
            ops.append((k, src.choice(['body', 'forms', 'json']), token, src.bool()))
        else:
            ops.append((k,))
    return ops


def gen_outcome(src, token):
    k = src.pick((5, 'text'), (1, 'bytes'), (1, 'list'), (1, 'none'), (2, 'gen'), (1, 'genraise'), (1, 'genresp'), (1, 'file'), (1, 'badfile'), (3, 'raise'), (2, 'return'), (3, 'shared'), (3, 'crash'), (1, 'abort'), (1, 'badhdr'), (1, 'object'), (1, 'exit'), (1, 'memory'))
    if k == 'text':
        return (k, 'body ' + token)
    if k == 'bytes':
        return (k, token.encode())
    if k == 'list':
        return (k, ['', token, '-'])
    if k in ('gen', 'genraise'):
        return (k, ['1' + token, '2', '3é'][:src.int(1, 3)], gen_reads(src, token, 3, 1.5))
    if k == 'genresp':
        return (k, token, gen_reads(src, token, 2, 1))
    if k == 'file':
        return (k, token.encode() * 3)
    if k in ('raise', 'return'):
        return (k, src.choice(['HTTPResponse', 'HTTPError']), src.choice([200, 400, 404, 413, 418, 500, 204, 302, '299 ' + token]), token,
                [(src.choice(['X-A', 'X-C']), token) for _ in range(src.count(0, 3, 1))], [(src.choice(['c1', 'c3']), token) for _ in range(src.count(0, 2, 0.6))])
    if k == 'shared':
        return (k, src.below(3), src.bool(0.8))
    if k == 'crash':
        return (k, src.choice(['ValueError', 'KeyError', 'ZeroDivisionError', 'AttributeError']), token)
    if k == 'abort':
        return (k, src.choice([400, 404, 418, 500]), token)
    return (k, token)


def gen_req(src, token, simple=False):
    paths = ['/r/' + token, '/r/' + token, '/r/x' + token, '/r/%s/%s' % (token, token), '/n/%d/%s-%d.5' % (len(token), token, src.below(9)), '/echo', '/a/' + token, '/a/%s/b' % token, '/p/x/' + token, '/missing/' + token, '/a/x/y/z', '/only-post', '/', '/sub/echo', '/only-post/' + token]
    path = src.pick((10, None), (1, b'/\xff' + token.encode()), (1, '/é' + token)) or src.pick((4, '/echo'), (4, '/a/' + token), (2, None)) or src.choice(paths)
    method = src.pick((4, 'GET'), (3, 'POST'), (1, 'HEAD'), (1, 'PUT'), (1, 'DELETE'), (1, 'post'))
    bk = src.pick((3, 'none'), (2, 'urlencoded'), (2, 'json'), (2, 'multipart'), (1, 'raw'), (2, 'bad-json'), (1, 'bad-multipart'), (1, 'big'))
    t = token.encode()
    named = src.bool(0.4)                # the names are this request's own as well, not only the values
    f, m, b = (b'f' + t, b'm' + t, b'b' + t) if named else (b'f', b'm', b'b')
    size = src.pick((3, 1), (2, 60), (2, None)) or src.below(200)
    raw, ctype = {
        'none': (b'', None), 'urlencoded': (f + b'=' + t + b'&' + f + b'=2&g=' + t, 'application/x-www-form-urlencoded' + ('; p=' + token if named and src.bool(0.3) else '')), 'json': (b'{"j' + (t if named else b'') + b'": "' + t + b'"}', 'application/json'),
        'multipart': (b'--%b\r\nContent-Disposition: form-data; name="%b"\r\n\r\n%b\r\n--%b\r\nContent-Disposition: form-data; name="u%b"; filename="n%b"\r\nContent-Type: x/%b%b\r\n\r\nfile%b\r\n--%b--\r\n%b'
                      % (b, m, t, b, t if named else b'', t, t, b'\r\nX-P%b: %b' % (t, t) if named else b'', t * size, b, (b'', t)[size % 2]), 'multipart/form-data; boundary=' + b.decode()),
        'raw': (b'raw-' + t * size, 'application/octet-stream'), 'bad-json': (b'{"j": ' + t, 'application/json'), 'bad-multipart': (b'--b\r\nX: ' + t, 'multipart/form-data; boundary=b'),
        'big': (t * (size + 20), 'application/x-www-form-urlencoded')}[bk]
    headers = {}
    if src.bool(0.3):
        headers['Cookie'] = src.choice(['c1=%s', 'c1=%s; c2=x%s', 'c3="%s"', 'sg=!sign:sg:%s!; c2=%s']).replace('%s', token)
    if src.bool(0.2):
        headers['Accept'] = 'application/json'
    if src.bool(0.15):
        headers['Authorization'] = 'Basic dTpw' if src.bool() else 'Basic ' + token
    if src.bool(0.15):
        headers['Host'] = src.choice(['h-%s.example' % token, 'sub.example'])
    if src.bool(0.1):
        headers['X-Forwarded-For'] = '1.2.3.%d, 9.9.9.9' % (len(token))
    if src.bool(0.1):
        headers['X-Requested-With'] = 'XMLHttpRequest'
    if src.bool(0.1):
        headers['X-Script-Name'] = '/x-' + token
    if named:
        if src.bool(0.3):
            headers['X-N-' + token] = token
        if src.bool(0.2):
            headers['Cookie'] = f'n{token}={token}; c1={token}; sg=!sign:sg:{token}!'
        if src.bool(0.1):
            method = 'M' + token
        if src.bool(0.1):
            headers[src.choice(['Range', 'If-Modified-Since', 'Content-Encoding', 'Accept-Language'])] = token
    return dict(token=token, method=method, path=path, qs=src.choice(['q=' + token, '', 'q=1&q=' + token, token] + (['n%s=%s&n%s=2' % (token, token, token)] if named else [])), headers=headers, raw=raw, ctype=ctype, framing=src.pick((5, 'clen'), (2, 'chunked'), (1, 'badchunk'), (1, 'short'), (1, 'breaks')) if raw else 'clen',
                cut=1 + src.below(20), script=src.pick((6, ''), (1, '/s-' + token)), proto=src.choice(['HTTP/1.1', 'HTTP/1.0']), addr='10.0.0.%d' % (src.below(9) + 1), ops=gen_ops(src, token), outcome=gen_outcome(src, token),
                hookops=gen_ops(src, token, hi=3, mean=0.5) if src.bool(0.2) else [], errops=gen_ops(src, token, hi=4, mean=1) if src.bool(0.4) else [], errmut=src.bool(0.4))


def only_default(src, req, token, p=0.35):
    """what works on the default application only"""
    if not src.bool(p):
        return
    if src.bool(0.35):
        req['outcome'] = ('redirect', token)
        return
    req['outcome'] = ('static', src.choice(FILES), src.choice([{}, {}, {}, dict(download=True), dict(download='n-%s.txt' % token), dict(mimetype='text/x-' + token)]))
    if src.bool(0.6):
        req['method'] = src.choice(['GET', 'GET', 'POST'])
    if src.bool(0.5):
        req['headers']['Range'] = src.choice(['bytes=0-3', 'bytes=5-', 'bytes=-4', 'bytes=2-2,4-5', 'bytes=9-1', 'x=1-2', 'bytes=' + token, 'bytes=0-99999'])
    if src.bool(0.3):
        req['headers']['If-Modified-Since'] = src.choice(['Sun, 13 Sep 2009 12:26:40 GMT', 'Sun, 13 Sep 2099 12:26:40 GMT', 'Sunday, 13-Sep-09 12:26:40 GMT', token, 'Sun Sep 13 12:26:40 2099'])


def subst(x, a, b):
    if isinstance(x, str):
        return x.replace(a, b)
    if isinstance(x, bytes):
        return x.replace(a.encode(), b.encode())
    if isinstance(x, (list, tuple)):
        return type(x)(subst(i, a, b) for i in x)
    if isinstance(x, dict):
        return {subst(k, a, b): subst(v, a, b) for k, v in x.items()}
    return x


FIELDS = ['method', 'path', 'qs', 'headers', 'raw', 'ctype', 'script', 'ops', 'outcome', 'hookops', 'errops']


def variant(src, req, token):
    """the same request again, with other data in some of its fields only"""
    out = dict(req, token=token)
    for f in FIELDS:
        if src.bool(0.4 if f != 'outcome' else 0.75):
            out[f] = subst(req[f], req['token'], token)
    if src.bool(0.2):
        out['outcome'] = gen_outcome(src, token)
    if src.bool(0.2):
        out['ops'] = gen_ops(src, token)
    if src.bool(0.1):
        out['headers'] = dict(out['headers'], Accept='application/json')
    return out


# ------------------------------------------------------------ one request of every kind
BODIES = {'urlencoded': 'application/x-www-form-urlencoded', 'json': 'application/json', 'multipart': 'multipart/form-data; boundary=', 'bad-json': 'application/json', 'bad-multipart': 'multipart/form-data; boundary=b', '': ''}


def loaded(i, ops=(), outcome=None, body='', framing='clen', **kw):
    """a request with something of its own in every place"""
    t = 'tok%d' % i
    b = t.encode()
    raw = {'': b'', 'urlencoded': b'f=%b&f=2&g%b=%b+x' % (b, b, b), 'json': b'{"%b": ["%b", 1], "k": {"%b": null}}' % (b, b, b), 'bad-json': b'{"j": ' + b, 'bad-multipart': b'--b\r\nX: ' + b,
           'multipart': b'--%b\r\nContent-Disposition: form-data; name="m%b"\r\n\r\n%b\r\n--%b\r\nContent-Disposition: form-data; name="u"; filename="%b.txt"\r\nContent-Type: x/%b\r\n\r\n%b data\r\n--%b--\r\n' % ((b,) * 8)}[body]
    headers = {'Cookie': f'c1={t}; n{t}="{t}\\073"; c2={t}; sg=!sign:sg:{t}!', 'Authorization': 'Basic ' + base64.b64encode(f'u{t}:p{t}'.encode()).decode(), 'Host': f'h-{t}.example:8{i}', 'X-Forwarded-For': f'1.2.3.{i}, 9.9.9.{i}',
               'X-Token': t, 'X-N-' + t: t, 'Accept-Language': 'a-' + t, 'X-Script-Name': '/x-' + t}
    headers.update(subst(kw.pop('headers', {}), '@', t))
    if i:
        headers['X-Requested-With'] = 'XMLHttpRequest'
    r = dict(token=t, method='POST' if body else 'GET', path='/a/' + t, qs=f'q={t}&n{t}={t}%C3%A9&q=2', headers=headers, raw=raw, ctype=BODIES[body] + (t if body == 'multipart' else '') or None, framing=framing, cut=3, script='/s-' + t,
             proto='HTTP/1.1', addr='10.0.0.%d' % (i + 1), ops=[tuple(o) for o in subst(list(ops), '@', t)], outcome=subst(tuple(outcome or ('text', 'body @')), '@', t), hookops=[], errops=[], errmut=False)
    r.update(subst(kw, '@', t))
    return r


def kinds(spec):
    """every attribute, every change to the response, every outcome: keywords of loaded() (and spec)"""
    todo = []
    for what in READS:
        bodies = ['']
        if what in ('forms', 'files', 'POST', 'params', 'body', 'json'):
            bodies = {'json': ['json', 'bad-json'], 'body': ['multipart']}.get(what, ['multipart', 'urlencoded'])
        for body in bodies:
            todo.append(dict(ops=[('read', what), ('read', what)], body=body, framing='chunked' if what == 'POST' else 'clen'))
    for op in [('set', 'X-A', '@é'), ('append', 'X-A', '@'), ('setdefault', 'X-A', '@'), ('cookie', 'c@', '@', None, {'path': '/@', 'max_age': 5}), ('cookie', 'c1', '@', 's3', {}), ('cookie', 'c1', '@', 's-@', {}), ('cookie', 'c1', 'same', 's-@', {}), ('delcookie', 'c@'), ('status', '299 @'), ('ctype', 'text/x-@; charset=latin1'),
               ('ext', 'e1', '@'), ('env', 'QUERY_STRING', 'z=@'), ('env', 'HTTP_X_TOKEN', '@'), ('delenv', 'HTTP_X_TOKEN'), ('copy', [('read', 'query'), ('read', 'headers')]), ('newcopy',), ('mutate-error', 'json', '@', True), ('mutate', 'cookies', '@')]:
        todo.append(dict(ops=[op, ('resp',), op, ('resp',)], body='bad-json' if op[0] == 'mutate-error' else ''))
    for oc in [('text', 'body @'), ('list', ['', '@', '-']), ('gen', ['1@', '2', '3é'], [('read', 'query')]), ('genraise', ['1@', '2'], []), ('genresp', '@', []), ('file', b'tok'), ('badfile', '@'), ('raise', 'HTTPError', 418, '@', [('X-A', '@')], [('c1', '@')]),
               ('return', 'HTTPResponse', '299 @', '@', [('X-A', '@'), ('X-A', '2')], [('c1', '@')]), ('shared', 0, True), ('shared', 1, False), ('crash', 'ValueError', '@'), ('abort', 404, '@'), ('badhdr', '@'), ('object', '@')]:
        todo.append(dict(outcome=oc))
        if oc[0] in ('raise', 'crash', 'abort', 'badhdr'):
            todo.append(dict(outcome=oc, headers={'Accept': 'application/json'}))
            todo.append(dict(outcome=oc, spec=dict(spec, debug=True)))
    for kw in (dict(path='/missing/@'), dict(path='/a/@/none'), dict(path='/only-post'), dict(path=b'/\xff@'), dict(path='/r/@/@'), dict(path='/n/12/@-1.5'), dict(path='/p/x/@'), dict(method='M@'), dict(method='HEAD'),
               dict(framing='badchunk', body='urlencoded', ops=[('read', 'forms')]), dict(framing='short', body='multipart', ops=[('read', 'POST')]), dict(framing='breaks', body='urlencoded', ops=[('read', 'forms'), ('read', 'body'), ('read', 'forms')]), dict(framing='breaks', body='multipart', ops=[('read', 'body')] * 2, outcome=('crash', 'ValueError', '@')), dict(body='bad-multipart', ops=[('read', 'forms')]),
               dict(body='urlencoded', ops=[('read', 'forms')], spec=dict(spec, memfile=8)), dict(body='urlencoded', ops=[('read', 'forms')], spec=dict(spec, maxbody=5)), dict(body='multipart', ops=[('read', 'files')], spec=dict(spec, memfile=64))):
        todo.append(kw)
        if 'path' in kw:
            todo.append(dict(kw, headers={'Accept': 'application/json'}))
            todo.append(dict(kw, spec=dict(spec, errors=2, hooks=True)))
    return todo


def more_kinds(spec):
    """and more for histories: everything read at once, bodies of various sizes in memory and in files"""
    out = []
    for body in ('', 'multipart', 'urlencoded', 'json', 'bad-json', 'bad-multipart'):
        for reads in (READS, READS[::-1]):
            for framing in ('clen', 'chunked') if body else ('clen',):
                out.append(dict(ops=[('read', x) for x in reads], body=body, framing=framing))
    for n in (1, 3, 100, 101, 300, 2000):
        out.append(dict(ops=[('read', 'body'), ('read', 'body')], method='POST', raw=b'@raw' * n, ctype='application/octet-stream', framing='chunked' if n in (3, 300) else 'clen'))
        out.append(dict(ops=[('read', 'POST'), ('read', 'forms')], method='POST', raw=b'--b\r\nContent-Disposition: form-data; name="@"; filename="@"\r\n\r\n%b\r\n--b--' % (b'@file' * n), ctype='multipart/form-data; boundary=b'))
        out.append(dict(ops=[('read', 'POST')], method='POST', raw=b'--b\r\nContent-Disposition: form-data; name="@"; filename="@"\r\n\r\n%b' % (b'@file' * n), ctype='multipart/form-data; boundary=b', framing='short'))
    for oc in (('raise', 'HTTPError', 404, '@', [], []), ('raise', 'HTTPResponse', 204, '@', [('ETag', '@')], []), ('return', 'HTTPError', 500, '@', [], []), ('shared', 2, True), ('exit', '@'), ('memory', '@'), ('none', '@'), ('bytes', b'@')):
        for errors in (0, 2):
            out.append(dict(outcome=oc, spec=dict(spec, errors=errors, hooks=errors > 0), ops=[('append', 'X-A', '@'), ('cookie', 'c@', '@', None, {}), ('status', 299)]))
    for oc in (('redirect', '@'), ('static', 'a.txt', {}), ('static', 'b.html', {'download': 'n-@.txt'}), ('static', 'c.bin', {'mimetype': 'x/@'}), ('static', 'nope.txt', {}), ('static', '../zoo.py', {})):
        for h in ({}, {'Range': 'bytes=1-3'}, {'Range': 'bytes=@'}, {'If-Modified-Since': 'Sun, 13 Sep 2099 12:26:40 GMT'}):
            out.append(dict(outcome=oc, headers=h, spec=dict(spec, default=True)))
    return out
