"""C03 - every request gets exactly one well-formed WSGI response."""
import functools
import io

from vt.core import Leg
from vt import wsgi

RULE = ('case = handler outcome tree (empty values, text, bytes, lists/tuples/generators/custom iterables with and without close() '
        'that yield, yield a response, yield an unsupported object or fail before the first chunk, files with and without '
        'wsgi.file_wrapper, HTTPResponse/HTTPError returned or raised and nested, arbitrary exceptions) x response status/headers '
        'set beforehand x before/after hooks that succeed or fail x custom error handlers x verb spelling x client stopping early. '
        'The exchange is checked by an independent PEP 3333 validator and a model of status, body, Content-Length, close() count and '
        'hook order. Non-trivial: anything but a plain text/bytes answer without hooks.')
ASSUMPTIONS = [
    'file-like objects are binary; what fails while the server iterates (also through its own wsgi.file_wrapper) is not the framework\'s; the non-empty chunks of one iterable are all text or all bytes',
    'a non-empty dict is not a supported return value here (it is iterated as its keys)',
    'a failing after-request hook leaves the remaining after hooks and the status unspecified (only well-formedness is required)',
    'close() of an iterable that produced no output is required at most once',
    'KeyboardInterrupt, SystemExit and MemoryError are passed on by design',
]

TEXTS = ['x', 'x\0', 'x \r\n', 'hello', 'é', '日本', '<b>', 'a' * 300, '\x00', ' ', '0']
STATUSES = [200, 201, 204, 304, 100, 101, 102, 103, 199, 205, 206, 299, 301, 400, 404, 405, 410, 500, 503, 599, 600, 999,
            '200 OK', '204 Nothing', '299 Custom reason', '404 Brain not found', ' 201 padded ', '103 Early', '304 Same', '200 é']
BAD_STATUSES = ['200 OK\r\nX-Evil: 1', '200 \n', '200 ', '0200 OK', '+200 OK', '2_00 OK', '２００ OK', '200\tOK yes', 99, 1000, -1, '99 x',
                '200', 'abc def', '200 日本', '200 a\x00b', '200 a\rb', '']
EXCS = ['ValueError', 'KeyError', 'UnicodeDecodeError', 'StopIteration', 'OSError', 'ZeroDivisionError', 'BadStr', 'BadRepr', 'Ombott',
        'AttributeError', 'AssertionError', 'RecursionError', 'TimeoutError', 'StopAsyncIteration', 'ExceptionGroup']


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError('no str')


class BadRepr(Exception):
    def __repr__(self):
        raise RuntimeError('no repr')


def make_exc(kind):
    if kind == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf8', b'\xff', 0, 1, 'bad')
    if kind == 'BadStr':
        return BadStr('x')
    if kind == 'BadRepr':
        return BadRepr('x')
    if kind == 'Ombott':
        from ombott.errors import OmbottException
        return OmbottException('x')
    if kind == 'ExceptionGroup':
        return ExceptionGroup('g', [ValueError('a\udc80')])
    return __builtins__[kind]('boom') if isinstance(__builtins__, dict) else getattr(__builtins__, kind)('boom')


# ------------------------------------------------------------------ generator
def gen_chunks(src, binary):
    return [src.choice(TEXTS).encode() if binary else src.choice(TEXTS) for _ in range(src.count(1, 5, 2))]


def gen_resp(src, depth):
    return dict(status=src.pick((3, None), (4, src.choice(STATUSES)), (1, src.choice(BAD_STATUSES))),
                headers=src.pick((3, []), (1, [['X-R', '1']]), (1, [['X-R', '1'], ['X-R', '2']])),
                body=gen_act(src, depth + 1))


def gen_act(src, depth=0):
    kinds = ['str', 'bytes', 'empty', 'items', 'items', 'items', 'file', 'exc', 'err', 'abort']
    if depth < 3:
        kinds += ['resp', 'resp', 'raise-resp']
    k = src.choice(kinds)
    if k == 'str':
        return ['str', src.choice(TEXTS)]
    if k == 'bytes':
        return ['bytes', src.choice(TEXTS).encode()]
    if k == 'empty':
        return ['empty', src.choice(['none', 'false', 'str', 'bytes', 'list', 'tuple', 'dict', 'zero'])]
    if k == 'items':
        binary = src.bool()
        lead = src.list(lambda: src.choice(['', b'']), 0, 3, 0.5)
        end = src.pick((6, 'ok'), (2, 'exc'), (1, 'raise-resp'), (1, 'yield-resp'), (1, 'yield-err'), (1, 'bad'), (1, 'nothing'))
        spec = dict(how=src.choice(['gen', 'list', 'tuple', 'iter', 'iter-noclose', 'selfiter', 'iter']), lead=lead, end=end, chunks=[], inner=None)
        if end == 'ok':
            spec['chunks'] = gen_chunks(src, binary)
            # empty chunks of the same type in between
            if src.bool(0.3):
                spec['chunks'].insert(src.below(len(spec['chunks'])) + 1, b'' if binary else '')
        elif end == 'exc':
            spec['inner'] = src.choice(EXCS)
        elif end in ('raise-resp', 'yield-resp'):
            spec['inner'] = gen_resp(src, depth + 1 if depth < 2 else 3)
        elif end == 'yield-err':
            spec['inner'] = src.choice([400, 404, 500, 503])
        elif end == 'bad':
            spec['inner'] = src.choice(['int', 'object', 'tuple', 'dict', 'list', 'bytearray'])
        return ['items', spec]
    if k == 'file':
        fail = [src.pick((2, 0), (1, 1)), src.pick((3, ['exc', src.choice(EXCS)]), (1, ['err', src.choice([404, 503, 204]), 't', True]), (1, ['raise-resp', gen_resp(src, 3)]))] if src.bool(0.25) else None
        return ['file', dict(fail=fail, data=src.choice([b'', b'x', b'abc' * 50, b'\x00' * 70000]), close=src.bool(0.7), wrapper=src.bool(0.3), sizes=[1 + src.below(40) for _ in range(src.count(0, 6, 1.5))])]
    if k == 'exc':
        return ['exc', src.choice(EXCS)]
    if k == 'err':
        return ['err', src.choice([400, 401, 404, 405, 413, 418, 500, 503, 204, 304, '499 Odd']), src.choice(['t', '', '<x>', None, 'é']), src.bool()]
    if k == 'abort':
        return ['abort', src.choice([400, 404, 500]), src.choice(TEXTS)]
    return [k, gen_resp(src, depth)]


def gen_hook(src):
    return src.pick((6, 'ok'), (1, 'exc'), (1, 'err'), (1, 'resp'))


def gen(src):
    return dict(
        verb=src.pick((6, 'GET'), (3, 'HEAD'), (1, 'head'), (1, 'Head'), (2, 'POST')),
        target=src.pick((8, 'route'), (1, '404'), (1, '405')),
        act=gen_act(src),
        pre=dict(status=src.pick((4, None), (3, src.choice(STATUSES)), (1, src.choice(BAD_STATUSES))), headers=src.pick((9, []), (3, [['X-A', '1']]), (1, [['X-Bad', '\ud800']])),
                 clen=src.pick((10, None), (1, '5')), ctype=src.pick((6, None), (1, 'text/plain; charset=latin1'), (1, 'text/plain; charset=bogus'),
                                                                      (1, 'text/plain;charset=utf-8;x=1'))),
        before=src.list(lambda: gen_hook(src), 0, 3, 0.7),
        after=src.list(lambda: src.pick((9, 'ok'), (1, 'exc'), (1, 'resp')), 0, 3, 0.7),
        handlers=[[src.choice([404, 405, 500, 400, 503]), gen_act(src, 2)] for _ in range(src.count(0, 2, 0.4))],
        json=src.bool(0.15), debug=src.bool(0.1),
        stop=src.pick((6, None), (1, 0), (1, 1)),
        wrapper=src.bool(0.2), proto=src.pick((5, 'HTTP/1.1'), (1, 'HTTP/1.0'), (1, 'HTTP/2')),
        sub=src.bool(0.2), callable=src.pick((6, 'function'), (1, 'partial'), (1, 'object'), (1, 'method')))


# ------------------------------------------------------------------ building
class Rec:
    """a close() recorder"""
    def __init__(self):
        self.closed = 0
        self.produced = False
        self.must = False


class It:
    def __init__(self, items, rec, mode):
        self.items, self.rec, self.mode = items, rec, mode
        self._g = None
        if mode != 'iter-noclose':
            self.close = self._close

    def _close(self):
        self.rec.closed += 1

    def __iter__(self):
        if self.mode == 'selfiter':
            if self._g is None:
                self._g = self.items()
            return self
        return self.items()

    def __next__(self):
        if self._g is None:
            self._g = self.items()
        return next(self._g)


class FileLike:
    def __init__(self, data, rec, has_close, sizes=(), fail=None):
        self.f = io.BytesIO(data)
        self.fail = fail
        self.reads = 0
        self.rec = rec
        self.sizes = list(sizes)         # a pipe gives less than it is asked for
        if has_close:
            self.close = self._close

    def _close(self):
        self.rec.closed += 1

    def read(self, n=-1):
        self.reads += 1
        if self.fail and self.reads == self.fail[0] + 1:
            self.fail[1]()
        if self.sizes:
            k = self.sizes.pop(0)
            n = k if n is None or n < 0 else min(n, k)
        return self.f.read(n)


class Gen:
    """a generator whose close can be counted"""
    def __init__(self, g, rec):
        self.g, self.rec = g, rec


class World:
    def __init__(self):
        self.recs = []
        self.log = []
        self.sub = False


_sub = {}


def sub(cls, w):
    """cls, or in some worlds a subclass of it"""
    if not w.sub:
        return cls
    if cls not in _sub:
        if cls.__name__ == 'HTTPError':
            class S(cls):
                default_status = 418

                def __init__(self, status=None, body=None, **kw):
                    self.extra = [status]
                    super().__init__(status, body, **kw)
        else:
            class S(cls):
                extra = None
        _sub[cls] = S
    return _sub[cls]


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **kw):
        return self.f(*a, **kw)

    def method(self, *a, **kw):
        return self.f(*a, **kw)


def as_callable(f, how):
    if how == 'partial':
        return functools.partial(f)
    if how == 'object':
        return Callable(f)
    if how == 'method':
        return Callable(f).method
    return f


def build_resp(spec, w):
    from ombott import HTTPResponse
    HTTPResponse = sub(HTTPResponse, w)
    kw = {}
    if spec['status'] is not None:
        kw['status'] = spec['status']
    return HTTPResponse(build(spec['body'], w), headers=[tuple(h) for h in spec['headers']], **kw)


def build(act, w):
    """returns the object the handler returns, or raises"""
    from ombott import HTTPError, abort
    k = act[0]
    HTTPError = sub(HTTPError, w)
    if k in ('str', 'bytes'):
        return sub(type(act[1]), w)(act[1])
    if k == 'empty':
        return {'none': None, 'false': False, 'str': '', 'bytes': b'', 'list': [], 'tuple': (), 'dict': {}, 'zero': 0}[act[1]]
    if k == 'exc':
        raise make_exc(act[1])
    if k == 'err':
        e = HTTPError(act[1], act[2])
        if act[3]:
            raise e
        return e
    if k == 'abort':
        abort(act[1], act[2])
    if k == 'resp':
        return build_resp(act[1], w)
    if k == 'raise-resp':
        raise build_resp(act[1], w)
    if k == 'file':
        s = act[1]
        rec = Rec()
        w.recs.append((rec, 'file', s))
        fail = s.get('fail')
        return FileLike(s['data'], rec, s['close'], s.get('sizes', ()), fail and (fail[0], lambda: build(fail[1], w)))
    s = act[1]
    rec = Rec()
    w.recs.append((rec, 'items', s))

    def items():
        try:
            for x in s['lead']:
                yield sub(type(x), w)(x)
            for x in s['chunks']:
                yield sub(type(x), w)(x)
            e = s['end']
            if e == 'exc':
                ex = make_exc(s['inner'])
                if isinstance(ex, (StopIteration,)):
                    ex = ValueError('x')
                raise ex
            if e == 'raise-resp':
                raise build_resp(s['inner'], w)
            if e == 'yield-resp':
                yield build_resp(s['inner'], w)
            if e == 'yield-err':
                yield HTTPError(s['inner'], 'E')
            if e == 'bad':
                yield {'int': 5, 'object': object(), 'tuple': ('x',), 'dict': {'a': 1}, 'list': ['x'], 'bytearray': bytearray(b'x')}[s['inner']]
        finally:
            if s['how'] == 'gen':
                rec.closed += 1            # a generator: closed or exhausted
    if s['how'] == 'gen':
        return items()
    if s['how'] in ('list', 'tuple'):
        if s['end'] in ('exc', 'raise-resp'):
            return It(items, rec, 'iter')
        out = list(items())
        return sub(list, w)(out) if s['how'] == 'list' else sub(tuple, w)(out)
    return It(items, rec, s['how'])


# ------------------------------------------------------------------ model
class Crash(Exception):
    """the critical-error page"""


def parse_status(st):
    """code of a valid status, None if it has to be refused"""
    import re
    if isinstance(st, int):
        return st if 100 <= st <= 999 else None
    if st is None or st == '':
        return 'default'
    s = st.strip()
    m = re.match(r'^([1-9][0-9][0-9]) ([^\x00-\x1f\x7f]+)$', s)
    if not m or any(ord(c) > 255 for c in s):
        return None
    return int(m.group(1))


class Model:
    """evaluates the outcome; result (code, body|None, headers dict|None)"""

    def __init__(self, handlers, wrapper=False):
        self.handlers = handlers
        self.wrapper = wrapper

    def resp(self, spec, st, raised_ok=True):
        """constructing may itself fail (the body is built first)"""
        body = spec['body']
        pre = self.construct(body)
        if pre is not None:
            return self.raised(pre, st)
        code = parse_status(spec['status'])
        if code is None:
            return self.error(500, st)
        code = 200 if code == 'default' else code
        return self.value(body, dict(code=code, headers=[tuple(h) for h in spec['headers']], ctype=None, clen=None))

    def construct(self, act):
        """what building the value raises, if it raises"""
        k = act[0]
        if k == 'exc':
            return ['E', 500]
        if k == 'err' and act[3]:
            return ['E', act[1]]
        if k == 'abort':
            return ['E', act[1]]
        if k in ('resp', 'raise-resp'):
            sub = self.construct(act[1]['body'])
            if sub is not None:
                return sub
            if parse_status(act[1]['status']) is None:
                return ['E', 500]
            if k == 'raise-resp':
                return ['R', act[1]]
        return None

    def raised(self, x, st):
        if x[0] == 'E':
            return self.error(x[1], st)
        return self.resp(x[1], st)

    def error(self, status, st):
        code = status if isinstance(status, int) else int(status.split()[0])
        st = dict(code=code, headers=[], ctype=None, clen=None)
        h = self.handlers.get(code)
        if h is None:
            return dict(code=code, body=None, st=st)
        if self.depth > 20:
            return dict(code=500, body=None, st=st)
        self.depth += 1
        if self.construct(h) is not None:          # raising inside an error handler: critical page
            raise Crash()
        return self.value(h, st)

    depth = 0

    def encode(self, s, st):
        cs = 'utf8'
        if st['ctype'] and 'charset=' in st['ctype']:
            cs = st['ctype'].split('charset=')[1].split(';')[0]
        try:
            return s.encode(cs)
        except (LookupError, UnicodeError):
            raise Crash()

    def value(self, act, st):
        k = act[0]
        if k == 'empty':
            return dict(code=st['code'], body=b'', st=st)
        if k == 'str':
            return dict(code=st['code'], body=self.encode(act[1], st), st=st)
        if k == 'bytes':
            return dict(code=st['code'], body=act[1], st=st)
        if k == 'err':
            return self.error(act[1], st)
        if k == 'resp':
            return self.resp(act[1], st)
        if k == 'file':
            fail = act[1].get('fail')
            if fail and (fail[0] == 0 or act[1]['data']):
                if self.wrapper or fail[0]:                 # fails when the server iterates
                    return dict(code=st['code'], body=None, st=st, stream=True, breaks=True)
                return self.raised(self.construct(fail[1]), st)
            return dict(code=st['code'], body=act[1]['data'], st=st, stream=True)
        s = act[1]
        e = s['end']
        if s['how'] in ('list', 'tuple') and e == 'nothing' and not s['lead']:
            return dict(code=st['code'], body=b'', st=st)
        if s['how'] in ('list', 'tuple') and e == 'yield-resp':
            sub = self.construct(['resp', s['inner']])
            if sub is not None:              # building the list raises inside the handler
                return self.raised(sub, st)
        if e == 'ok':
            out = []
            for n, c in enumerate(s['chunks']):
                if isinstance(c, str):
                    try:
                        c = self.encode(c, st)
                    except Crash:
                        if n:
                            return dict(code=st['code'], body=None, st=st, stream=True, breaks=True)
                        raise
                out.append(c)
            return dict(code=st['code'], body=b''.join(out), st=st, stream=True)
        if e == 'nothing':
            return dict(code=st['code'], body=b'', st=st)
        if e == 'exc':
            return self.error(500, st)
        if e in ('raise-resp', 'yield-resp'):
            sub = self.construct(['resp', s['inner']])
            if sub is not None:
                return self.raised(sub, st)
            return self.resp(s['inner'], st)
        if e == 'yield-err':
            return self.error(s['inner'], st)
        return self.error(500, st)


def list_raises(model, act):
    """a list/tuple outcome builds its elements inside the handler"""
    if act[0] == 'items' and act[1]['how'] in ('list', 'tuple') and act[1]['end'] == 'yield-resp':
        return model.construct(['resp', act[1]['inner']])
    return None


class ListAware(Model):
    def construct(self, act):
        r = list_raises(Model(self.handlers), act)
        if r is not None:
            return r
        k = act[0]
        if k in ('resp', 'raise-resp'):
            sub = self.construct(act[1]['body'])
            if sub is not None:
                return sub
        return super().construct(act)


def run(case, ctx):
    from ombott import Ombott, HTTPError, HTTPResponse
    w = World()
    w.sub = case.get('sub', False)
    how = case.get('callable', 'function')
    app = Ombott({'debug': True} if case['debug'] else None)
    model = ListAware({}, case['wrapper'])
    pre = case['pre']

    def handler():
        w.log.append('h')
        r = app.response
        for k, v in pre['headers']:
            r.headers[k] = v
        if pre['clen'] is not None:
            r.headers['Content-Length'] = pre['clen']
        if pre['ctype'] is not None:
            r.content_type = pre['ctype']
        if pre['status'] is not None:
            r.status = pre['status']
        return build(case['act'], w)
    handler = as_callable(handler, how)
    app.add_route('/r', ['GET', 'POST'], handler)
    app.add_route('/m', 'DELETE', handler)
    for i, h in enumerate(case['before']):
        def hook(i=i, h=h):
            w.log.append('b%d' % i)
            if h == 'exc':
                raise KeyError('hook')
            if h == 'err':
                raise HTTPError(403, 'no')
            if h == 'resp':
                raise HTTPResponse('early', 202)
        app.add_hook('before_request', as_callable(hook, how))
    for i, h in enumerate(case['after']):
        def hook(i=i, h=h):
            w.log.append('a%d' % i)
            if h == 'exc':
                raise KeyError('hook')
            if h == 'resp':
                raise HTTPResponse('late', 203)
        app.add_hook('after_request', as_callable(hook, how))
    for code, act in case['handlers']:
        def eh(err, act=act):
            return build(act, w)
        app.error(code)(as_callable(eh, how))
        model.handlers[code] = act
    extra = {}
    closers = []
    if case['wrapper']:
        class FW:
            def __init__(self, f, bs=8192):
                self.f, self.bs = f, bs
                if hasattr(f, 'close'):
                    self.close = f.close

            def __iter__(self):
                while True:
                    c = self.f.read(self.bs)
                    if not c:
                        return
                    yield c
        extra['wsgi.file_wrapper'] = FW
    path = {'route': '/r', '404': '/none', '405': '/m'}[case['target']]
    env = wsgi.environ(case['verb'], path, headers={'Accept': 'application/json'} if case['json'] else None, extra=extra, proto=case.get('proto', 'HTTP/1.1'))

    # expected outcome
    fail_before = next((h for h in case['before'] if h != 'ok'), None)
    after_fails = any(h != 'ok' for h in case['after'])
    try:
        st0 = dict(code=200, headers=[], ctype=None, clen=None)
        if fail_before == 'exc':
            want = model.error(500, st0)
        elif fail_before == 'err':
            want = model.error(403, st0)
        elif fail_before == 'resp':
            want = dict(code=202, body=b'early', st=st0)
        elif case['target'] != 'route':
            want = model.error(int(case['target']), st0)
        else:
            code = parse_status(pre['status'])
            if pre['status'] == '':
                code = None
            if code is None:
                want = model.error(500, st0)
            else:
                st = dict(code=200 if code == 'default' else code, headers=[tuple(h) for h in pre['headers']], ctype=pre['ctype'], clen=pre['clen'])
                x = model.construct(case['act'])
                want = model.raised(x, st) if x is not None else model.value(case['act'], st)
    except Crash:
        want = dict(code=500, body=None, st=dict(code=500, headers=[], ctype=None, clen=None), crash=True)
    if want is not None and not want.get('crash') and any('\ud800' in v for _, v in want['st']['headers']):
        want['crash'] = True               # the header cannot be sent: critical page, output closed
        want['code'], want['body'] = 500, None
        ctx.tag('unsendable-header')
    if after_fails:
        want = None
    breaks = bool(want and want.get('breaks'))

    if case['stop'] is None or after_fails or breaks:
        res = wsgi.call(app, env, iter_errors=after_fails or breaks or want is None)
        full = True
    else:
        res = partial(app, env, case['stop'])
        full = False

    # hooks
    exp_b = []
    for i, h in enumerate(case['before']):
        exp_b.append('b%d' % i)
        if h != 'ok':
            break
    got_b = [x for x in w.log if x[0] == 'b']
    ctx.check(got_b == exp_b, lambda: f'before hooks ran as {got_b}, expected {exp_b} (log {w.log})')
    got_a = [x for x in w.log if x[0] == 'a']
    exp_a = []
    for i in reversed(range(len(case['after']))):
        exp_a.append('a%d' % i)
        if case['after'][i] != 'ok':
            break
    if after_fails:
        ctx.check(len(set(got_a)) == len(got_a) and got_a[:len(exp_a)] == exp_a, lambda: f'after hooks ran as {got_a}, expected to start {exp_a}')
    else:
        ctx.check(got_a == exp_a, lambda: f'after hooks ran as {got_a}, expected {exp_a} (log {w.log})')
    ran = w.log.count('h')
    ctx.check(ran == (1 if case['target'] == 'route' and fail_before is None else 0), lambda: f'handler ran {ran} times (log {w.log})')
    if ran:
        hpos = w.log.index('h')
        ctx.check(all(w.log.index(x) < hpos for x in got_b) and all(w.log.index(x) > hpos for x in got_a), lambda: f'hook order {w.log}')
    ctx.check(w.log == got_b + ['h'] * ran + got_a, lambda: f'order {w.log}')

    # response
    method = case['verb'].upper()
    desc = lambda: f'{res.status} {res.headers} body={res.body[:200]!r} errors={res.errors[-300:]!r}'      # noqa
    if want is not None:
        ctx.check(res.code == want['code'], lambda: f'expected status {want["code"]}, got {desc()}')
    allowed = wsgi.body_allowed(res.code, method)
    if not allowed:
        ctx.check(res.body == b'', lambda: f'{case["verb"]} {res.code} must not carry a body: {desc()}')
        ctx.tag('bodyless')
    elif want is not None and want['body'] is not None and full:
        ctx.check(res.body == want['body'], lambda: f'expected body {want["body"][:200]!r}, got {desc()}')
    elif want is not None and want['body'] is None and full and not breaks:
        ctx.check(len(res.body) > 0, lambda: f'framework error page is empty: {desc()}')
    cl = res.all('Content-Length')
    ctx.check(len(cl) <= 1, lambda: f'several Content-Length headers: {desc()}')
    user_cl = want['st']['clen'] if want is not None else (pre['clen'] or None)
    if cl and allowed and user_cl is None and full and not breaks:
        ctx.check(cl[0] == str(len(res.body)), lambda: f'Content-Length {cl[0]} but {len(res.body)} bytes: {desc()}')
        ctx.tag('content-length')
    elif cl and user_cl is None and method == 'HEAD' and want is not None and want['body'] is not None:
        ctx.check(cl[0] in (str(len(want['body'])), '0'), lambda: f'HEAD Content-Length {cl[0]}, GET has {len(want["body"])}')
    if want is not None and not want.get('crash'):
        for k, v in want['st']['headers']:
            ctx.check(v in res.all(k), lambda: f'header {k}: {v} missing in {desc()}')
    # close
    for rec, kind, s in w.recs:
        if kind == 'items' and s['how'] in ('list', 'tuple') and s['end'] not in ('exc', 'raise-resp'):
            continue
        produced = s['data'] if kind == 'file' else s['end'] == 'ok'
        has_close = s['close'] if kind == 'file' else s['how'] != 'iter-noclose'
        if not has_close:
            continue
        ctx.check(rec.closed <= 1, lambda: f'close() called {rec.closed} times on {kind} {s}')
        if produced and want is not None and want.get('stream') and (rec is w.recs[-1][0]) and not breaks:
            ctx.check(rec.closed == 1, lambda: f'close() called {rec.closed} times on the {kind} that produced the body, {desc()}')
            ctx.tag('closed')
            if want.get('crash'):
                ctx.tag('closed-critical')
            if not allowed:
                ctx.tag('closed-unsent')
            if not full:
                ctx.tag('closed-early')
    ctx.tag(case['act'][0])
    if case['act'][0] == 'file' and case['act'][1].get('fail') and case['target'] == 'route' and fail_before is None and case['act'][1]['fail'][0] == 0 and not case['wrapper']:
        ctx.tag('file-fails')
    if w.sub:
        ctx.tag('subclasses')
    if how != 'function':
        ctx.tag('callables')
    ctx.tag('json' if case['json'] else 'html')
    if want is None:
        ctx.tag('after-fails')
    elif want.get('crash'):
        ctx.tag('critical')
    elif want['body'] is None:
        ctx.tag('error-page')
    if fail_before:
        ctx.tag('before-fails')
    if case['act'][0] not in ('str', 'bytes') or case['before'] or case['after'] or case['target'] != 'route':
        ctx.nontrivial()


def partial(app, env, k):
    """a server that gives up after k chunks"""
    state = {}

    def wrapped(environ, start_response):
        out = app(environ, start_response)
        state['out'] = out

        class Cut:
            def __iter__(self):
                for n, c in enumerate(out):
                    if n >= k:
                        return
                    yield c

            def close(self):
                c = getattr(out, 'close', None)
                if c:
                    c()
        return Cut()
    if k == 0:
        def wrapped(environ, start_response):        # noqa
            out = app(environ, start_response)

            class Cut:
                def __iter__(self):
                    return iter(())

                def close(self):
                    c = getattr(out, 'close', None)
                    if c:
                        c()
            return Cut()
    return wsgi.call(wrapped, env)


# every simple outcome x every verb x every status: small scope, exhaustive
def enum_simple(tier):
    acts = [['str', 'x'], ['bytes', b'\xff\x00'], ['empty', 'none'], ['empty', 'dict'], ['exc', 'ValueError'], ['err', 404, 't', True],
            ['err', 500, '', False], ['abort', 400, 'x'],
            ['file', dict(data=b'abc', close=True, wrapper=False)], ['file', dict(data=b'', close=True, wrapper=False)]]
    for how in ('gen', 'list', 'iter', 'iter-noclose', 'selfiter'):
        for binary in (0, 1):
            acts.append(['items', dict(how=how, lead=[b'', ''], end='ok', chunks=[b'a', b'', b'b'] if binary else ['a', '', 'é'], inner=None)])
        for end, inner in (('exc', 'KeyError'), ('nothing', None), ('bad', 'int'), ('yield-err', 404),
                           ('raise-resp', dict(status=201, headers=[], body=['str', 'in'])),
                           ('yield-resp', dict(status=204, headers=[], body=['str', 'in']))):
            acts.append(['items', dict(how=how, lead=[''], end=end, chunks=[], inner=inner)])
    for st in (None, 204, 304, 102, 418):
        acts.append(['resp', dict(status=st, headers=[['X-R', '1']], body=['str', 'b'])])
        acts.append(['raise-resp', dict(status=st, headers=[], body=['items', dict(how='iter', lead=[], end='ok', chunks=[b'z'], inner=None)])])
    statuses = [None] + STATUSES + BAD_STATUSES
    for act in acts:
        for verb in ('GET', 'HEAD', 'head', 'POST'):
            for st in statuses:
                yield dict(verb=verb, target='route', act=act, pre=dict(status=st, headers=[['X-A', '1']], clen=None, ctype=None), before=['ok'],
                           after=['ok', 'ok'], handlers=[], json=False, debug=False, stop=None, wrapper=False)


# ---- deep chains of responses and error handlers, long bodies, many hooks
def gen_scale(src):
    n = src.pick((3, 0), (2, 4), (2, 40), (2, 300), (1, 850), (1, 1200), (1, 2500)) + src.below(30)
    m = src.pick((3, 1), (2, 30), (1, 900), (1, 5000)) + src.below(5)
    return dict(depth=n, statuses=[src.pick((2, None), (3, src.choice([200, 201, 404, 500, 299, 204, 304]))) for _ in range(4)], first=src.choice(['return', 'raise']),
                errors=src.pick((4, 0), (1, 3), (1, 60)), kind=src.pick((3, 'str'), (1, 'bytes'), (4, 'iter'), (3, 'gen'), (2, 'list'), (2, 'file'), (2, 'texts')), lead=src.pick((3, 0), (1, 3), (1, 700), (1, 4000)), count=m,
                size=src.pick((4, 1), (2, 300), (1, 9000)), verb=src.pick((3, 'GET'), (1, 'HEAD'), (1, 'POST')), before=src.pick((3, 1), (1, 20), (1, 120)), after=src.pick((3, 1), (1, 20), (1, 120)), stop=src.pick((4, None), (1, 0), (1, 3), (1, 200)),
                wrapper=src.bool(0.2), headers=src.pick((3, 0), (1, 100)))


def run_scale(case, ctx):
    from ombott import Ombott, HTTPResponse, HTTPError
    app = Ombott()
    log, rec = [], Rec()
    unit = bytes(97 + i % 26 for i in range(case['size']))
    if case['count'] * case['size'] > 3000000:
        case = dict(case, count=300)
    kind, chunks = case['kind'], [b'%d' % i + unit for i in range(case['count'])]
    whole = b''.join(chunks)
    lead = [b'' if i % 2 else '' for i in range(case['lead'])]

    def produce():
        if kind == 'str':
            return whole.decode()
        if kind == 'bytes':
            return whole
        if kind == 'list':
            return lead + chunks
        if kind == 'file':
            return FileLike(whole, rec, True)
        if kind == 'gen':
            def g():
                try:
                    yield from lead
                    yield from chunks
                finally:
                    rec.closed += 1
            return g()
        return It(lambda: iter(lead + ([c.decode() for c in chunks] if kind == 'texts' else chunks)), rec, 'iter')
    code = 200

    def handler():
        log.append('h')
        for i in range(case['headers']):
            app.response.headers.append('X-H%d' % (i % 50), str(i))
        out = produce()
        for i in range(case['depth']):         # from the inside out
            st = case['statuses'][i % 4]
            out = HTTPResponse(out, st) if st is not None else HTTPResponse(out)
        if case['errors']:
            app.inner = out
            out = HTTPError(500, 'first')
        if case['first'] == 'raise' and (case['depth'] or case['errors']):
            raise out
        return out
    app.route('/r', method=['GET', 'POST'], callback=handler)
    k = case['errors']
    codes = [500] + list(range(420, 420 + k))
    for i in range(k):
        def eh(err, i=i):
            log.append('e%d' % i)
            return app.inner if i == k - 1 else HTTPError(codes[i + 1], 'next')
        app.error(codes[i])(eh)
    for i in range(case['before']):
        app.add_hook('before_request', lambda i=i: log.append('b%d' % i))
    for i in range(case['after']):
        app.add_hook('after_request', lambda i=i: log.append('a%d' % i))
    if case['depth']:
        code = case['statuses'][0] or 200          # the innermost is applied last
    elif k:
        code = codes[k - 1]
    extra = {}
    if case['wrapper']:
        class FW:
            def __init__(self, f, bs=8192):
                self.f, self.close = f, f.close

            def __iter__(self):
                return iter(lambda: self.f.read(8192), b'')
        extra['wsgi.file_wrapper'] = FW
    env = wsgi.environ(case['verb'], '/r', extra=extra)
    res = wsgi.call(app, env) if case['stop'] is None else partial(app, env, case['stop'])
    what = lambda: f'{case}: {res.status} {res.headers[:5]} {res.body[:100]!r} ({len(res.body)}) {res.errors[-300:]}'   # noqa
    ctx.check(log == ['b%d' % i for i in range(case['before'])] + ['h'] + ['a%d' % i for i in reversed(range(case['after']))] + ['e%d' % i for i in range(k)][:len([x for x in log if x[0] == 'e'])], lambda: f'order {log[:300]}: {what()}')
    steps = case['depth'] + 2 * k
    ctx.tag(kind)
    if case['depth'] > 200:
        ctx.nontrivial()
    if steps > 900:
        ctx.tag('beyond')                          # a chain which does not end in a reasonable number of steps
        if steps > 1050:
            ctx.check(res.code == 500 and (res.body or case['verb'] == 'HEAD' or case['stop'] is not None), what)
        ctx.check(rec.closed <= 1, lambda: f'closed {rec.closed} times: {what()}')
        return
    ctx.check(res.code == code, lambda: f'expected {code}: {what()}')
    allowed = wsgi.body_allowed(code, case['verb'])
    cl = res.header('Content-Length')
    if not allowed:
        ctx.check(not res.body, what)
    elif case['stop'] is None:
        ctx.check(res.body == whole, lambda: f'the body differs from the {len(whole)} bytes produced: {what()}')
        ctx.check(cl in (None, str(len(whole))), what)
    else:
        ctx.check(whole.startswith(res.body), what)
    if kind in ('gen', 'iter', 'texts', 'file'):
        ctx.check(rec.closed == 1, lambda: f'close() ran {rec.closed} times: {what()}')
        ctx.tag('closed' if case['stop'] is None else 'closed-early')
    if not case['depth'] and not k:
        for i in range(min(case['headers'], 50)):
            ctx.check(res.all('X-H%d' % i) == [str(j) for j in range(case['headers']) if j % 50 == i], lambda: f'X-H{i}: {what()}')
    if case['lead'] > 500 or case['count'] > 500 or case['before'] > 50 or k > 20:
        ctx.nontrivial()
        ctx.tag('many')


# hook lists edited between and during requests
def gen_hooklife(src):
    names = ['before_request', 'after_request']
    hooks = [dict(name=src.choice(names), style=src.below(4), act=src.pick((5, 'ok'), (2, 'self-remove'), (1, 'remove'), (1, 'add')), arg=src.below(8)) for _ in range(src.count(2, 7, 4))]
    start = src.below(len(hooks)) + 1
    steps = []
    for _ in range(src.count(1, 6, 3)):
        steps.append(src.pick((6, ['req', src.choice(['ok', 'ok', 'exc', 'resp', '404', '405', 'items'])]), (1, ['remove', src.below(8)]), (1, ['add', src.below(8)])))
    steps.append(['req', 'ok'])
    return dict(hooks=hooks, start=start, steps=steps, debug=src.bool(0.1))


def run_hooklife(case, ctx):
    from ombott import Ombott, HTTPResponse
    app = Ombott({'debug': True} if case['debug'] else None)
    log, touched = [], set()
    live = {'before_request': [], 'after_request': []}
    fns = {}

    def add(i):
        h = case['hooks'][i]
        if i in live[h['name']]:
            return
        touched.add(i)
        live[h['name']].append(i)
        f = fns[i]
        if h['style'] == 0:
            app.add_hook(h['name'], f)
        elif h['style'] == 1:
            app.on(h['name'], f)
        else:
            app.on(h['name'])(f)

    def remove(i):
        h = case['hooks'][i]
        if i in live[h['name']]:
            touched.add(i)
            live[h['name']].remove(i)
            app.remove_hook(h['name'], fns[i])

    for i, h in enumerate(case['hooks']):
        def f(i=i, h=h):
            log.append(i)
            if h['act'] == 'self-remove':
                remove(i)
            elif h['act'] == 'remove':
                remove(h['arg'] % len(case['hooks']))
            elif h['act'] == 'add':
                add(h['arg'] % len(case['hooks']))
        fns[i] = f

    def handler(kind):
        log.append('h')
        if kind == 'exc':
            raise ValueError('x')
        if kind == 'resp':
            raise HTTPResponse('r', 202)
        if kind == 'items':
            return iter([b'', b'it'])
        return 'ok'
    app.add_route('/h/<kind>', 'GET', handler)
    app.add_route('/m', 'POST', handler)
    for i in range(case['start']):
        add(i)
    nreq = 0
    for st in case['steps']:
        if st[0] == 'add':
            add(st[1] % len(case['hooks']))
            continue
        if st[0] == 'remove':
            remove(st[1] % len(case['hooks']))
            continue
        del log[:]
        touched.clear()
        before = {k: list(v) for k, v in live.items()}
        res = wsgi.call(app, wsgi.environ('GET', {'404': '/none', '405': '/m'}.get(st[1], '/h/' + st[1])))
        nreq += 1
        want = {'ok': 200, 'items': 200, 'exc': 500, 'resp': 202, '404': 404, '405': 405}[st[1]]
        ctx.check(res.code == want, lambda: f'request {nreq} ({st[1]}): expected {want}, got {res.status} {res.errors[-300:]}')
        steady = {k: [i for i in v if i not in touched] for k, v in before.items()}
        got_b = [i for i in log if i in steady['before_request']]
        got_a = [i for i in log if i in steady['after_request']]
        ctx.check(got_b == steady['before_request'], lambda: f'request {nreq} ({st[1]}): before hooks {got_b}, expected {steady["before_request"]} (edited meanwhile: {sorted(touched)})')
        ctx.check(got_a == steady['after_request'][::-1], lambda: f'request {nreq} ({st[1]}): after hooks {got_a}, expected {steady["after_request"][::-1]} (edited meanwhile: {sorted(touched)})')
        for i in log:
            ctx.check(log.count(i) == 1, lambda: f'request {nreq}: hook {i} ran {log.count(i)} times')
            ctx.check(i == 'h' or i in touched or i in before[case['hooks'][i]['name']], lambda: f'request {nreq}: hook {i} ran although it is not registered')
        b = [k for k, i in enumerate(log) if i != 'h' and case['hooks'][i]['name'] == 'before_request']
        a = [k for k, i in enumerate(log) if i != 'h' and case['hooks'][i]['name'] == 'after_request']
        h = [k for k, i in enumerate(log) if i == 'h']
        ctx.check(len(h) == (st[1] not in ('404', '405')) and b + h + a == list(range(len(log))), lambda: f'request {nreq} ({st[1]}): order {log}')
        if touched:
            ctx.tag('edited-during')
            ctx.nontrivial()
        if len(steady['before_request']) > 1 and len(steady['after_request']) > 1:
            ctx.tag('several')
    if any(s[0] == 'remove' for s in case['steps']):
        ctx.tag('removed-between')
        ctx.nontrivial()


# hooks run before routing: what they do to the request decides the route, what they put on the response stays
REW_PATHS = ['/a', '/b', '/n/7', '/n/x', '/gone', '/a/', '', '/w/é', '/w/a b']


def gen_rewrite(src):
    hooks = []
    for _ in range(src.count(1, 5, 2)):
        k = src.pick((5, 'path'), (2, 'method'), (3, 'look'), (2, 'header'), (1, 'fail'))
        hooks.append([k, src.choice(REW_PATHS) if k == 'path' else src.choice(['GET', 'POST', 'PUT', 'post', 'DELETE']) if k == 'method' else src.choice(['exc', 'err', 'resp']) if k == 'fail' else None, src.bool()])
    return dict(hooks=hooks, path=src.choice(REW_PATHS), method=src.choice(['GET', 'POST', 'PUT']), after=src.below(4), fails=src.bool(0.15))


def run_rewrite(case, ctx):
    from ombott import Ombott, HTTPError, HTTPResponse
    app = Ombott()
    log = []
    for rule, ms in (('/a', ['GET', 'POST']), ('/b', ['POST', 'ANY']), ('/n/<x:int>', ['GET']), ('/w/<t>', ['PUT'])):
        def handler(_r=rule, _ms=None, **kw):
            log.append(('h', _r, app.request.path, app.request.method, kw))
            if case['fails']:
                raise ValueError('x')
            return 'ok'
        app.add_route(rule, ms, handler)
    for i, (k, v, how) in enumerate(case['hooks']):
        def hook(i=i, k=k, v=v, how=how):
            log.append(('b', i, app.request.path, app.request.method))
            if k in ('path', 'method'):
                name = 'PATH_INFO' if k == 'path' else 'REQUEST_METHOD'
                if how:
                    app.request[name] = v
                else:
                    app.request.environ[name] = v
            elif k == 'header':
                app.response.headers['X-H%d' % i] = 'v'
            elif k == 'fail':
                if v == 'exc':
                    raise KeyError('hook')
                if v == 'err':
                    raise HTTPError(418, 'hook')
                raise HTTPResponse('hook', 202)
        app.add_hook('before_request', as_callable(hook, how))
    for i in range(case['after']):
        app.on('after_request', lambda i=i: log.append(('a', i, app.request.path, app.request.method)))
    res = wsgi.call(app, wsgi.environ(case['method'], case['path']))
    path, method, want, failed = case['path'], case['method'], [], None
    norm = lambda p: '/' + p.lstrip('/')          # noqa
    kept = set()
    for i, (k, v, how) in enumerate(case['hooks']):
        want.append(('b', i, norm(path), method.upper()))
        if k == 'path':
            path = v
        elif k == 'method':
            method = v
        elif k == 'header':
            kept.add('x-h%d' % i)
        elif k == 'fail':
            failed = v
            break
    now = (norm(path), method.upper())
    if failed:
        status = {'exc': 500, 'err': 418, 'resp': 202}[failed]
    else:
        p = path.strip('/')
        table = {'a': ('/a', ['GET', 'POST'], {}), 'b': ('/b', ['POST', 'ANY'], {}), 'n/7': ('/n/<x:int>', ['GET'], {'x': 7}), 'w/é': ('/w/<t>', ['PUT'], {'t': 'é'}), 'w/a b': ('/w/<t>', ['PUT'], {'t': 'a b'})}
        hit = table.get(p)
        if hit is None:
            status = 404
        elif now[1] in hit[1] or 'ANY' in hit[1]:
            status = 500 if case['fails'] else 200
            want.append(('h', hit[0]) + now + (hit[2],))
        else:
            status = 405
            ctx.check(res.header('Allow') == ','.join(sorted(hit[1])), lambda: f'Allow {res.get("Allow")!r}')
        if any(h[0] in ('path', 'method') for h in case['hooks']) and now != (norm(case['path']), case['method']):
            ctx.tag('rewritten-%d' % status)
            ctx.nontrivial()
    want += [('a', i) + now for i in reversed(range(case['after']))]
    ctx.check(log == want, lambda: f'{case["method"]} {case["path"]!r} with hooks {case["hooks"]}: calls (kind, which, path, method) {log}, expected {want}')
    ctx.check(res.code == status, lambda: f'{case["method"]} {case["path"]!r} with hooks {case["hooks"]}: {res.status}, expected {status}')
    if status == 200 and kept:
        got = {n.lower() for n, _ in res.headers}
        ctx.check(kept <= got, lambda: f'headers set by before hooks {sorted(kept)}, sent {sorted(got)}')
        ctx.tag('headers-kept')


def legs(tier):
    return [
        Leg('hook-lists', run_hooklife, gen=gen_hooklife, quick=12000, thorough=150000, shards=2, hyp=200, need=('edited-during', 'several', 'removed-between')),
        Leg('hook-rewrites', run_rewrite, gen=gen_rewrite, quick=8000, thorough=100000, shards=2, hyp=200, need=('rewritten-200', 'rewritten-404', 'rewritten-405', 'rewritten-500', 'headers-kept')),
        Leg('outcomes', run, gen=gen, quick=80000, thorough=900000, shards=6, hyp=400, fuzz=30000,
            need=('bodyless', 'content-length', 'closed', 'closed-unsent', 'closed-early', 'items', 'file', 'file-fails', 'subclasses', 'callables', 'resp', 'raise-resp', 'exc', 'err',
                  'critical', 'closed-critical', 'error-page', 'before-fails', 'after-fails', 'json')),
        Leg('scale', run_scale, gen=gen_scale, quick=5000, thorough=60000, shards=2, hyp=30, need=('many', 'beyond', 'closed', 'closed-early', 'file', 'gen', 'texts', 'list', 'str')),
        Leg('simple', run, enum=enum_simple, quick=0, thorough=0, shards=2, tshards=2, need=('bodyless', 'closed')),
    ]
