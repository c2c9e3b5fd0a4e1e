"""A body whose stream (or the place it is spilled to) fails at some point, and an application which goes on.

The handler, its hooks and error pages look at the body again after a failure.  What is left in the stream then is not the
body: every look must raise or show the whole body, never a part of it."""
import tempfile

from . import wsgi
from .app import make_app

LOOKS = ['body', 'body', 'body', 'POST', 'forms', 'files', 'params', 'json', 'input']
PLACES = ['before', 'handler', 'handler', 'handler', 'after', 'error']


class Halt(BaseException):
    """what a timeout of a green thread looks like"""


ERRORS = {'OSError': OSError, 'TimeoutError': TimeoutError, 'ConnectionResetError': ConnectionResetError, 'ValueError': ValueError, 'RuntimeError': RuntimeError, 'Halt': Halt,
          'KeyError': KeyError, 'UnicodeError': UnicodeError}


class Faulty(wsgi.Stream):
    """raises at the listed calls; what was not delivered stays in the stream"""

    def __init__(self, data, plan, faults):
        super().__init__(data, plan)
        self.faults = dict(faults)
        self.count = 0
        self.failed = 0
        self.partly = 0

    def _fail(self):
        k = self.count
        self.count += 1
        if k in self.faults:
            self.failed += 1
            if self.pos:
                self.partly += 1
            raise ERRORS[self.faults[k]]('the client is gone')

    def _take(self, n):
        self._fail()
        return super()._take(n)

    def readline(self, n=-1):
        self._fail()
        return super().readline(n)


def show(x):
    """a parsed view as plain data"""
    if isinstance(x, dict):
        return [(k, show(v)) for k, v in x.items()]
    if isinstance(x, list):
        return [show(v) for v in x]
    if hasattr(x, 'raw_filename'):
        x.file.seek(0)
        return ['upload', x.raw_filename, x.file.read()]
    return x


def whole(case, data, environ):
    """what each look shows when nothing fails; None where it is refused"""
    app = make_app(max_memfile_size=case['memfile'])
    out = {}

    def handler():
        for _, what in case['looks']:
            if what not in ('body', 'input'):
                try:
                    out[what] = show(getattr(app.request, what))
                except Exception as e:
                    out[what] = e
        return 'ok'
    app.route('/', method='ANY')(handler)
    wsgi.call(app, wsgi.environ('POST', '/', stream=wsgi.Stream(data), **environ))
    return out


def gen_faults(src, calls):
    """-> {call number: error}; calls: a guess at how many reads the body takes"""
    out = {}
    for _ in range(src.count(1, 3, 0.7)):
        out[src.pick((2, 0), (3, src.below(max(1, min(calls, 12)))), (3, src.below(max(1, calls))))] = src.choice(sorted(ERRORS))
    return sorted(out.items())


def gen_looks(src):
    looks = [[src.choice(PLACES), src.choice(LOOKS)] for _ in range(src.count(1, 5, 2))]
    if src.bool(0.8):
        looks.append([src.choice(['handler', 'after', 'error']), 'body'])
    return looks


def drive(case, ctx, stream, environ, want, views, bound=None):
    """every look at the body of a request whose reads fail shows `want` (or the view of it in `views`) or raises"""
    app = make_app(max_memfile_size=case['memfile'])
    log = []

    def look(what):
        r = app.request
        try:
            if what == 'input':
                r.body
                got = r.environ['wsgi.input'].read()
            elif what == 'body':
                got = r.body.read()
            else:
                got = show(getattr(r, what))
        except BaseException as e:
            log.append((what, e))
            return
        log.append((what, got))

    def at(place):
        for p, what in case['looks']:
            if p == place:
                look(what)

    def handler():
        at('handler')
        if case['crash']:
            raise LookupError('x')
        return 'ok'

    def page(res):
        at('error')
        return 'page'
    app.add_hook('before_request', lambda: at('before'))
    app.add_hook('after_request', lambda: at('after'))
    app.error(500)(page)
    app.route('/', method='ANY')(handler)
    spool = case.get('spool')
    old = tempfile.tempdir
    env = wsgi.environ('POST', '/', stream=stream, **environ)
    if spool:
        real = look
        left = [spool]

        def look(what):          # noqa: the first looks find no place for a temporary file
            if left[0]:
                left[0] -= 1
                tempfile.tempdir = '/nonexistent/vt'
                try:
                    real(what)
                finally:
                    tempfile.tempdir = old
            else:
                real(what)
    try:
        res = wsgi.call(app, env)
    finally:
        tempfile.tempdir = old
    ctx.check(res.code == (500 if case['crash'] else 200), lambda: f'{res!r} {res.errors[-600:]}')
    story = ' '.join(f'{w}={type(g).__name__ if isinstance(g, BaseException) else len(g) if isinstance(g, bytes) else g}' for w, g in log)
    hurt = any(isinstance(g, BaseException) for _, g in log)
    for what, got in log:
        if isinstance(got, BaseException):
            continue
        if what not in ('body', 'input'):
            ctx.check(got == views.get(what), lambda: f'the reads {dict(case["faults"])} of the stream fail: the looks at the body answer [{story}]; {what} shows {str(got)[:200]}, of the whole body it is {str(views.get(what))[:200]}')
        elif got != want:
            ctx.fail(f'the reads {dict(case["faults"])} of the stream fail{" and no temporary file can be made at first" if spool else ""}: the looks at the body answer [{story}], the body has {"no end" if want is None else f"{len(want)} bytes"}; '
                     f'{what} shows {got[:60]!r}, not {want and want[:60]!r}')
    if bound is not None:
        ctx.check(stream.maxpos_asked <= bound, lambda: f'after a failed read ([{story}]) the stream was asked for bytes up to {stream.maxpos_asked}, the body ends at {bound}')
    if hurt and stream.partly:
        ctx.tag('failed-midway')
        ctx.nontrivial()
    if hurt and stream.failed and not stream.partly:
        ctx.tag('failed-at-once')
    if hurt and spool and not stream.failed:
        ctx.tag('no-spool')
        ctx.nontrivial()
    after = False
    for what, got in log:
        if isinstance(got, BaseException):
            after = True
            if isinstance(got, Halt):
                ctx.tag('halt')
        elif after and isinstance(got, bytes):
            ctx.tag('seen-after')
        if after and what == 'body':
            ctx.tag('again')
