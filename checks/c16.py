"""C16 - static_file never serves a file outside its root."""
import itertools
import os
import shutil
import sys

from vt.core import Leg
from vt import wsgi

RULE = ('a name built from segments (files, directories, siblings which share a prefix with the root, ., .., empty, absolute prefixes) and separators (/, \\, repeated) asked of static_file '
        'with a root spelled absolutely / relatively / with dot segments / with trailing separators / through a symbolic link, over a real tree whose files all have distinct contents and '
        'whose decoys lie beside and above the root; directly and through a route of the default application, as GET / HEAD / range / conditional request. '
        'Oracle: 200/206/304 only if the normalised location is a regular file inside the root, with that file\'s own bytes, else 403/404; every path opened during the call is recorded by an audit hook and lies inside the root; '
        'plain names of existing files inside the root are served. Non-trivial: the normalised location is outside the root, or the name has a dot segment, backslash, repeated or absolute separator.')
ASSUMPTIONS = ['no symbolic links below the root lead out of it (the property speaks of the normalised location)', 'the tree does not change during the call',
               'names with . or .. or other spellings of a file inside the root may be refused; only plain relative names must be served']

FILES = ['top.txt', 'secret.txt', 'up/secret.txt', 'up/a.txt', 'up/www2/secret.txt', 'up/www2/a.txt', 'up/www-x/a.txt', 'up/www.txt', 'up/wwwa.txt', 'up/ww/a.txt', 'up/ww/w', 'up/www2/sub/c.txt',
         'up/WWW/a.txt', 'up/ www/a.txt', 'up/www /a.txt', 'up/sub/c.txt', 'up/\\a.txt', 'up/www\\a.txt', 'up/www\\..\\a.txt',
         'up/www/a.txt', 'up/www/b.html', 'up/www/sub/c.txt', 'up/www/sub/a.txt', 'up/www/sub/deep/d.txt', 'up/www/.hidden', 'up/www/..x', 'up/www/...', 'up/www/a b.txt', 'up/www/x\\y.txt', 'up/www/..\\secret.txt',
         'up/www/noext', 'up/www/www/a.txt', 'up/www/www2/q.txt', 'up/www/sub2/e.txt', 'up/www/é.txt', 'up/www/etc/passwd', 'up/www/up/www/a.txt', 'up/www/a.tar.gz', 'up/www/empty.bin', 'up/www/sub-x/f.txt', 'up/www/%2e%2e', 'up/www/secret2.txt',
         'up/www./a.txt', 'up/www./own.txt', 'up/www../a.txt', 'up/.www/a.txt', 'up/~/a.txt', 'up/%77ww/a.txt', 'up/$HOME/a.txt', 'up/www\\/a.txt', 'up/w?w/a.txt', 'up/é/a.txt', 'up/é/sub/c.txt', 'up/e\u0301/a.txt', 'up/w\nw/a.txt', 'up/-/a.txt',
         'up/www/www./a.txt', 'up/www/.www/sub/c.txt',
         # names which mean something else when they are interpreted (again): variables, escapes, home directories, patterns, stream names
         'up/www/$VT_UP/secret.txt', 'up/www/$VT_F', 'up/www/${VT_F}', 'up/www/%VT_F%', 'up/www/%2e%2e%2fsecret.txt', 'up/www/..%2fsecret.txt', 'up/www/~root', 'up/www/~/x', 'up/www/{}', 'up/www/sec?et.txt', 'up/www/*.txt', 'up/www/[a].txt', 'up/www/a.txt;v=1',
         'up/www/a.txt?x', 'up/www/a.txt#x', 'up/www/a.txt:x', 'up/www/&amp;', 'up/www/a+b.txt', 'up/www/a.txt.gz', 'up/www/-r', 'up/www/file:', 'up/www/%s', 'up/www/{0}']
DIRS = ['up/www/dir', 'up/www/a.d', 'up/www/..d', 'up/wwwdir']

# roots: (cwd, root) with {T} for the tree
ROOTS = [('', '{T}/up/www'), ('', '{T}/up/www/'), ('up', 'www'), ('up', 'www/'), ('up', './www'), ('up/www', ''), ('up/www', '.'), ('up/www', './'), ('', '{T}/up//www//'), ('', '{T}/up/www/../www'), ('up/www2', '../www'),
         ('up/www/sub', '..'), ('', '{T}/up/./www/.'), ('', '{T}/up/www/sub'), ('up', 'www/sub/'), ('up/www/sub/deep', '../'), ('', '{T}/up/www2'), ('', '{T}/up/link'), ('up', 'link/'), ('', '{T}/up/nope'), ('', '{T}/up/www/a.txt'),
         ('', '{T}/up/ww'), ('', '{T}/up/www/dir'), ('', '{T}/up'), ('up', '..'), ('', '//{T}/up/www')]
ODD_ROOTS = ['www.', 'www..', '.www', '~', '%77ww', '$HOME', 'www\\', 'w?w', 'é', 'e\u0301', 'w\nw', '-', ' www', 'www ', 'WWW', 'www-x', 'www2', 'www/www.', 'www/.www', 'www/..d']
ROOTS += [('', '{T}/up/' + r) for r in ODD_ROOTS] + [('up', r) for r in ODD_ROOTS] + [('up', './%s/.' % r) for r in ODD_ROOTS]


_st = {}


def setup(ctx):
    import mimetypes
    mimetypes.init()
    T = os.path.realpath(os.path.join(ctx.scratch, 't'))
    os.environ.update(VT_UP='..', VT_F='../secret.txt')
    os.makedirs(T)
    by_content = {}
    for i, f in enumerate(FILES):
        p = os.path.join(T, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = b'' if f.endswith('empty.bin') else b'file %d ' % i + f.encode() + b'\n'
        with open(p, 'wb') as h:
            h.write(data)
        os.utime(p, (1600000000, 1600000000))
        by_content[data] = p
    for d in DIRS:
        os.makedirs(os.path.join(T, d))
    os.symlink('www', os.path.join(T, 'up/link'))
    _st.update(T=T, contents=by_content, files=set(by_content.values()), log=None)

    def hook(event, args):
        log = _st['log']
        if log is not None and event == 'open':
            log.append((args[0], args[1]))
    sys.addaudithook(hook)

    import ombott
    cell = _st['cell'] = {}

    @ombott.route('/s/<name:path>')
    def h(name):
        cell['name'] = name
        return ombott.static_file(name, cell['root'], **cell['kw'])
    @ombott.route('/t/<name:re((?s:.*))>')
    def h2(name):
        cell['name'] = name
        return ombott.static_file(name, cell['root'], **cell['kw'])
    for way in ('direct', 'wsgi'):           # lazy imports happen here
        serve(dict(way=way, cwd='up', root='www', name='a.txt', kw={}, method='GET', headers={}))


class Out:
    pass


def serve(case):
    import ombott
    T = _st['T']
    root = case['root'].replace('{T}', T)
    name = case['name'].replace('{T}', T)
    kw = case['kw']
    out = Out()
    out.root, out.name = root, name
    old = os.getcwd()
    log = []
    os.chdir(os.path.join(T, case['cwd']))
    try:
        out.real_root = os.path.realpath(root)
        out.lex_root = os.path.abspath(root)
        out.locations = {os.path.abspath(os.path.join(root, name.strip('/\\')))}
        if '\0' not in name:
            out.locations |= {os.path.abspath(os.path.join(root, name))}
        out.escaped = None
        try:
            if case['way'] == 'direct':
                env = wsgi.environ(case['method'], '/x', headers=case['headers'])
                req = ombott.request
                req.__init__(env)
                _st['log'] = log
                r = ombott.static_file(name, root, **kw)
                b = r.body
                data = b''.join(x if isinstance(x, bytes) else x.encode() for x in ([b] if isinstance(b, (str, bytes)) else b))
                close = getattr(b, 'close', None)
                if close:
                    close()
                out.status, out.body = r.status_code, data
            else:
                cell = _st['cell']
                cell.update(root=root, kw=kw, name=None)
                env = wsgi.environ(case['method'], '/' + case['way'] + '/' + name, headers=case['headers'])
                _st['log'] = log
                r = wsgi.call(ombott.app, env)
                _st['log'] = None
                out.status, out.body = r.code, r.body
                if cell['name'] is not None:
                    out.name = name = cell['name']
                    out.locations = {os.path.abspath(os.path.join(root, name.strip('/\\')))}
                    if '\0' not in name:
                        out.locations |= {os.path.abspath(os.path.join(root, name))}
                out.errors = r.errors
        except Exception as e:
            from vt.core import Violation
            if isinstance(e, Violation):
                raise
            out.escaped = e
        finally:
            _st['log'] = None
        out.opened = []
        for p, mode in log:
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if isinstance(p, str):
                out.opened.append(os.path.abspath(p))
    finally:
        os.chdir(old)
    return out


def inside(p, root):
    return p.startswith(root.rstrip('/') + '/')


ODD = ('..', '.', '')


def run(case, ctx):
    o = serve(case)
    T = _st['T']
    what = lambda: f'static_file({o.name!r}, {o.root!r}) as {case["method"]} {case["headers"]} [{case["way"]}, cwd {case["cwd"]!r}]'
    for p in o.opened:
        rp = os.path.realpath(p)
        if p.startswith((sys.prefix, sys.base_prefix)) and not inside(p, T) or p.endswith(('.py', '.pyc')):
            continue                # an import
        ctx.check(inside(rp, o.real_root), lambda: f'{what()} opens {p}, which is not inside the root')
    ctx.check(o.escaped is None, lambda: f'{what()} raises {type(o.escaped).__name__}: {o.escaped}')
    targets = {os.path.realpath(p) for p in o.locations if '\0' not in p}
    ok = {p for p in targets if p in _st['files'] and inside(p, o.real_root)}
    plain = '\\' not in o.name and '\0' not in o.name and not any(s in ODD for s in o.name.split('/'))
    if not plain or not any(inside(p, o.lex_root) for p in o.locations):
        ctx.nontrivial()
    if not any(inside(p, o.lex_root) for p in o.locations):
        ctx.tag('outside')
        if any(p in _st['files'] for p in targets):
            ctx.tag('outside-file')
    if o.status in (403, 404):
        ctx.tag(str(o.status))
        if ok and plain:
            # through a route the name is what the handler received
            ctx.check(False, lambda: f'{what()} answers {o.status} for the file {sorted(ok)}')
        ctx.check(not any(d and d in o.body for d in _st['contents']), lambda: f'{what()} answers {o.status} with contents of a file')
        return
    ctx.check(ok, lambda: f'{what()} answers {o.status}, but its location {sorted(o.locations)} is no file inside the root')
    if o.status == 304 or case['method'] == 'HEAD' or o.status == 416:
        ctx.tag('no-body')
        ctx.check(not any(d and d in o.body for d in _st['contents']), lambda: f'{what()} answers {o.status} with contents of a file')
        ctx.check(o.status in (200, 206, 304, 416), lambda: f'{what()} answers {o.status}')
        return
    if o.status == 206:
        ctx.tag('206')
        ctx.check(any(o.body and o.body in open(p, 'rb').read() for p in ok), lambda: f'{what()} answers 206 with {o.body!r}')
        return
    ctx.check(o.status == 200, lambda: f'{what()} answers {o.status}')
    f = _st['contents'].get(o.body)
    ctx.tag('200' if plain else '200-odd')
    ctx.check(f in ok, lambda: f'{what()} serves {f or repr(o.body)}, not {sorted(ok)}')


# ------------------------------------------------------------- generators
SEGS = ['a.txt', '..', 'sub', 'secret.txt', 'www2', 'www', '.', '', 'c.txt', 'up', 'www-x', 'www.txt', 'wwwa.txt', 'ww', 'w', 'dir', '...', '..x', '.hidden', 'deep', 'd.txt', 'noext', 'x\\y.txt', 'é.txt', 'etc', 'passwd',
        'b.html', 'a b.txt', 'link', 'sub-x', 'f.txt', 'sub2', 'e.txt', 'WWW', ' www', 'www ', '%2e%2e', 't', '~', '$VT_UP', '$VT_F', '${VT_F}', 'q.txt', 'empty.bin', 'top.txt', 'nope', 'a.tar.gz', '2', '-x', '.txt', ' ', '\t']
SEPS = [(10, '/'), (3, '//'), (3, '\\'), (1, '\\\\'), (1, '/\\'), (1, '\\/'), (1, '///'), (1, '')]
PREFIX = [(12, ''), (3, '/'), (2, '//'), (1, '\\'), (1, '/\\/'), (3, '../'), (2, '../www'), (2, '../../'), (2, '{T}/up/www'), (2, '{T}/up/www/'), (1, '/{T}/up/www'), (2, '{T}/up/www2/'), (2, '{T}/up/'), (2, '{T}/'), (1, '/etc/passwd'), (1, 'file://{T}/'),
          (1, '\\..\\'), (1, 'C:\\'), (1, './'), (1, '..\\'), (1, '....//'), (1, '~/')]
SUFFIX = [(12, ''), (2, '/'), (1, '\\'), (1, '//'), (1, '/.'), (1, '/..'), (1, '\0'), (1, '\0.txt'), (1, '/../'), (1, '.'), (1, ' ')]


def gen(src):
    cwd, root = src.choice(ROOTS)
    how = src.pick((6, 'segs'), (3, 'file'), (3, 'rel'))
    if how == 'segs':
        out = src.pick(*PREFIX)
        for i in range(src.count(0, 8, 3)):
            if i:
                out += src.pick(*SEPS)
            out += src.pick((3, '..'), (5, src.choice(SEGS[:12])), (3, src.choice(SEGS)))
        name = out + src.pick(*SUFFIX)
    else:
        # a path to some real file, from some place, with harmless detours
        f = src.choice(FILES)
        if how == 'file' and '/www/' in f:
            parts = f.split('/')[2:]
        else:
            base = src.choice(['up/www', 'up', 'up/www/sub', 'up/www2', ''])
            parts = os.path.relpath(f, base or '.').split('/')
        res = []
        for p in parts:
            if src.bool(0.15):
                res += src.choice([['.'], [''], ['x', '..'], ['sub', '..'], ['', '.', '']])
            res.append(p)
        sep = src.pick((8, '/'), (1, '//'), (1, '\\'))
        name = src.pick((6, ''), (2, '/'), (1, '//'), (1, '\\'), (1, '{T}/up/www/')) + sep.join(res) + src.pick((8, ''), (1, '/'), (1, '\\'))
    if src.bool(0.08):                     # characters in another writing
        table = src.choice([{'.': '%2e'}, {'/': '%2f'}, {'.': '%2E', '/': '%2F'}, {'\\': '%5c'}, {'/': '%5C'}, {'.': '．'}, {'/': '／'}, {'.': '．', '/': '／'}, {'.': '%252e'}, {'/': '\u2215'}, {'/': '|'}, {'.': '.\u200b'}, {'s': 'ſ'}, {'w': 'W'}, {'a': 'a\u0301'}])
        some = src.bool()
        name = ''.join(table.get(c, c) if not some or src.bool() else c for c in name)
    if src.bool(0.02):
        name = src.choice(['a' * 300 + '/', 'x/' * 600, './' * 2500, 'x/../' * 900, '../' * 100]) + name
    kw = {}
    if src.bool(0.2):
        kw['download'] = src.choice([True, 'x.txt', '../y'])
    if src.bool(0.15):
        kw['mimetype'] = src.choice(['text/plain', None, 'image/png'])
    if src.bool(0.05):
        kw['charset'] = src.choice(['latin1', '', None])
    headers = {}
    if src.bool(0.2):
        headers['If-Modified-Since'] = src.choice(['Sun, 13 Sep 2037 12:26:40 GMT', 'Sun, 13 Sep 2020 12:26:40 GMT', 'Sun, 13 Sep 2009 12:26:40 GMT', 'junk'])
    if src.bool(0.2):
        headers['Range'] = src.choice(['bytes=0-5', 'bytes=-4', 'bytes=2-', 'bytes=9999-', 'junk'])
    return dict(way=src.pick((5, 'direct'), (1, 's'), (1, 't')), cwd=cwd, root=root, name=name, kw=kw, method=src.pick((4, 'GET'), (1, 'HEAD')), headers=headers)


SMALL = ['a.txt', 'sub', '..', '.', '', 'www', 'www2', 'secret.txt', 'wwwa.txt', 'up']


def enum_small(tier):
    n = 4 if tier == 'quick' else 5
    roots = [('', '{T}/up/www'), ('up', 'www/'), ('up/www', ''), ('', '{T}/up/www/sub'), ('', '{T}/up/ww')]
    for cwd, root in roots:
        for k in range(n + 1):
            for segs in itertools.product(SMALL, repeat=k):
                yield dict(way='direct', cwd=cwd, root=root, name='/'.join(segs), kw={}, method='GET', headers={})


def enum_files(tier):
    # every file by its plain name, from every root above it
    for cwd, root in ROOTS:
        r = os.path.normpath(os.path.join('{T}', cwd, root) if not root.startswith(('{T}', '//')) else root.replace('//{T}', '{T}'))
        r = r.replace('{T}/up/link', '{T}/up/www')
        for f in FILES:
            p = '{T}/' + f
            if p.startswith(r + '/'):
                for way, method, headers in (('direct', 'GET', {}), ('t', 'GET', {}), ('direct', 'HEAD', {}), ('direct', 'GET', {'Range': 'bytes=1-3'})):
                    yield dict(way=way, cwd=cwd, root=root, name=p[len(r) + 1:], kw={}, method=method, headers=headers)


# ---- permission: as an unprivileged user an unreadable file is refused, not an error
def run_perm(case, ctx):
    from vt import fork
    T = _st['T']

    def child():
        f = os.path.join(T, 'up/www/a.txt')
        os.chmod(f, case['mode'])
        d = T
        while d not in ('/', '/tmp'):
            if os.stat(d).st_uid == os.getuid():
                os.chmod(d, os.stat(d).st_mode | 0o055)
            d = os.path.dirname(d)
        os.chdir('/')
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        o = Out()
        c = dict(way=case['way'], cwd='', root='{T}/up/www', name='a.txt', kw={}, method=case['method'], headers=case['headers'])
        r = serve(c)
        return r.status if r.escaped is None else repr(r.escaped), r.body if r.escaped is None else b''
    try:
        status, body = fork.isolated(child)
    finally:
        os.chmod(os.path.join(T, 'up/www/a.txt'), 0o644)
    ctx.nontrivial()
    ctx.tag('unreadable')
    if case['mode'] & 4:
        ctx.check(status in (200, 206, 304), lambda: f'a readable file is answered with {status}')
    else:
        ctx.check(status in (403, 404), lambda: f'an unreadable file is answered with {status}')


def enum_perm(tier):
    if os.getuid() != 0:
        return
    for mode in (0o600, 0o000, 0o644, 0o200):
        for way in ('direct', 's'):
            for method in ('GET', 'HEAD'):
                for headers in ({}, {'Range': 'bytes=0-1'}):
                    yield dict(mode=mode, way=way, method=method, headers=headers)


def legs(tier):
    return [
        Leg('small-scope', run, enum=enum_small, quick=0, thorough=0, shards=3, tshards=8, need=('outside-file', '200', '200-odd', '404', '403')),
        Leg('names', run, gen=gen, quick=150000, thorough=3000000, shards=4, hyp=300, need=('outside', 'outside-file', '200', '200-odd', '206', 'no-body', '403', '404')),
        Leg('files', run, enum=enum_files, quick=0, thorough=0, shards=1, tshards=1, need=('200', '206', 'no-body')),
        Leg('permissions', run_perm, enum=enum_perm, quick=0, thorough=0, shards=1, tshards=1),
    ]
