"""C07 - multipart forms and uploads round-trip exactly."""
import io
import os
import re
import tempfile

from vt.core import Leg
from vt.app import make_app, pattern
from vt import wsgi, mp

RULE = ('case = list of text fields and uploads (hostile names and file names, repeated names mixing texts and uploads, UTF-8 text, binary '
        'data with CR, LF, dashes, partial delimiters) x boundary (quoted or not) x header spelling x Content-Length or chunked framing '
        'with short reads x in-memory threshold (bodies in memory and spilled). Encoded by the independent encoder vt/mp.py, posted through WSGI and read in '
        'the handler through forms / files / POST / params in varying order; must give exactly the fields sent. Non-trivial: two or more '
        'fields, or a hostile name, or data containing CR/LF/dash.')
ASSUMPTIONS = [
    'names and file names contain no double quote and no line break (CR, LF); they are sent raw inside double quotes, as browsers do',
    'the data does not contain the delimiter (a legal encoding cannot)',
    'an upload is a part with a filename parameter, also when that is empty; its content type is the Content-Type text of the part',
]

NAMES = ['a', 'b', 'a', '', ' ', 'a b', ' a ', 'a;b', 'a=b', 'x; filename=y', 'é', '日本', '\\', 'a\\b', "a'b", 'a\\', 'name', 'filename', 'a,b', ';', '=', 'a: b',
         'Content-Type: x', '\u2028', '\x85', '\x0b', '\x1c', 'a\tb', '%22', '%0D%0A', '\x00', 'a' * 200, '&', '<x>', '__class__', 'self', 'get', ';name=q',
         '=x', 'a;', "*", 'UTF-8\'\'x', '\ufeff', 'ﬀ', '😀', '--', 'a=b;c=d;', '\x7f', '+', 'a%20b']
TEXTS = ['', 'v', 'é', '日本', ' ', '\r\n', '\n', '\r', 'a\r\nb', '--', '-', '\x00', '"', '\u2028', 'a=b&c', 'x' * 300, '\r\n\r\n', '\ufeffx', '😀', '\r\n--', 'a;b']
FILENAMES = ['f.txt', 'f', '', ' ', 'a;b.txt', 'a=b', 'é.png', '日本.txt', 'C:\\dir\\f.txt', '..', '../../etc/passwd', '/', "a'b", 'x; name=evil', '\\', 'a\\', 'n\x00l',
             '\u2028.txt', '.', ' f ', '.hidden', 'a' * 300, '😀', '%2e%2e', ';', '=']
CTYPES = [None, 'text/plain', 'application/octet-stream', 'text/plain; charset=utf-8', 'image/png', 'multipart/mixed; boundary=zz', 'X/y;q="a;b"', 'a/b; c="d"', 'TEXT/Plain']


def gen_name(src, table):
    if src.bool(0.25):
        return ''.join(src.choice('ab;= \\\'é-:,') for _ in range(src.count(0, 8, 3)))
    return src.choice(table)


def gen(src):
    boundary = mp.gen_boundary(src)
    names = [gen_name(src, NAMES) for _ in range(src.count(1, 4, 2))]
    fields = []
    for _ in range(src.count(0, 8, 3)):
        name = src.choice(names)
        isfile = src.bool(0.5)
        style = dict(case=src.below(4), ws=src.below(4), order=src.bool(0.2), extra=src.bool(0.2), quote=not src.bool(0.1), ctfirst=src.bool(0.2))
        if isfile:
            k = src.below(40)
            data = mp.gen_data(src, boundary, 40, 7) if k else pattern(src.below(9), src.choice([1000, 5000, 70000, 110000]))
            if not mp.delimiter_safe(data, boundary):
                data = b'd'
            fields.append(dict(name=name, filename=gen_name(src, FILENAMES), ctype=src.choice(CTYPES), data=data, **style))
        else:
            t = src.choice(TEXTS) if src.bool(0.6) else ''.join(src.choice('ab\r\n-é&') for _ in range(src.count(0, 10, 3))) + src.choice(['', '\r\n--' + boundary[:-1], boundary])
            if not mp.delimiter_safe(t.encode(), boundary):
                t = 'safe'
            fields.append(dict(name=name, filename=None, ctype=src.pick((6, None), (1, 'text/plain'), (1, 'text/plain; charset=utf-8')), data=t.encode(), **style))
    return dict(boundary=boundary, fields=fields, lead=src.pick((9, b''), (1, b'\r\n')), tail=src.choice([b'\r\n', b'', b'\r\nepilogue']),
                quoted=src.bool(0.4), ctstyle=src.below(8), chunked=src.bool(0.3), plan=src.pick((3, []), (1, [1]), (3, [1 + src.size(60), 1 + src.size(60)]), (2, [1 + src.size(3000)])),
                mem=src.pick((3, 'exact'), (2, 'plus'), (3, 'default')), order=src.below(5), te=wsgi.gen_te(src), save=src.pick((20, 0), (1, 1), (1, 2)))


def gen_scale(src):
    """many parts, long names, long texts, long boundaries"""
    case = gen(src)
    kind = src.pick((4, 'many'), (2, 'text'), (2, 'name'), (1, 'file'), (2, 'repeat'))
    plain = dict(case=0, ws=0, order=False, extra=False, quote=True, ctfirst=False)
    n = src.pick((2, src.int(30, 300)), (3, src.int(250, 270)), (2, src.int(995, 1030)), (1, src.int(1300, 3000)))

    def text(i, size=0):
        return dict(name='f%d' % i, filename=None, ctype=None, data=pattern(i % 7, size) if size and src.bool(0.3) else b't%d' % i + b'x' * size, **plain)

    def upload(i, size=0):
        return dict(name='u%d' % i, filename='n%d' % i, ctype=None, data=b'u%d' % i + pattern(i % 7, size), **plain)
    if kind == 'many':
        files = src.pick((3, 0), (2, 3), (1, 1))
        new = [upload(i) if files and i % files == files - 1 else text(i) for i in range(n)]
    elif kind == 'repeat':
        up = src.bool()
        new = [dict(upload(i) if up else text(i), name='r%d' % (i % 3)) for i in range(n)]
    elif kind == 'text':
        size = src.pick((2, 65536), (2, 8192), (1, 100 * 1024), (1, 262144)) + src.pick((2, 0), (1, -1), (1, 1), (1, 37))
        new = [dict(text(0), data=src.pick((2, b'x' * size), (2, ('é' * size).encode()), (1, b'x' * size + 'é'.encode()), (1, b'x' * (size - 9) + 'я\r\n--я'.encode() + b'x' * 9), (1, 'é'.encode() + b'x' * size))), text(1)]
    elif kind == 'name':
        size = src.pick((2, 255), (2, 1000), (2, 8190), (1, 65536)) + src.below(4)
        unit, end = src.pick((3, ('é;', 'x')), (1, ('ab', 'é')), (1, ('ab', ' =;')), (1, ('a ', '\\')))
        new = [dict(text(0), name=unit * (size // 2) + end), dict(upload(1), filename=src.pick((2, 'a='), (1, 'ab')) * (size // 2) + src.pick((2, '.txt'), (1, 'é;"'[:2]), (1, "'; x='"))), text(2)]
    else:
        new = [upload(i, src.choice([65535, 65536, 131072, 1 << 20])) for i in range(2)] + [text(2)]
    new = [f for f in new if mp.delimiter_safe(f['data'], case['boundary'])]
    case.update(fields=case['fields'][:2] + new, chunked=src.bool(0.2), plan=src.pick((3, []), (1, [1 + src.size(3000)])), mem=src.pick((3, 'exact'), (2, 'plus')))
    return case


CD = ['Content-Disposition', 'content-disposition', 'CONTENT-DISPOSITION', 'Content-disposition']
CT = ['Content-Type', 'content-type', 'CONTENT-TYPE', 'Content-type']


def token_like(s):
    return re.fullmatch(r"[A-Za-z0-9_.\-]+", s) is not None


def head(f):
    q = (lambda s: '"%s"' % s) if f['quote'] else (lambda s: s if token_like(s) else '"%s"' % s)
    eq, semi = [('=', '; '), ('=', ';'), ('=', ' ; '), ('=', ';  ')][f['ws']]
    ps = [('Name' if f['case'] == 3 else 'name') + eq + q(f['name'])]
    if f['filename'] is not None:
        ps.append('filename' + eq + q(f['filename']))
    if f['order']:
        ps.reverse()
    lines = [CD[f['case']] + [': ', ':', ':  ', ': '][f['ws']] + semi.join(['form-data'] + ps)]
    if f['ctype'] is not None:
        lines.append(CT[f['case']] + ': ' + f['ctype'])
    if f['extra']:
        lines.append('X-Extra: name="zz"; filename="yy"')
    if f['ctfirst']:
        lines.reverse()
    return '\r\n'.join(lines).encode()


def content_type(case):
    s = case['ctstyle']
    base = mp.content_type(case['boundary'], case['quoted'])
    mt, _, b = base.partition('; ')
    val = b[len('boundary='):]
    return ['%s; boundary=%s', '%s;boundary=%s', '%s; boundary=%s; charset=utf-8', '%s; charset=utf-8; boundary=%s', '%s; Boundary=%s', '%s;  boundary=%s ',
            'Multipart/Form-Data; boundary=%.0s%s' if False else '%s; boundary=%s;x=y', '%s; BOUNDARY=%s'][s] % (mt if s != 4 else 'Multipart/Form-Data', val)


def run(case, ctx):
    fields = case['fields']
    heads = [head(f) for f in fields]
    body = mp.Body(case['boundary'], [(h, f['data']) for h, f in zip(heads, fields)], case['lead'], case['tail'])
    raw = body.raw
    budget = sum(len(h) + (0 if f['filename'] is not None else len(f['data'])) for h, f in zip(heads, fields))
    memfile = dict(exact=max(budget, 16), plus=budget + 1 + 16, default=102400)[case['mem']]
    app = make_app(max_memfile_size=memfile)
    seen = {}

    def plain(v):
        if isinstance(v, list):
            return [plain(x) for x in v]
        if isinstance(v, str):
            return v
        return ('file', v.raw_filename, v.content_type, v.file.read(), v.name)

    def readall(d):
        return {k: plain(v) for k, v in d.items()}

    def rewind(d):
        for v in d.values():
            for x in v if isinstance(v, list) else [v]:
                if not isinstance(x, str):
                    x.file.seek(0)

    @app.route('/', method='ANY')
    def h():
        r = app.request
        o = case['order']
        if o == 0:
            seen['forms'], seen['files'] = readall(r.forms), readall(r.files)
        elif o == 1:
            seen['files'], seen['forms'] = readall(r.files), readall(r.forms)
            rewind(r.files)
            seen['saved'] = []
            for v in r.files.values():
                for x in v if isinstance(v, list) else [v]:
                    out = io.BytesIO()
                    x.save(out, chunk_size=7 if len(raw) < 3000 else 9000)
                    seen['saved'].append(out.getvalue())
                    seen.setdefault('names', []).append((x.raw_filename, x.filename, x.content_type, x.get_header('Content-Type', ''), x.get_header('X-Extra')))
            if case.get('save'):
                with tempfile.TemporaryDirectory(prefix='vt-c07-') as tmp:
                    for i, x in enumerate(x for v in r.files.values() for x in (v if isinstance(v, list) else [v])):
                        if case['save'] == 2:
                            os.mkdir(f'{tmp}/{i}')
                        x.file.seek(0)
                        x.save(f'{tmp}/{i}')
                        with open(f'{tmp}/{i}' if case['save'] == 1 else f'{tmp}/{i}/{x.filename}', 'rb') as f:
                            seen.setdefault('stored', []).append((x.name, x.raw_filename, f.read()))
            seen['saved'].sort()
        elif o == 2:
            r.body.read(5)
            seen['post'] = readall(r.POST)
            rewind(r.files)
            seen['forms'], seen['files'] = readall(r.forms), readall(r.files)
        elif o == 3:
            # interleaved reads of several uploads in small pieces
            ups = [x for v in r.files.values() for x in (v if isinstance(v, list) else [v])]
            parts = [[] for _ in ups]
            step = 3 if sum(len(f['data']) for f in fields) < 3000 else 4000
            todo = True
            while todo:
                todo = False
                for u, p in zip(ups, parts):
                    c = u.file.read(step)
                    if c:
                        p.append(c)
                        todo = True
            rewind(r.files)
            seen['forms'], seen['files'] = dict(r.forms), readall(r.files)
            seen['pieces'] = sorted(b''.join(p) for p in parts)
        else:
            seen['body'] = r.body.read()
            seen['forms'], seen['files'] = readall(r.forms), readall(r.files)
            rewind(r.files)
            seen['params'] = dict(r.params)
        return 'ok'

    if case['chunked']:
        sizes = case['plan'] or [37]
        data, p, i = [], 0, 0
        while p < len(raw):
            c = raw[p:p + max(sizes[i % len(sizes)], len(raw) // 300)]
            data.append(b'%x\r\n%b\r\n' % (len(c), c))
            p += len(c)
            i += 1
        st = wsgi.Stream(b''.join(data) + b'0\r\n\r\n', case['plan'] if len(raw) < 5000 else [])
    else:
        st = wsgi.Stream(raw, [max(x, len(raw) // 300) for x in case['plan']])
    env = wsgi.environ(wsgi.verb(raw), '/', stream=st, ctype=content_type(case), chunked=case['chunked'], clen=None if case['chunked'] else len(raw), te=case.get('te'))
    res = wsgi.call(app, env)
    d = lambda: f'{content_type(case)!r} {raw[:700]!r}'    # noqa
    ctx.check(res.code == 200, lambda: f'answered {res!r} {res.errors[-500:]} for {d()}')
    # expected
    def collect(sel):   # noqa
        out = {}
        for f in fields:
            v = sel(f)
            if v is not None:
                out.setdefault(f['name'], []).append(v)
        return {k: v[0] if len(v) == 1 else v for k, v in out.items()}

    def text(f):
        return None if f['filename'] is not None else f['data'].decode()

    def upload(f):
        return None if f['filename'] is None else ('file', f['filename'], f['ctype'] if f['ctype'] is not None else '', f['data'], f['name'])
    forms, files, post = collect(text), collect(upload), collect(lambda f: text(f) if f['filename'] is None else upload(f))
    for what, got, want in (('forms', seen['forms'], forms), ('files', seen['files'], files), ('POST', seen.get('post', post), post)):
        if got != want:
            ctx.fail(f'{what} is {str(got)[:500]}, sent {str(want)[:500]}; {d()}')
    if 'params' in seen:
        ctx.eq(seen['params'], forms, 'params')
    if 'saved' in seen:
        ctx.check(seen['saved'] == sorted(f['data'] for f in fields if f['filename'] is not None), lambda: f'save() does not copy the upload: {d()}')
    if 'names' in seen:
        for name, safe, ctype, again, _ in seen['names']:
            plain_name = re.fullmatch(r'[A-Za-z0-9_]+(?:[-.][A-Za-z0-9_]+)*', name) and len(name) < 256
            ctx.check(safe == name if plain_name else '/' not in safe and safe not in ('', '.', '..'), lambda: f'filename of {name!r} is {safe!r}')
            ctx.check(ctype == again, lambda: f'content type {ctype!r}, as header {again!r}')
    if 'stored' in seen:
        ctx.check(sorted(seen['stored']) == sorted((f['name'], f['filename'], f['data']) for f in fields if f['filename'] is not None), lambda: f'save() does not store the upload: {d()}')
        ctx.tag('stored')
    if 'pieces' in seen:
        ctx.check(seen['pieces'] == sorted(f['data'] for f in fields if f['filename'] is not None), lambda: f'reading uploads alternately in pieces mixes them: {d()}')
    if 'body' in seen:
        ctx.check(seen['body'] == raw, 'raw body')
    ctx.tag('chunked' if case['chunked'] else 'clen')
    if len(raw) > memfile:
        ctx.tag('spilled')
    else:
        ctx.tag('in-memory')
    hostile = [f for f in fields if not token_like(f['name']) or f['filename'] is not None and not token_like(f['filename'])]
    if hostile:
        ctx.tag('hostile-name')
    rep = [n for n in forms if isinstance(post[n], list)] + [n for n in files if isinstance(post[n], list)]
    if rep:
        ctx.tag('repeated')
    if set(forms) & set(files):
        ctx.tag('text-and-file-same-name')
    if any(f['filename'] == '' for f in fields):
        ctx.tag('empty-filename')
    if any(f['data'] == b'' for f in fields):
        ctx.tag('empty-data')
    if len(fields) > 1 or hostile or any(c in f['data'] for f in fields for c in (b'\r', b'\n', b'-')):
        ctx.nontrivial()


def legs(tier):
    return [
        Leg('round-trip', run, gen=gen, quick=75000, thorough=700000, shards=7, hyp=300, fuzz=20000,
            need=('chunked', 'clen', 'spilled', 'in-memory', 'hostile-name', 'repeated', 'text-and-file-same-name', 'empty-filename', 'empty-data', 'stored')),
        Leg('scale', run, gen=gen_scale, quick=350, thorough=8000, shards=4, hyp=0, cpu=60.0, need=('chunked', 'clen', 'repeated', 'spilled')),
    ]
