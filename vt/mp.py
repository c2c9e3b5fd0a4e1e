"""multipart/form-data encoder used as the independent side of C06, C07, C12, C13"""
BCHARS_COMMON = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
BCHARS = BCHARS_COMMON + "'()+_,-./:=?"
UNQUOTED_OK = BCHARS_COMMON + "'+_-."


def gen_boundary(src):
    k = src.below(8)
    if k == 0:
        return 'x'
    if k == 1:
        return src.choice(['-', '--', '---', '-a', 'a-', '-----------------------------9051914041544843365972754266', '----WebKitFormBoundary7MA4YWxk',
                           '0' * 70, '=_?:', "a b", "a  b", "x'y", '(a)', 'a,b', 'a/b', 'A' * 35, '-' * 70])
    n = src.count(1, 70 if k == 2 else 12, 3)
    s = ''.join(src.choice(src.choice(['ab-', BCHARS])) for _ in range(n))
    if k == 3 and n > 2:
        i = src.int(1, n - 1)
        s = s[:i] + ' ' + s[i:]
        s = s[:70].rstrip(' ') or 'x'
    return s


def delimiter_safe(data, boundary):
    tok = b'\r\n--' + boundary.encode()
    # the first occurrence of the delimiter in the part must be the one that ends it
    return (b'\r\n' + data + tok).find(tok) == len(data) + 2


def gen_data(src, boundary, hi=40, mean=6):
    b = boundary.encode()
    tok = b'\r\n--' + b
    pieces = [b'a', b'\r', b'\n', b'-', b'\r\n', b'--', b'\r\n--', b'\r\n\r\n', b'\n\r', b, b'--' + b, b'\x00', b'\xff', b'\n--' + b,
              b'\r--' + b, tok[:-1], tok[:-1] + b'~', b'\r\n-' + b, tok[:max(1, len(tok) // 2)], tok[1:], b'\r\n--' + b[:-1] + b'\r\n', b'zz']
    n = src.count(0, hi, mean)
    out = []
    for _ in range(n):
        if src.bool(0.12):
            i = src.below(len(tok))
            out.append(tok[:i])
        else:
            out.append(src.choice(pieces))
    data = b''.join(out)
    while not delimiter_safe(data, boundary):
        # take the offending text apart, from the first occurrence on
        tokpos = (b'\r\n' + data + tok).find(tok) - 2
        i = max(0, tokpos + 1)
        data = data[:i] + data[i + 1:] if i < len(data) else data[:-1]
    return data


def content_type(boundary, quoted):
    if quoted or any(c not in UNQUOTED_OK for c in boundary):
        return 'multipart/form-data; boundary="%s"' % boundary
    return 'multipart/form-data; boundary=' + boundary


class Body:
    """body bytes and the ranges an independent reader must find"""
    def __init__(self, boundary, parts, lead=b'', tail=b'\r\n'):
        # parts: [(header block bytes without the blank line, data)]
        b = b'--' + boundary.encode()
        out = bytearray(lead)
        self.ranges = []
        self.delims = []
        for i, (head, data) in enumerate(parts):
            if i:
                out += b'\r\n'
            self.delims.append(len(out))
            out += b + b'\r\n'
            h0 = len(out)
            out += head
            h1 = len(out)
            out += b'\r\n\r\n'
            d0 = len(out)
            out += data
            d1 = len(out)
            self.ranges.append((h0, h1, d0, d1, d1 + 2 + len(b)))   # the last: end of the delimiter which terminates the data
        if parts:
            out += b'\r\n'
        self.delims.append(len(out))
        out += b
        self.close = len(out)
        out += b'--'
        self.closed = len(out)
        out += tail
        self.raw = bytes(out)
