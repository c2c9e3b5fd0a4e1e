#!/usr/bin/env python3
"""mutate.py FILE... [--n N] [--seed S] [--out LOG] [--soft SECONDS] [--rare]

Small changes to scratch copies of the package, one at a time; those which the repository's own
tests let pass are run against the checks, the most likely ones first, up to the first violation.
Changes which survive everything are listed in LOG, to be read.
--rare: each change shows only while a local variable of the function is unusual (long, not ASCII, a
larger number ...); taken are those whose unconditional form fails the repository's tests."""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'router/': 'C01 C02 C11 C19 C03 C09',
    'request_pkg/body_mixin': 'C04 C05 C13 C12 C06 C07 C18 C03 C09 C10 C08',
    'request_pkg/multipart': 'C06 C07 C12 C13 C09 C08',
    'request_pkg/helpers': 'C07 C12 C06 C13 C09 C18 C10 C14 C08',
    'request_pkg/props_mixin': 'C10 C15 C18 C17 C20 C09 C12 C16 C03 C08',
    'request_pkg/request': 'C10 C09 C12 C03 C13 C20 C08',
    'common_helpers': 'C14 C18 C07 C15 C09 C10 C03 C02 C16 C08',
    'response': 'C14 C15 C03 C09 C17 C08',
    'static_stream': 'C16 C17 C03',
    'error_render': 'C20 C03 C09',
    'mixable': 'C10 C09 C03 C08',
    'ombott.py': 'C03 C02 C11 C20 C12 C10 C01 C09 C15 C08',
}
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Mod: '*', ast.FloorDiv: '*'}


GATES = {
    'len>24': 'isinstance(v, (str, bytes, list)) and len(v) > 24',
    'len>150': 'isinstance(v, (str, bytes, list)) and len(v) > 150',
    'not ascii': 'isinstance(v, str) and not v.isascii()',
    'high byte': 'isinstance(v, bytes) and not v.isascii()',
    'int>15': 'type(v) is int and v > 15',
    'int%8==7': 'type(v) is int and v % 8 == 7',
    'list>2': 'type(v) in (list, tuple) and len(v) > 2',
    'punctuation': "type(v) is str and any(c in v for c in '+;=&~')",
    'blank': "type(v) in (str, bytes) and (' ' if type(v) is str else b' ') in v",
    'upper': "type(v) is str and v.isupper() and len(v) > 1",
    'empty': "v == '' or v == b'' or v == []",
}
HELPER = """
import sys as _vt_sys


def _vt_rare():
    for v in list(_vt_sys._getframe(1).f_locals.values()):
        if %s:
            open(__file__ + '.hit', 'a').close()
            return True
    return False
"""
FIT = {'request_pkg/body_mixin': ['len>24', 'len>150', 'high byte', 'int>15', 'int%8==7', 'empty', 'blank'], 'request_pkg/multipart': ['len>24', 'len>150', 'high byte', 'int>15', 'int%8==7', 'list>2', 'empty', 'blank'],
       'router/': ['len>24', 'not ascii', 'int>15', 'int%8==7', 'list>2', 'punctuation', 'upper', 'empty', 'blank']}


def rare(text, seed, gates):
    """-> (line, what, gated text, plain text)"""
    rnd = random.Random(seed)
    tree = ast.parse(text)
    inside = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for st in n.body:
                inside.update(range(st.lineno, st.end_lineno + 1))
    old = text.split('\n')
    out = []
    for ln, what, new in mutants(text):
        if ln not in inside:
            continue
        rows = new.split('\n')
        if len(rows) != len(old):
            continue
        diff = [k for k in range(len(old)) if old[k] != rows[k]]
        if len(diff) != 1:
            continue
        k = diff[0]
        st = [n for n in ast.walk(tree) if isinstance(n, ast.stmt) and n.lineno == k + 1]
        if not st:
            continue
        st = st[0]
        gate = rnd.choice(gates)
        ind = old[k][:len(old[k]) - len(old[k].lstrip())]
        if isinstance(st, (ast.If, ast.While)):
            if st.test.lineno != k + 1 or st.test.end_lineno != k + 1 or not old[k].rstrip().endswith(':'):
                continue
            m = len(ind) + (6 if isinstance(st, ast.While) else 3)
            if old[k][len(ind):].startswith('elif '):
                m += 2
            a, b = old[k].rstrip()[m:-1], rows[k].rstrip()[m:-1]
            line = [f'{old[k][:m]}(({b}) if _vt_rare() else ({a})):']
        elif isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Delete, ast.Raise, ast.Break, ast.Continue)) and st.end_lineno == k + 1:
            line = [f'{ind}if _vt_rare():', ind + '    ' + rows[k].strip(), f'{ind}else:', ind + '    ' + old[k].strip()]
        else:
            continue
        t = '\n'.join(old[:k] + line + old[k + 1:]) + HELPER % GATES[gate]
        try:
            compile(t, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        out.append((ln, f'[{gate}] {what}', t, new))
    return out


def mutants(text):
    tree = ast.parse(text)
    lines = text.encode().split(b'\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln) + 1)
    raw = text.encode()
    at = lambda ln, col: offs[ln - 1] + col          # noqa
    seg = lambda n: raw[at(n.lineno, n.col_offset):at(n.end_lineno, n.end_col_offset)].decode()   # noqa
    out = []

    def put(n, new, what):
        a, b = at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                doc.add(m)
    for n in ast.walk(tree):
        if n in doc and not isinstance(n, ast.JoinedStr):
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                left = n.left if i == 0 else n.comparators[i - 1]
                a, b = at(left.end_lineno, left.end_col_offset), at(n.comparators[i].lineno, n.comparators[i].col_offset)
                if type(op) in SWAP and b'(' not in raw[a:b]:
                    out.append((n.lineno, f'{seg(n)}: {SWAP[type(op)]}', (raw[:a] + b' ' + SWAP[type(op)].encode() + b' ' + raw[b:]).decode()))
        elif isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rest = [seg(x) for j, x in enumerate(n.values) if j != i]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', f'{seg(n)}: without {seg(v)}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(' + seg(n.operand) + ')', f'{seg(n)}: no not')
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH and not isinstance(n.left, ast.Constant):
            put(n, f'{seg(n.left)} {ARITH[type(n.op)]} {seg(n.right)}', f'{seg(n)}: operator')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), f'{n.value}')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), f'{n.value} + 1')
                if n.value:
                    put(n, str(n.value - 1), f'{n.value} - 1')
            elif isinstance(n.value, str) and n.value:
                put(n, repr(n.value + 'X'), f'{n.value!r} + X')
            elif isinstance(n.value, bytes) and n.value:
                put(n, repr(n.value[:-1]), f'{n.value!r} cut')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'title') and not n.keywords:
                put(n, seg(f.value), f'{seg(n)}: no {f.attr}')
            if isinstance(f, ast.Name) and f.id in ('dict', 'list', 'set', 'tuple', 'str', 'int') and len(n.args) == 1 and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)) and not n.keywords:
                put(n, '(' + seg(n.args[0]) + ')', f'{seg(n)}: no {f.id}')
            if isinstance(f, ast.Attribute) and f.attr == 'get' and len(n.args) == 2:
                put(n.args[1], 'None', f'{seg(n)}: default')
            if n.keywords and n.keywords[-1].arg and len(n.keywords) + len(n.args) > 1:
                k = n.keywords[-1]
                a, b = at(k.lineno, k.col_offset), at(k.value.end_lineno, k.value.end_col_offset)
                out.append((n.lineno, f'{seg(n)[:80]}: without {k.arg}', (raw[:a] + raw[b:]).decode()))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            s = n.slice
            if s.lower:
                put(n, f'{seg(n.value)}[{seg(s.lower)} + 1:{seg(s.upper) if s.upper else ""}]', f'{seg(n)}: lower + 1')
            if s.upper:
                put(n, f'{seg(n.value)}[{seg(s.lower) if s.lower else ""}:{seg(s.upper)} - 1]', f'{seg(n)}: upper - 1')
            if not s.lower and not s.upper:
                put(n, seg(n.value), f'{seg(n)}: no copy')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, f'not ({seg(n.test)})', f'if {seg(n.test)}: negated')
            if isinstance(n, ast.If) and isinstance(n.test, (ast.Name, ast.Attribute, ast.Call, ast.Compare)):
                put(n.test, 'True', f'if {seg(n.test)}: True')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', seg(n))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not isinstance(getattr(n, 'value', None), (ast.Yield, ast.YieldFrom)):
            put(n, 'pass', f'{seg(n)[:90]}: dropped')
        elif isinstance(n, ast.Break):
            put(n, 'continue', 'break -> continue')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'continue -> break')
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                e = [seg(x) for j, x in enumerate(n.type.elts) if j != i]
                put(n.type, '(' + ', '.join(e) + ',)', f'except {seg(n.type)}: without {seg(n.type.elts[i])}')
        elif isinstance(n, ast.Try) and n.finalbody:
            pass
    seen, good = set(), []
    for ln, what, t in out:
        if t in seen or t == text:
            continue
        seen.add(t)
        try:
            compile(t, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        good.append((ln, ' '.join(what.split())[:160], t))
    return good


def copy():
    d = tempfile.mkdtemp(prefix='mutant-', dir='/tmp')
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {d}', shell=True, check=True)
    return d


def tests(job):
    """True when the repository's tests pass"""
    f, ln, what, text = job[:4]
    if len(job) > 4 and tests((f, ln, what, job[4])):
        return False
    d = copy()
    try:
        with open(f'{d}/ombott/{f}', 'w') as h:
            h.write(text)
        try:
            r = subprocess.run(['python3-vt', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, capture_output=True, text=True, timeout=40, env=dict(os.environ, PYTHONPATH=d))
        except subprocess.TimeoutExpired:
            return False
        return r.returncode == 0
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: (a.pop(a.index(k) + 1), a.remove(k))[0] if k in a else d       # noqa
    n, seed, log, soft = int(opt('--n', '100000')), int(opt('--seed', '1')), opt('--out', '/tmp/mutate.log'), opt('--soft', '25')
    gated = '--rare' in a
    a = [x for x in a if x != '--rare']
    done = set()
    if os.path.exists(log):
        done = {tuple(json.loads(x)[:3]) for x in open(log)}
    jobs = []
    for f in a:
        text = open(f'/repo/ombott/{f}').read()
        jobs += [(f,) + m for m in (rare(text, seed, next((v for k, v in FIT.items() if f.startswith(k)), sorted(GATES))) if gated else mutants(text))]
    random.Random(seed).shuffle(jobs)
    jobs = [j for j in jobs[:n] if j[:3] not in done]
    print(len(jobs), 'changes', flush=True)
    with cf.ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(tests, jobs))
    alive = [j for j, o in zip(jobs, ok) if o]
    print(len(alive), 'pass the tests', flush=True)
    miss = 0
    for f, ln, what, text, *_ in alive:
        d = copy()
        with open(f'{d}/ombott/{f}', 'w') as h:
            h.write(text)
        checks = next(v for k, v in CHECKS.items() if k in f or f.startswith(k)).split()
        by = None
        for c in checks:
            r = subprocess.run(['python3-vt', f'{VERIF}/check.py', c, 'quick'], env=dict(os.environ, VERIF_REPO=d, VT_FAST='1', VT_SOFT=soft), capture_output=True, text=True)
            if r.returncode:
                by = c if r.returncode == 1 else c + '?'
                break
        hit = os.path.exists(f'{d}/ombott/{f}.hit')
        if gated and by is None and not hit:
            by = 'UNHIT'
        shutil.rmtree(d)
        miss += by is None
        with open(log, 'a') as h:
            h.write(json.dumps([f, ln, what, by]) + '\n')
        print(f'{by or "ALIVE"}\t{f}:{ln}\t{what}', flush=True)
    print(f'{len(jobs)} changes, {len(alive)} pass the tests, {miss} alive')


if __name__ == '__main__':
    main()
