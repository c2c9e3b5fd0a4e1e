#!/usr/bin/env python3
"""seedcheck.py [--validate] [--property C01] [ID...]: validate the planted changes in /verif/seeded on scratch copies of /repo's HEAD
(applies, changes original lines, tests pass, demo 0 / nonzero) and run the property's quick check against each."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {})))
    return r.returncode, r.stdout + r.stderr


def changed_lines(patch):
    """(file, old line numbers removed)"""
    out, f, n = [], None, 0
    for l in open(patch):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            out.append((f, n))
            n += 1
        elif l.startswith(' '):
            n += 1
    return out


def validate(sid):
    d = os.path.join(VERIF, 'seeded', sid)
    bad = []
    rem = changed_lines(d + '/patch.diff')
    orig = 0
    for f, n in rem:
        rc, o = sh(f'git blame -s -l -L {n},{n} -- {f}', REPO)
        h = o.split()[0].lstrip('^')
        if BASE.startswith(h[:39]):
            orig += 1
        else:
            bad.append(f'line {f}:{n} is from {h[:8]}')
    if not orig:
        bad.append('changes no original line')
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        sh(f'git -C {REPO} archive HEAD | tar -x -C {t}')
        rc, o = sh(f'bash {d}/demo.sh', t, timeout=300)
        if rc:
            bad.append(f'demo fails on the unchanged tree: {o[-400:]}')
        rc, o = sh(f'git apply --check {d}/patch.diff && git apply {d}/patch.diff', t, {'GIT_DIR': '/nonexistent'})
        if rc:
            rc, o = sh(f'patch -p1 -s < {d}/patch.diff', t)
        if rc:
            bad.append('patch does not apply: ' + o[-200:])
        rc, o = sh(f'bash {d}/demo.sh', t, timeout=300)
        if not rc:
            bad.append('demo passes with the patch')
        else:
            last = o.strip().splitlines()[-1:] or ['']
            if not re.search('AssertionError|accepted|Error', last[0]):
                bad.append('demo ends with: ' + last[0][:200])
        rc, o = sh(f'for f in $(find tests -name "test_*.py"); do PYTHONPATH={t} /opt/venv/bin/python -m pytest -q -p no:cacheprovider $f || exit 1; done', t)
        if rc:
            bad.append('tests fail: ' + o[-600:])
    finally:
        shutil.rmtree(t)
    return sid, bad


def caught(sid, prop, tier='quick'):
    d = os.path.join(VERIF, 'seeded', sid)
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        sh(f'git -C {REPO} archive HEAD | tar -x -C {t} && cd {t} && patch -p1 -s < {d}/patch.diff')
        rc, o = sh(f'python3-vt {VERIF}/check.py {prop} {tier}', VERIF, {'VERIF_REPO': t, 'VERIF_SEED': '1', 'VERIF_TIER': tier})
    finally:
        shutil.rmtree(t)
    first = [l for l in o.splitlines() if l.startswith(f'[{prop}]') or 'HARNESS' in l]
    return rc, f'VIOLATION property={prop} ' in o, (first or o.splitlines()[-1:])[0][:230]


def main():
    args = sys.argv[1:]
    only_validate = '--validate' in args
    prop = args[args.index('--property') + 1] if '--property' in args else None
    ids = [a for a in args if not a.startswith('--') and a != prop]
    meta = {}
    for sid in sorted(os.listdir(VERIF + '/seeded')):
        m = json.load(open(f'{VERIF}/seeded/{sid}/meta.json'))
        if (not ids or sid in ids) and (not prop or m['property'] == prop):
            meta[sid] = m
    if '--no-validate' not in args:
        with ThreadPoolExecutor(8) as ex:
            for sid, bad in ex.map(validate, meta):
                if bad:
                    print('INVALID', sid, *bad, sep='\n     ', flush=True)
    if only_validate:
        return
    for sid, m in meta.items():
        rc, hit, first = caught(sid, m['property'])
        print('CAUGHT' if rc == 1 and hit else f'MISSED({rc})', sid, first, flush=True)


main()
