"""Driver of the checks: legs -> worker processes -> evidence / verdict."""
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from .src import Src, RandomSrc, ReplaySrc, HypSrc, BytesSrc, shrink

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO') or '/repo'
CPU_PER_CASE = 25.0       # seconds of CPU one case may take (typical: < 10 ms)
WALL_PER_CASE = 200.0
WORKER_WALL = {'quick': 700, 'thorough': 870}
FAST = bool(os.environ.get('VT_FAST'))             # for tools: stop at the first violation, as found
SOFT_WALL = {'quick': float(os.environ.get('VT_SOFT') or 420), 'thorough': float(os.environ.get('VT_SOFT') or 700)}        # after that the generators stop early, and the evidence says so


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class Leg:
    def __init__(self, name, run, *, gen=None, enum=None, quick=1000, thorough=None,
                 shards=4, hyp=None, need=(), fuzz=0, cpu=CPU_PER_CASE, hyp_thorough=None, tshards=None):
        self.name, self.run, self.gen, self.enum = name, run, gen, enum
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 10
        self.shards = shards
        self.tshards = tshards or max(shards, 8)
        self.hyp = hyp if hyp is not None else (150 if gen else 0)
        self.hyp_thorough = hyp_thorough if hyp_thorough is not None else self.hyp * 10
        self.need = tuple(need)
        self.fuzz = fuzz                 # number of atheris runs in the thorough tier
        self.cpu = cpu


class Ctx:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.tags = {}
        self.hashes = set()
        self.evals = 0
        self._nt = False
        self.samples = []           # (hash, text)
        self.mute = False
        self.narrow = None          # set by a failing run: the part of the case that fails
        self.stop_at = None         # time at which the driver stops generating
        self.stopped = False

    def over(self, done, n):
        """the time share of this worker is used up (a fiftieth of its cases is run in any case)"""
        if self.stop_at is not None and time.time() > self.stop_at and done * 50 >= n:
            self.stopped = True
        return self.stopped

    def tag(self, name, n=1):
        if not self.mute:
            self.tags[name] = self.tags.get(name, 0) + n

    def nontrivial(self):
        self._nt = True

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def eq(self, got, want, what):
        if got != want or type(got) is not type(want) and not (
                isinstance(got, (int, float)) and isinstance(want, (int, float))):
            raise Violation(f'{what}: got {short(got)}, expected {short(want)}')


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + f' ...[{len(s)} chars]... ' + s[-n // 3:]


# ------------------------------------------------------------ case <-> JSON
def enc(x):
    if isinstance(x, bytes):
        return {'$b': x.decode('latin1')}
    if isinstance(x, tuple):
        return {'$t': [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) and not k.startswith('$') for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {'$d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return {'$f': repr(x)}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    raise HarnessError(f'case is not plain data: {type(x)}')


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k == '$b':
                return v.encode('latin1')
            if k == '$t':
                return tuple(dec(i) for i in v)
            if k == '$d':
                return {dec(a): dec(b) for a, b in v}
            if k == '$f':
                return float(v)
        return {k: dec(v) for k, v in x.items()}
    return x


def case_hash(case):
    return hashlib.blake2b(repr(case).encode('utf8', 'surrogatepass'), digest_size=8).digest()


# ------------------------------------------------------------ worker
def load(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module(f'checks.{pid.lower()}')


def setup_target(instrument=False):
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    if instrument:
        import atheris
        with atheris.instrument_imports(include=['ombott'], enable_loader_override=False):
            import ombott
            import ombott.static_stream  # noqa
    else:
        import ombott
        import ombott.static_stream  # noqa
    f = os.path.realpath(ombott.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'imported ombott from {f}, not from {REPO}')


def limits():
    lim = 4 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


_cur_cpu = CPU_PER_CASE


def _on_prof(*_):
    raise Hang()


class WallStuck(BaseException):
    pass


def _on_alrm(*_):
    raise WallStuck()


def execute(leg, case, ctx):
    """run one case; returns None or a violation message"""
    ctx.evals += 1
    ctx._nt = False
    ctx.narrow = None
    signal.setitimer(signal.ITIMER_PROF, leg.cpu)
    signal.setitimer(signal.ITIMER_REAL, WALL_PER_CASE)
    try:
        leg.run(case, ctx)
    except Violation as e:
        return str(e)
    except Hang:
        return f'no answer: the case used more than {leg.cpu:.0f} s of CPU'
    except WallStuck:
        return f'no answer: the case was blocked for {WALL_PER_CASE:.0f} s'
    except (HarnessError, KeyboardInterrupt):
        raise
    except (Exception, MemoryError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))
        return (f'{"unexpected exception from the code under test" if inside else "the observed result has an unexpected shape"}: '
                f'{type(e).__name__}: {short(str(e), 300)} [{where}]')
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise HarnessError(f'SystemExit escaped: {e!r}')
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    if ctx._nt and not ctx.mute:
        h = case_hash(case)
        if h not in ctx.hashes:
            ctx.hashes.add(h)
            s = ctx.samples
            if len(s) < 3 or h < s[-1][0]:
                try:
                    txt = short(repr(case), 900)
                except Exception:
                    txt = '<unprintable>'
                s.append((h, txt))
                s.sort()
                del s[3:]
    return None


class Enough(BaseException):
    pass


class Found(BaseException):
    def __init__(self, msg, case, choices=None, index=None):
        self.msg, self.case, self.choices, self.index = msg, case, choices, index


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def run_bulk(leg, ctx, n, seed):
    gen = leg.gen
    master = random.Random(seed)
    for i in range(n):
        src = RandomSrc(random.Random(master.getrandbits(64)))
        case = gen(src)
        msg = execute(leg, case, ctx)
        if msg is not None:
            raise Found(msg, case, src.choices, i)
        if i % 16 == 15 or leg.cpu > CPU_PER_CASE:
            if i + 1 < n and ctx.over(i + 1, n):
                break


def run_hyp(leg, ctx, n, seed):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    ints = {}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate],
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
    @given(st.data())
    def t(data):
        src = HypSrc(data, ints)
        case = leg.gen(src)
        msg = execute(leg, case, ctx)
        if msg is not None:
            raise Found(msg, case, src.choices)
        count[0] += 1
        if count[0] < n and ctx.over(count[0], n):
            raise Enough
    count = [0]
    try:
        t()
    except Enough:
        pass


def run_enum(leg, ctx, tier, shard, nshards, limit):
    done = 0
    for i, case in enumerate(leg.enum(tier)):
        if i % nshards != shard:
            continue
        msg = execute(leg, case, ctx)
        if msg is not None:
            raise Found(msg, case, None, done)
        done += 1
        if limit and done >= limit:
            break
        if ctx.over(done, 50):
            break


def run_atheris(leg, ctx, n, seed, out, finish):
    import atheris

    def one(data):
        src = BytesSrc(data)
        case = leg.gen(src)
        msg = execute(leg, case, ctx)
        if msg is not None:
            finish(Found(msg, case, src.choices))
            os._exit(0)
        if ctx.evals >= n or ctx.over(ctx.evals, n):
            finish(None)
            os._exit(0)

    d = tempfile.mkdtemp(dir=ctx.scratch)
    atheris.Setup([sys.argv[0], f'-seed={seed % 2**31 or 1}', '-max_len=512', '-len_control=20', '-verbosity=0',
                   f'-artifact_prefix={d}/', '-rss_limit_mb=0', '-timeout=0', '-handle_int=0', f'-runs={n + 10}', d], one,
                  enable_python_coverage=True)
    atheris.Fuzz()
    finish(None)


def worker(spec):
    pid, tier, legname, kind, shard, nshards, n, seed, out, scratch = (
        spec[k] for k in 'pid tier leg kind shard nshards n seed out scratch'.split())
    limits()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alrm)
    setup_target(instrument=(kind == 'fuzz'))
    mod = load(pid)
    legs = {l.name: l for l in mod.legs(tier)}
    ctx = Ctx(tier, scratch)
    ctx.stop_at = spec.get('stop_at')
    if hasattr(mod, 'setup'):
        mod.setup(ctx)

    def finish(found):
        res = dict(evals=ctx.evals, tags=ctx.tags, samples=[[h.hex(), t] for h, t in ctx.samples], stopped=ctx.stopped, violation=None)
        with open(out + '.bin', 'wb') as f:
            f.write(b''.join(ctx.hashes))
        if found is not None:
            res['violation'] = minimise(leg, ctx, found)
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.rename(out + '.tmp', out)

    if kind == 'replay':
        res = []
        for path in spec['files']:
            with open(path) as f:
                d = json.load(f)
            leg = legs.get(d['leg'])
            if leg is None:
                raise HarnessError(f'{path}: no leg {d["leg"]}')
            for before in d.get('before', ()):      # cases served earlier by the same process
                execute(leg, dec(before), ctx)
            case = dec(d['case'])
            res.append([path, execute(leg, case, ctx)])
        with open(out + '.tmp', 'w') as f:
            json.dump(dict(evals=ctx.evals, tags=ctx.tags, results=res), f)
        os.rename(out + '.tmp', out)
        return
    leg = legs[legname]
    if kind == 'confirm':
        with open(out + '.tmp', 'w') as f:
            json.dump(confirm(leg, ctx, spec), f)
        os.rename(out + '.tmp', out)
        return
    found = None
    try:
        if kind == 'bulk':
            run_bulk(leg, ctx, n, seed)
        elif kind == 'hyp':
            run_hyp(leg, ctx, n, seed)
        elif kind == 'enum':
            run_enum(leg, ctx, tier, shard, nshards, n)
        elif kind == 'fuzz':
            run_atheris(leg, ctx, n, seed, out, finish)
    except Found as f:
        found = f
    finish(found)


def minimise(leg, ctx, found):
    ctx.mute = True
    msg, case, choices = found.msg, found.case, found.choices
    orig = case
    confirmed = execute(leg, case, ctx)
    if confirmed is not None:
        case = ctx.narrow or case
    if confirmed is not None and choices and 'no answer' not in msg and not FAST:
        t0 = time.process_time()
        runs = [0]
        best = [msg, case]

        def budget():
            return runs[0] < 3000 and time.process_time() - t0 < 40

        def still(cand):
            runs[0] += 1
            src = ReplaySrc(cand)
            try:
                c = leg.gen(src)
            except Exception:
                return None
            m = execute(leg, c, ctx)
            if m is None or 'no answer' in m:
                return None
            if (len(src.choices), src.choices) <= (len(still.best), still.best):
                still.best = src.choices
                best[:] = [m, ctx.narrow or c]
            return src.choices
        still.best = list(choices)
        shrink(choices, still, budget)
        msg, case = best
    return dict(leg=leg.name, msg=msg, case=enc(case), index=found.index, reproduced=confirmed is not None,
                choices=None if choices is None else list(choices)[:2000],
                original=enc(orig) if len(repr(orig)) < 20000 else None)


def stream(leg, tier, driver, count):
    """the first `count` cases of a worker's run, without running them"""
    if driver['kind'] == 'bulk':
        master = random.Random(driver['seed'])
        return [leg.gen(RandomSrc(random.Random(master.getrandbits(64)))) for _ in range(count)]
    if driver['kind'] == 'enum':
        out = []
        for i, case in enumerate(leg.enum(tier)):
            if i % driver['nshards'] == driver['shard']:
                out.append(case)
                if len(out) >= count:
                    break
        return out
    return None


def fresh(leg, ctx, cases, wall=100):
    """run the cases in a forked child of a process which has run none; (index, message) of the first failure or None"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        ctx.mute = True
        res = None
        try:
            os.close(r)
            for i, c in enumerate(cases):
                m = execute(leg, c, ctx)
                if m is not None:
                    res = [i, m]
                    break
            os.write(w, json.dumps(res).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    t = time.time() + wall
    import select
    while True:
        if not select.select([r], [], [], max(0.0, t - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def confirm(leg, ctx, spec):
    """does the shrunk case fail in a process of its own?  If not: which cases have to come before it"""
    t0 = time.time()
    case, orig, driver = dec(spec['case']), spec['original'], spec['driver']
    m = fresh(leg, ctx, [case])
    if m:
        return dict(ok=True)
    if orig is not None:
        m = fresh(leg, ctx, [dec(orig)])
        if m:
            best = [m[1], dec(orig)]
            choices = spec['choices']
            if choices and len(choices) < 2000 and leg.gen:
                def still(cand):
                    src = ReplaySrc(cand)
                    try:
                        c = leg.gen(src)
                    except Exception:
                        return None
                    m = fresh(leg, ctx, [c])
                    if m is None:
                        return None
                    if (len(src.choices), src.choices) <= (len(still.best), still.best):
                        still.best = src.choices
                        best[:] = [m[1], c]
                    return src.choices
                still.best = list(choices)
                shrink(choices, still, lambda: time.time() - t0 < 40)
            return dict(ok=True, msg=best[0], case=enc(best[1]))
    if spec['index'] is None:
        return dict(ok=False)
    cases = stream(leg, spec['tier'], driver, spec['index'] + 1)
    if not cases:
        return dict(ok=False)
    n, seq, msg = 1, None, None
    while seq is None and time.time() - t0 < 60:
        m = fresh(leg, ctx, cases[-n:])
        if m:
            seq, msg = cases[-n:][:m[0] + 1], m[1]
        elif n >= len(cases):
            break
        n *= 4
    if seq is None:
        return dict(ok=False)
    step = max(1, len(seq) // 2)
    while time.time() - t0 < 100:
        i, hit = 0, False
        while i < len(seq) - 1 and time.time() - t0 < 100:
            cand = seq[:i] + seq[min(i + step, len(seq) - 1):]
            m = fresh(leg, ctx, cand)
            if m:
                seq, msg, hit = cand[:m[0] + 1], m[1], True
            else:
                i += step
        if step == 1 and not hit:
            break
        step = max(1, step // 2)
    return dict(ok=True, msg=msg, case=enc(seq[-1]), before=[enc(c) for c in seq[:-1]])


# ------------------------------------------------------------ parent
def plan(mod, tier, only=None):
    jobs = []
    for leg in mod.legs(tier):
        if only and leg.name != only or not (leg.gen or leg.enum):
            continue                        # a leg without a generator only serves replay files
        n = leg.quick if tier == 'quick' else leg.thorough
        shards = leg.shards if tier == 'quick' else leg.tshards
        if leg.enum:
            for s in range(shards):
                jobs.append((leg, 'enum', s, shards, n))
        else:
            if n:
                for s in range(shards):
                    jobs.append((leg, 'bulk', s, shards, -(-n // shards)))
            h = leg.hyp if tier == 'quick' else leg.hyp_thorough
            if h:
                jobs.append((leg, 'hyp', 0, 1, h))
            if tier == 'thorough' and leg.fuzz:
                for s in range(2):
                    jobs.append((leg, 'fuzz', s, 2, leg.fuzz))
    return jobs


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return [k for k in json.load(f) if k.get('property') == pid and k.get('status') == 'open']
    except FileNotFoundError:
        return []


def start(spec, wdir, idx):
    sp = os.path.join(wdir, f'{idx}.spec')
    with open(sp, 'w') as f:
        json.dump(spec, f)
    env = dict(os.environ)
    for k in ('TZ', 'PYTHONPATH', 'HTTP_PROXY', 'http_proxy'):
        env.pop(k, None)
    return subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), '--worker', sp], cwd=VERIF, env=env,
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                            stderr=open(os.path.join(wdir, f'{idx}.err'), 'wb'), start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        pass


def main(argv):
    if argv and argv[0] == '--worker':
        with open(argv[1]) as f:
            spec = json.load(f)
        worker(spec)
        return 0
    if len(argv) < 2:
        print(__doc__, file=sys.stderr)
        return 2
    pid = argv[0].upper()
    tier = argv[1]
    if tier not in ('quick', 'thorough'):
        print('tier must be quick or thorough', file=sys.stderr)
        return 2
    only = argv[argv.index('--leg') + 1] if '--leg' in argv else None
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    wdir = tempfile.mkdtemp(prefix=f'vt-{pid}-')
    try:
        return drive(pid, tier, only, replay, seed, wdir)
    except HarnessError as e:
        print(f'HARNESS-ERROR {pid}: {e}')
        return 2
    finally:
        shutil.rmtree(wdir, ignore_errors=True)


def drive(pid, tier, only, replay, seed, wdir):
    t0 = time.time()
    mod = load(pid)                       # must not import ombott at module level
    if any(m == 'ombott' or m.startswith('ombott.') for m in sys.modules):
        raise HarnessError('check module imports ombott in the parent')
    queue = []
    open_kf = known_findings(pid)
    base = dict(pid=pid, tier=tier, leg=None, kind='replay', shard=0, nshards=1, n=0, seed=seed)
    if replay:
        queue.append(dict(base, files=[os.path.abspath(replay)]))
    else:
        rdir = os.path.join(VERIF, 'regress', pid)
        files = sorted(os.path.join(rdir, f) for f in os.listdir(rdir)) if os.path.isdir(rdir) else []
        files = [f for f in files if f.endswith('.json')]
        kf_files = {os.path.join(VERIF, k['replay']): k for k in open_kf}
        files = [f for f in files if f not in kf_files]
        if files and not only:
            queue.append(dict(base, files=files))
        if kf_files:
            queue.append(dict(base, files=sorted(kf_files), kf=True))
        for leg, kind, shard, nshards, n in plan(mod, tier, only):
            queue.append(dict(base, leg=leg.name, kind=kind, shard=shard, nshards=nshards, n=n,
                              seed=derive_seed(seed, pid, leg.name, kind, shard)))
    # most expensive legs first is not known; keep order
    ncpu = min(8, os.cpu_count() or 1)
    running, results, errors, violations = {}, [], [], []
    qi = 0
    stop_at = None
    deadline = t0 + WORKER_WALL[tier]
    while qi < len(queue) or running:
        while qi < len(queue) and len(running) < ncpu and stop_at is None:
            spec = dict(queue[qi])
            spec['out'] = os.path.join(wdir, f'{qi}.out')
            spec['scratch'] = os.path.join(wdir, f'{qi}.scratch')
            os.mkdir(spec['scratch'])
            if spec['kind'] != 'replay':
                now = time.time()
                spec['stop_at'] = now + max(1.0, t0 + SOFT_WALL[tier] - now) * min(1.0, ncpu / (len(queue) - qi))
            running[qi] = (start(spec, wdir, qi), spec)
            qi += 1
        if stop_at is not None and qi < len(queue):
            qi = len(queue)
        time.sleep(0.02)
        for i in list(running):
            p, spec = running[i]
            rc = p.poll()
            label = f'{spec["leg"]}/{spec["kind"]}/{spec["shard"]}'
            if rc is None:
                if time.time() > deadline:
                    kill(p)
                    del running[i]
                    errors.append(f'{label}: not finished within {WORKER_WALL[tier]} s')
                elif stop_at is not None and time.time() > stop_at:
                    kill(p)
                    del running[i]
                continue
            del running[i]
            try:
                with open(spec['out']) as f:
                    res = json.load(f)
            except (OSError, ValueError):
                with open(os.path.join(wdir, f'{i}.err'), 'rb') as f:
                    err = f.read().decode('utf8', 'replace')
                errors.append(f'{label}: worker ended with {rc}\n{err[-3000:]}')
                continue
            res['spec'] = spec
            try:
                with open(spec['out'] + '.bin', 'rb') as f:
                    res['bin'] = f.read()
            except OSError:
                res['bin'] = b''
            results.append(res)
            shutil.rmtree(spec['scratch'], ignore_errors=True)
            if spec['kind'] == 'replay':
                for path, msg in res['results']:
                    if spec.get('kf'):
                        k = kf_files[path]
                        if msg is not None:
                            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
                        continue
                    if msg is not None:
                        violations.append(dict(leg='replay', msg=msg, path=path))
                    elif replay:
                        print(f'replay {path}: held')
            elif res['violation']:
                v = res['violation']
                v['driver'] = dict(kind=spec['kind'], shard=spec['shard'], nshards=spec['nshards'], seed=spec['seed'], n=spec['n'])
                violations.append(v)
            if violations and stop_at is None:
                stop_at = time.time() + (0 if FAST else 12)
    # ---- report
    rdir = os.path.join(VERIF, 'replays')
    seen = set()
    todo = []
    for k, v in enumerate([v for v in violations if 'case' in v and not FAST][:8]):
        spec = dict(base, kind='confirm', leg=v['leg'], case=v['case'], original=v['original'], choices=v['choices'], index=v['index'], driver=v['driver'],
                    out=os.path.join(wdir, f'confirm{k}.out'), scratch=os.path.join(wdir, f'confirm{k}.scratch'))
        os.mkdir(spec['scratch'])
        todo.append((v, spec, start(spec, wdir, f'confirm{k}')))
    t1 = time.time()
    for v, spec, p in todo:
        try:
            p.wait(max(0.1, t1 + 150 - time.time()))
            with open(spec['out']) as f:
                v.update(json.load(f))
        except (OSError, ValueError, subprocess.TimeoutExpired):
            v['ok'] = False
        kill(p)
        v['reproduced'] = v.pop('ok')
    if not FAST and any(v.get('reproduced', 'path' in v) for v in violations):
        violations = [v for v in violations if v.get('reproduced', 'path' in v)]
    for v in violations:
        if 'path' in v:
            path = v['path']
        else:
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.blake2b(json.dumps(v['case'], sort_keys=True).encode(), digest_size=5).hexdigest()
            path = os.path.join(rdir, f'{pid}-{v["leg"]}-{h}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, **v), f, indent=1)
        v['path'] = path
        if path in seen:
            continue
        seen.add(path)
        print(f'[{pid}] leg {v["leg"]}: {short(v["msg"], 1200)}')
        if v.get('case') is not None:
            print(f'   case: {short(repr(dec(v["case"])), 1500)}')
        if v.get('before'):
            print(f'   after {len(v["before"])} earlier case(s) in the same process: {short(repr(dec(v["before"])), 1200)}')
        if v.get('reproduced') is False:
            print('   (needs the cases before it in the same run: see "driver" in the replay file)')
        print(f'VIOLATION property={pid} replay={path}')
    for e in errors:
        print(f'HARNESS-ERROR {pid} {e}')
    if replay:
        return 1 if violations else 2 if errors else 0
    # ---- evidence
    evals = sum(r['evals'] for r in results)
    hashes = set()
    per_leg = {}
    early = []
    for r in results:
        b = r['bin']
        hs = {b[i:i + 8] for i in range(0, len(b), 8)}
        leg = r['spec']['leg'] or 'replay'
        d = per_leg.setdefault(leg, dict(evaluations=0, distinct=set(), classes={}, samples=[]))
        d['evaluations'] += r['evals']
        if r.get('stopped'):
            early.append(f'{leg}/{r["spec"]["kind"]}/{r["spec"]["shard"]} after {r["evals"]} cases')
        d['distinct'] |= hs
        for k, n in r['tags'].items():
            d['classes'][k] = d['classes'].get(k, 0) + n
        d['samples'] += r.get('samples', [])
        hashes |= {leg.encode() + x for x in hs}
    samples = []
    for leg, d in per_leg.items():
        d['samples'].sort()
        for h, t in d['samples'][:2]:
            samples.append(dict(leg=leg, case=t))
        d['distinct_nontrivial'] = len(d.pop('distinct'))
        d.pop('samples')
    if not violations and not errors:
        for leg in mod.legs(tier):
            if only and leg.name != only or not (leg.gen or leg.enum):
                continue
            d = per_leg.get(leg.name, dict(classes={}, distinct_nontrivial=0))
            miss = [k for k in leg.need if not d['classes'].get(k)]
            if miss and not early:
                errors.append(f'leg {leg.name}: vacuous, no case of class {miss}')
            if not d['distinct_nontrivial']:
                errors.append(f'leg {leg.name}: vacuous, no non-trivial case')
        for e in errors:
            print(f'HARNESS-ERROR {pid} {e}')
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=mod.RULE,
                      samples=samples[:24], legs=per_leg, stopped_early=early, complete=not errors and not violations),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(seen))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', f'.{pid}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, 'evidence', f'{pid}.json'))
    print(f'{pid} {tier}: {evals} cases, {len(hashes)} distinct non-trivial, {len(seen)} violations, '
          f'{len(errors)} errors, {wall:.1f} s' + (f', {len(early)} jobs stopped by time' if early else ''))
    if '--verbose' in sys.argv or os.environ.get('VT_VERBOSE'):
        for leg, d in per_leg.items():
            print('  ', leg, d['evaluations'], d['distinct_nontrivial'], d['classes'])
    return 1 if violations else 2 if errors else 0
