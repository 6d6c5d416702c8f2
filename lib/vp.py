"""Harness of the checks: records what the code of /repo does as ndjson events and lets TLC judge them
with the TLA+ modules in /verif/spec.  Exit 0: every event is allowed by the specification; exit 1 with
a VIOLATION line otherwise; exit 2: the machinery itself failed."""

import collections
import contextlib
import copy
import fcntl
import glob
import hashlib
import io
import json
import math
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

warnings.filterwarnings('ignore')

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = max(1, min(8, os.cpu_count() or 1))


def thorough():
    return TIER == 'thorough'


# ---------------------------------------------------------------- building /repo
def ensure_built():
    """rebuild the Cython extensions of /repo if their sources differ from what was built (git-ignored files only)"""
    os.makedirs(os.path.join(REPO, 'build'), exist_ok=True)
    with open(os.path.join(REPO, 'build', 'vp-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cwd = os.getcwd()
        os.chdir(REPO)
        try:
            def find(ext):
                return sorted(glob.glob(f"ylearn/**/*{ext}", recursive=True))

            def generated(c):
                with open(c, 'rb') as f:
                    return f.read(40).startswith(b'/* Generated by Cython')
            pyx = find('.pyx')
            gen = [c for c in find('.cpp') if generated(c)]
            shared = [f for f in find('.pxd') + find('.pxi') + find('.h') + find('.cpp') if f not in gen]
            now = {f: hashlib.sha256(open(f, 'rb').read()).hexdigest() for f in pyx + shared + ['setup.py']}
            try:
                old = json.load(open('build/vp-stamp.json'))
            except (OSError, ValueError):
                old = None
            have = all(glob.glob(p[:-4] + '.cpython-*.so') for p in pyx)
            if old == now and have:
                return
            r = subprocess.run([sys.executable, os.path.join(HERE, 'lib', 'build_ext.py')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
                print('build of the extensions failed')
                sys.exit(2)
        finally:
            os.chdir(cwd)


# ---------------------------------------------------------------- running the code under test
class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout('timeout')


def attempt(fn, *args, seconds=60, **kwargs):
    """(True, result) or (False, name of the exception); output is swallowed, endless loops are cut off"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return True, fn(*args, **kwargs)
    except (Exception, SystemExit) as e:  # noqa
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
        return False, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Crash(Exception):
    """the code under test took its process with it"""


class Failed(Exception):
    """carries the traceback of a worker"""


def _worker(fn, chunks, turn, current, me, folder):
    while True:
        with turn.get_lock():
            k = turn.value
            turn.value += 1
        if k >= len(chunks):
            return
        current[me] = k
        try:
            out = (True, [fn(i) for i in chunks[k]])
        except BaseException as e:  # noqa
            out = (False, traceback.format_exc(), isinstance(e, (Machinery, MemoryError, KeyboardInterrupt)))
        with open(os.path.join(folder, f'{k}.part'), 'wb') as f:
            pickle.dump(out, f)
        os.replace(os.path.join(folder, f'{k}.part'), os.path.join(folder, str(k)))


def pmap(fn, items, procs=None, chunksize=1):
    """[fn(i) for i in items] in forked processes; tells when one of them is killed by what it runs"""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    chunks = [items[k:k + chunksize] for k in range(0, len(items), chunksize)]
    procs = min(procs or NPROC, len(chunks))
    ctx = mp.get_context('fork')
    turn, current = ctx.Value('i', 0), ctx.Array('i', [-1] * procs)
    folder = tempfile.mkdtemp(prefix='vp_pmap_')
    workers = [ctx.Process(target=_worker, args=(fn, chunks, turn, current, i, folder)) for i in range(procs)]
    got = {}
    try:
        for w in workers:
            w.start()
        alive = set(range(procs))
        while alive:
            for i in sorted(alive):
                workers[i].join(.02)
                if workers[i].exitcode is None:
                    continue
                alive.discard(i)
                code = workers[i].exitcode
                if code:
                    at = str(chunks[current[i]])[:300] if current[i] >= 0 else 'nothing'
                    if -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                        raise Crash(f'signal {-code} while one of {at} was running')
                    raise Machinery(f'a worker ended with {code} on {at}')
            for name in os.listdir(folder):
                if name.isdigit() and int(name) not in got:
                    with open(os.path.join(folder, name), 'rb') as f:
                        out = pickle.load(f)
                    if not out[0]:
                        raise (Machinery if out[2] else Failed)(out[1])
                    got[int(name)] = out[1]
    finally:
        for w in workers:
            if w.is_alive():
                w.kill()
            if w.pid:
                w.join()
        shutil.rmtree(folder, ignore_errors=True)
    if len(got) != len(chunks):
        raise Machinery('results are missing')
    return [r for k in range(len(chunks)) for r in got[k]]


# ---------------------------------------------------------------- numbers for TLC (32-bit integers only)
BIG = 2 ** 31 - 1


def scaled(x, unit=1000):
    """float -> integer multiple of 1/unit; something TLC can tell from every number if it is not one"""
    try:
        x = float(x)
    except Exception:
        return BIG
    if not math.isfinite(x):
        return BIG
    r = int(round(x * unit))
    return r if abs(r) < BIG else BIG


def rational(x, maxden=10 ** 6, tol=1e-7):
    """float -> [num, den] if it is a rational with a small denominator, else [BIG, 1]"""
    try:
        x = float(x)
    except Exception:
        return [BIG, 1]
    if not math.isfinite(x):
        return [BIG, 1]
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > tol * max(1.0, abs(x)) or abs(f.numerator) >= BIG:
        return [BIG, 1]
    return [f.numerator, f.denominator]


# ---------------------------------------------------------------- TLC
STAT = re.compile(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found')


def tlc(module, cfg=None, env=None, workers=1, timeout=800, mem='3g', args=()):
    meta = tempfile.mkdtemp(prefix='vp-tlc-')
    try:
        cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
               f'-Xmx{mem}', '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
               '-metadir', meta, '-config', cfg or f'{module}.cfg', *args, f'{module}.tla']
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


UNFIT = re.compile(r'Attempted to|In evaluating|argument of|CHOOSE|In applying|evaluat', re.I)


class Machinery(Exception):
    pass


FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


class Check:
    def __init__(self, prop, assumptions=(), level='model_checking'):
        self.prop = prop
        self.level = level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.models = []
        self.classes = collections.Counter()
        self.samples = []
        self.failures = []   # (module, event, clauses)
        self.notes = {}
        self.pending = []

    # -- exhaustive checks of the specification itself
    def model(self, module, cfg=None, workers=NPROC, timeout=800, env=None):
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, env=env)
        m = STAT.findall(out)
        if rc != 0 or 'No error has been found' not in out:
            print(out[-3000:])
            raise Machinery(f'the specification {module} ({cfg}) does not satisfy its own properties (TLC exit {rc})')
        g, d = map(int, m[-1])
        self.states += d
        self.transitions += g
        self.models.append(dict(model=cfg or module, distinct_states=d, states_generated=g))
        return out

    # -- judging recorded events
    def judge(self, module, events, chunk=None, cfg=None, corrupt=None, stateful=False):
        """events: list of dicts (stateful: list of lists of dicts, one list per history)"""
        if not events:
            raise Machinery(f'no events for {module}')
        groups = events if stateful else [[e] for e in events]
        size = sum(len(g) for g in groups)
        nchunk = max(1, min(NPROC, size // (chunk or 40) + 1))
        # longest-processing-time-first is not needed: events of one driver cost about the same; deal round robin
        parts = [groups[i::nchunk] for i in range(nchunk)]
        parts = [p for p in parts if p]
        tmp = tempfile.mkdtemp(prefix='vp-ev-')
        try:
            def one(i):
                flat = [e for g in parts[i] for e in g]
                bad, G, D, off = [], 0, 0, 0
                while True:
                    path = os.path.join(tmp, f'e{i}.ndjson')
                    with open(path, 'w') as f:
                        for e in flat[off:]:
                            f.write(json.dumps({k: v for k, v in e.items() if not k.startswith('_')}, default=plain) + '\n')
                    rc, out = tlc(module, cfg, env=dict(VP_TRACE=path), workers=1)
                    m = STAT.findall(out)
                    found = [(int(a) + off, sorted(set(re.findall(r'"([^"]*)"', b)))) for a, b in FAIL.findall(out)]
                    if out.count('"FAIL"') != len(found):
                        raise Machinery('unreadable verdict of TLC:\n' + out[-2000:])
                    bad += found
                    if rc == 0 and 'No error has been found' in out and m:
                        g, d = map(int, m[-1])
                        if d != len(flat) - off + 1:
                            print(out[-3500:])
                            raise Machinery(f'TLC consumed {d - 1} of {len(flat) - off} events of {module}')
                        return flat, G + g, D + d, bad
                    at = re.findall(r'^(?:/\\ )?l = (\d+)$', out, re.M)
                    if stateful or rc in (124, 137) or 'OutOfMemory' in out or not at or not UNFIT.search(out) or len(bad) > 400:
                        keep = os.path.join(tempfile.gettempdir(), f'vp-failed-{self.prop}.ndjson')
                        shutil.copy(path, keep)
                        print(out[-3500:])
                        raise Machinery(f'TLC could not judge the events of {module} (exit {rc}); kept in {keep}')
                    # an answer so unlike what is specified that the clauses cannot be evaluated on it
                    n = int(at[-1])
                    if os.environ.get('VP_DEBUG'):
                        print(out[-2500:])
                    bad.append((off + n, ['malformed']))
                    G, D, off = G + n, D + n, off + n
                    if off >= len(flat):
                        return flat, G, D, bad
            with ThreadPoolExecutor(NPROC) as pool:
                results = list(pool.map(one, range(len(parts))))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        fails = []
        for flat, g, d, bad in results:
            self.states += d
            self.transitions += g
            self.validated += len(flat)
            for e in flat:
                self.classes[f"{module}:{e.get('k', 'event')}" + (f":{e['_class']}" if '_class' in e else '')] += 1
            fails += [(module, cfg, flat[i - 1], cl) for i, cl in bad]
        if len(self.samples) < 6:
            self.samples += [short(e) for e in results[0][0][:2]]
        self.failures += fails
        if corrupt is not None and not fails:
            self._control(module, cfg, events, corrupt)
        return fails

    def _control(self, module, cfg, events, corrupt):
        """negative control: events with one corrupted field have to be rejected"""
        bad = []
        for e in events[:400]:
            c = corrupt(copy.deepcopy(e))
            if c is not None:
                bad.append(c)
        if not bad:
            return
        keep = self.failures, self.states, self.transitions, self.validated, self.classes.copy(), list(self.samples)
        self.failures = []
        f = self.judge(module, bad, cfg=cfg)
        n = len(f)
        self.failures, self.states, self.transitions, self.validated, self.classes, self.samples = keep
        self.notes.setdefault('negative_controls', {})[module] = dict(corrupted=len(bad), rejected=n)
        if n < len(bad):
            print(f'note: {len(bad) - n} of {len(bad)} corrupted events of {module} were accepted')

    # -- the verdict
    def finish(self):
        known = load_known(self.prop)
        kf = os.path.join(HERE, 'replay')
        new = []
        seen = set()
        for module, cfg, e, clauses in self.failures:
            k = next((k for k in known if all(str(e.get('key', '')) == k['key'] for _ in [0]) and set(clauses) <= set(k['clauses'])), None)
            if k is not None:
                if k['key'] not in seen:
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                    seen.add(k['key'])
            else:
                new.append((module, cfg, e, clauses))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   models=self.models, event_classes=dict(self.classes), samples=self.samples[:6] or ['-'], **self.notes)
        ev = dict(property=self.prop, tier='thorough' if thorough() else 'quick', seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            os.makedirs(kf, exist_ok=True)
            by = collections.Counter(c for *_, cl in new for c in cl)
            print(f'{len(new)} events rejected; clauses: {dict(by)}')
            shown = set()
            for n, (module, cfg, e, clauses) in enumerate(new):
                sig = (module, tuple(clauses), e.get('k'))
                if sig in shown or len(shown) >= 6:
                    continue
                shown.add(sig)
                path = os.path.join(kf, f'{self.prop}_{len(shown)}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, module=module, cfg=cfg, clauses=clauses, event=e), f, indent=1, default=str)
                print(f'VIOLATION property={self.prop} replay={path}')
                print('   clauses', clauses, 'event', short(e))
            sys.exit(1)
        print(f'{self.prop}: held on {self.validated} recorded executions ({self.states} states, '
              f'{time.time() - self.t0:.1f}s)')
        sys.exit(0)


def plain(x):
    """numpy scalars as Python's"""
    if hasattr(x, 'item'):
        return x.item()
    raise TypeError(type(x).__name__)


def short(e, n=700):
    s = json.dumps(e, default=str)
    return s if len(s) <= n else s[:n] + '...'


def load_known(prop):
    try:
        data = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except OSError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop]


def main(fn):
    """run a check; only verdicts end with 0 or 1"""
    try:
        ensure_built()
        fn()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        text = traceback.format_exc()
        print(text[-3000:])
        # the deepest frame of ours or of the code under test tells whose failure it is
        frames = re.findall(r'File "([^"]*)", line', text)
        own = [f for f in frames if f.startswith((REPO + '/', HERE + '/'))]
        if isinstance(e, Crash) or own and own[-1].startswith(REPO + '/') and not isinstance(e, (Machinery, KeyboardInterrupt, MemoryError)):
            prop = os.path.basename(sys.argv[0]).split('.')[0]
            os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
            path = os.path.join(HERE, 'replay', f'{prop}_crash.txt')
            open(path, 'w').write(text)
            print('the code under test crashed or raised where the specification has it answer')
            print(f'VIOLATION property={prop} replay={path}')
            sys.exit(1)
        print('machinery failure:', e)
        sys.exit(2)
