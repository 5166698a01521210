"""Shared machinery of the checks: builds the extension from the repository's
working tree, imports the package against that build, enumerates cases in
forked workers and reports the outcome."""
import ctypes
import faulthandler
import glob
import importlib.abc
import importlib.machinery
import importlib.util
import json
import multiprocessing as mp
import multiprocessing.connection
import multiprocessing.sharedctypes
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'longitudinal_tomography')
CPP = os.path.join(PKG, 'cpp_routines')


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Known(Exception):
    """Defect identified by a key; reported quietly iff the key is listed."""

    def __init__(self, key, msg='', stats=None):
        super().__init__(f'{key}: {msg}')
        self.key = key
        self.stats = stats or {}


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
_scratch = None


def scratch():
    """Scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = os.environ.get('VERIF_SCRATCH')
        if not _scratch or not os.path.isdir(_scratch):
            _scratch = tempfile.mkdtemp(prefix='verif_')
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.basename(_scratch).startswith('verif_'):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def _includes():
    import pybind11
    return ['-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include'],
            '-I' + CPP]


VARIANTS = {
    # compile flags, link flags
    'normal': (['-O2', '-DNDEBUG', '-fwrapv', '-fopenmp', '-ffast-math'],
               ['-lgomp']),
    'asan': (['-O1', '-g', '-fno-omit-frame-pointer', '-fwrapv', '-fopenmp',
              '-ffast-math', '-fsanitize=address'],
             ['-fsanitize=address', '-lgomp']),
    'sched': (['-O1', '-g', '-fwrapv', '-fopenmp', '-ffast-math',
               '-fsanitize=thread'], ['-Wl,-Bsymbolic', '-lpthread']),
    'count': (['-O2', '-DNDEBUG', '-fwrapv', '-fopenmp', '-ffast-math'],
              ['-lgomp', '-Wl,-Bsymbolic']),
}


def build(variant='normal', extra_sources=()):
    """Compile the extension from the repository; returns the .so path."""
    cflags, lflags = VARIANTS[variant]
    out = os.path.join(scratch(), 'build_' + variant)
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, 'libtomo' + sysconfig.get_config_var('EXT_SUFFIX'))
    base = ['g++', '-std=c++17', '-fPIC', '-fvisibility=hidden', '-w']
    srcs = sorted(glob.glob(os.path.join(CPP, '*.cpp')))
    procs, objs = [], []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s) + '.o')
        procs.append((s, subprocess.Popen(base + cflags + _includes() + ['-c', s, '-o', o])))
        objs.append(o)
    for s, flags in extra_sources:
        o = os.path.join(out, os.path.basename(s) + '.x.o')
        procs.append((s, subprocess.Popen(base + list(flags) + ['-c', s, '-o', o])))
        objs.append(o)
    for s, p in procs:
        if p.wait() != 0:
            raise RuntimeError('cannot compile ' + s)
    subprocess.check_call(['g++', '-shared', '-o', so] + objs + lflags)
    return so


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    NAME = 'longitudinal_tomography.cpp_routines.libtomo'
    VER = 'longitudinal_tomography._version'

    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == self.NAME:
            return importlib.util.spec_from_file_location(
                name, self.so,
                loader=importlib.machinery.ExtensionFileLoader(name, self.so))
        if name == self.VER and not os.path.exists(os.path.join(PKG, '_version.py')):
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.version = '3.4.1'
        module.version_tuple = (3, 4, 1)


def load(so):
    """Make `import longitudinal_tomography` use REPO's sources and `so`."""
    if os.environ.get('VERIF_RTLD_GLOBAL'):
        sys.setdlopenflags(os.RTLD_NOW | os.RTLD_GLOBAL)
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch(), 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    os.environ['VERIF_SO'] = so
    sys.meta_path.insert(0, _Finder(so))
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import longitudinal_tomography
    assert os.path.realpath(longitudinal_tomography.__file__).startswith(os.path.realpath(REPO))
    from longitudinal_tomography.cpp_routines import libtomo
    assert libtomo.__file__ == so
    return libtomo


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(pid):
    res = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) >= 3 and w[0] == 'known:' and w[1] == 'property=' + pid \
                    and w[2].startswith('key='):
                res[w[2][4:]] = ' '.join(w[3:])
    return res


# --------------------------------------------------------------------------
# runner
# --------------------------------------------------------------------------
class Stats(dict):
    def add(self, **kw):
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v


class Shared:
    """Shared memory, one slot per worker: the case being run, when it began
    and how many cases it finished.  Single aligned 8-byte stores only."""

    def __init__(self, n):
        self.case = mp.sharedctypes.RawArray(ctypes.c_int64, n)
        self.t = mp.sharedctypes.RawArray(ctypes.c_double, n)
        self.done = mp.sharedctypes.RawArray(ctypes.c_int64, n)

    def set(self, w, case, t, done):
        self.case[w] = -1
        self.t[w] = t
        self.done[w] = done
        self.case[w] = case

    def get(self, w):
        return self.case[w], self.t[w], self.done[w]

    def hung(self, w, limit):
        i, t0, done = self.get(w)
        if i < 0 or time.time() - t0 <= limit:
            return False
        time.sleep(0.05)
        return self.get(w) == (i, t0, done)


def _worker(w, lock, nxt, stop, conn, sh, cases, run_case, init, chunk, deadline):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        faulthandler.enable()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if init:
            init()
        done = 0
        stats = Stats()
        known = {}
        n = len(cases)
        while not stop.value and time.time() < deadline:
            with lock:
                a = nxt.value
                nxt.value = a + chunk
            if a >= n:
                break
            for i in range(a, min(n, a + chunk)):
                if stop.value or time.time() > deadline:
                    break
                sh.set(w, i, time.time(), done)
                try:
                    r = run_case(cases[i])
                    if r:
                        stats.add(**r)
                except Known as e:
                    known.setdefault(e.key, (i, str(e)))
                    stats.add(known_hits=1, **e.stats)
                except Violation as e:
                    conn.send(('violation', i, str(e)))
                except BaseException:
                    conn.send(('violation', i, 'unexpected exception:\n'
                               + traceback.format_exc()))
                done += 1
                sh.set(w, -1, time.time(), done)
        conn.send(('done', done, dict(stats), known))
    except BaseException:
        try:
            conn.send(('error', -1, traceback.format_exc()))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


class Result:
    def __init__(self):
        self.violations = []
        self.known = {}
        self.stats = Stats()
        self.done = 0
        self.total = 0
        self.errors = []


def enumerate_cases(cases, run_case, init=None, workers=None, chunk=None,
                    case_timeout=120, deadline=None, max_violations=3, result=None):
    """Run every case; crashes and hangs of a worker count as violations."""
    res = result or Result()
    cases = list(cases)
    res.total += len(cases)
    if not cases:
        return res
    if workers is None:
        workers = int(os.environ.get('VERIF_WORKERS', 0)) or min(8, os.cpu_count() or 1)
    workers = max(1, min(workers, len(cases)))
    chunk = chunk or max(1, min(64, len(cases) // (workers * 16) or 1))
    deadline = deadline or (time.time() + 1e9)
    ctx = mp.get_context('fork')
    lock, nxt, stop = ctx.Lock(), ctx.Value('q', 0, lock=False), ctx.Value('b', 0, lock=False)
    sh = Shared(workers + 64)
    procs = []

    def start(w):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(w, lock, nxt, stop, s, sh, cases, run_case,
                                              init, chunk, deadline), daemon=True)
        p.start()
        s.close()
        return [w, p, r, False]

    for w in range(workers):
        sh.set(w, -1, time.time(), 0)
        procs.append(start(w))
    nextw = workers

    def violation(i, msg):
        res.violations.append((cases[i] if i >= 0 else None, msg))
        if len(res.violations) >= max_violations:
            stop.value = 1

    pending = list(procs)
    while pending:
        mp.connection.wait([p[2] for p in pending] + [p[1].sentinel for p in pending], timeout=1.0)
        for ent in list(pending):
            w, p, r, finished = ent
            # asked before reading: all a worker has sent before it ended is then in the pipe
            alive = p.is_alive()
            try:
                while r.poll():
                    m = r.recv()
                    if m[0] == 'violation':
                        violation(m[1], m[2])
                    elif m[0] == 'done':
                        ent[3] = True
                        res.done += m[1]
                        res.stats.add(**m[2])
                        for k, v in m[3].items():
                            res.known.setdefault(k, (cases[v[0]], v[1]))
                    elif m[0] == 'error':
                        ent[3] = True
                        res.errors.append(m[2])
                        stop.value = 1
            except (EOFError, OSError):
                pass
            if not alive:
                p.join()
                pending.remove(ent)
                if not ent[3]:
                    i, t0, done = sh.get(w)
                    res.done += done
                    # the lock may have been held by the dead worker: only
                    # possible between cases, which cannot crash
                    violation(i, f'worker ended with code {p.exitcode} '
                                 f'(crash of the code under test)')
                    if not stop.value and nextw < workers + 60:
                        sh.set(nextw, -1, time.time(), 0)
                        pending.append(start(nextw))
                        nextw += 1
                continue
            i, t0, done = sh.get(w)
            if sh.hung(w, case_timeout):
                p.kill()
                p.join()
                pending.remove(ent)
                res.done += done
                violation(i, f'no answer within {case_timeout} s (hang)')
                if not stop.value and nextw < workers + 60:
                    sh.set(nextw, -1, time.time(), 0)
                    pending.append(start(nextw))
                    nextw += 1
    return res


class Check:
    """One property's check."""

    def __init__(self, pid, assumptions=(), variant='normal', quick_budget=600,
                 thorough_budget=6 * 3600):
        self.pid = pid
        self.t0 = time.time()
        args = sys.argv[1:]
        self.tier = args[0] if args and args[0] in ('quick', 'thorough') else \
            os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.replay = args[args.index('--replay') + 1] if '--replay' in args else None
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.assumptions = list(assumptions)
        self.deadline = self.t0 + (thorough_budget if self.thorough else quick_budget)
        self.result = Result()
        self.samples = []
        self.parts = {}
        self.variant = variant
        self.exhaustive = True
        self.replay_done = False

    def part(self, name, cases, run_case, **kw):
        """Enumerate one family of cases."""
        if self.replay:
            rep = json.load(open(self.replay))
            if rep['part'] == name:
                self.replay_done = True
                try:
                    run_case(rep['case'])
                except Violation as e:
                    print('VIOLATION (replayed):', e)
                    self.result.violations.append((name, rep['case'], str(e)))
                except Known as e:
                    print('known finding (replayed):', e)
            return
        if self.result.violations and any(True for _ in self.result.violations):
            return
        t = time.time()
        r = enumerate_cases(cases, run_case, deadline=self.deadline, **kw)
        n = r.total
        if r.errors:
            raise RuntimeError('harness error:\n' + r.errors[0])
        self.result.violations += [(name, c, m) for c, m in r.violations]
        for k, v in r.known.items():
            self.result.known.setdefault(k, v)
        self.result.stats.add(**r.stats)
        self.result.done += r.done
        self.result.total += n
        if r.done < n:
            self.exhaustive = False
        self.parts[name] = dict(cases=n, done=r.done, wall_s=round(time.time() - t, 2),
                                **{k: v for k, v in r.stats.items()})
        cl = cases if isinstance(cases, list) else None
        if cl:
            self.samples.append({name: cl[len(cl) // 2]})

    def direct(self, name, case, msg):
        """Record a violation found outside `part`."""
        self.result.violations.append((name, case, msg))

    def finish(self):
        kf = known_findings(self.pid)
        viol = list(self.result.violations)
        if self.replay:
            cleanup()
            sys.exit(1 if viol else 0)
        known_lines = []
        for k, (case, msg) in sorted(self.result.known.items()):
            if k in kf:
                known_lines.append(f'KNOWN-FINDING: property={self.pid} {kf[k]} [{k}]')
            else:
                viol.append(('known', case, 'defect not listed in KNOWN_FINDINGS: ' + msg))
        st = self.result.stats
        cov = dict(states=int(st.pop('states', self.result.done)),
                   transitions=int(st.pop('transitions', 0)),
                   traces_validated_against_impl=int(st.pop('traces', self.result.done)),
                   cases_enumerated=self.result.total, cases_done=self.result.done,
                   exhaustive=bool(self.exhaustive and not viol),
                   parts=self.parts, samples=self.samples[:12],
                   **{k: v for k, v in st.items()})
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        tmp = os.path.join(ROOT, 'evidence', f'.{self.pid}.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ROOT, 'evidence', f'{self.pid}.json'))
        for line in known_lines:
            print(line)
        print(f'{self.pid} {self.tier}: {self.result.done}/{self.result.total} cases, '
              f'states={cov["states"]} transitions={cov["transitions"]} '
              f'traces={cov["traces_validated_against_impl"]} '
              f'exhaustive={cov["exhaustive"]} wall={ev["wall_s"]}s')
        for k, v in self.parts.items():
            print('   ', k, v)
        cleanup()
        if viol:
            d = os.path.join(ROOT, 'replays')
            os.makedirs(d, exist_ok=True)
            for n, (part, case, msg) in enumerate(viol[:5]):
                path = os.path.join(d, f'{self.pid}_{self.tier}_{n}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, part=part, case=case, message=msg,
                                   how=f'./run.sh {self.pid} {self.tier} --replay {path}'),
                              f, indent=1, default=str)
                print(f'--- {part}: {json.dumps(case, default=str)[:600]}\n{msg[:3000]}')
                print(f'VIOLATION property={self.pid} replay={path}')
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)


def main(body, pid, variant='normal', extra_sources=(), **kw):
    """Build, load, run `body(check, libtomo)`, report."""
    c = Check(pid, variant=variant, **kw)
    try:
        if variant == 'asan' and 'VERIF_ASAN_CHILD' not in os.environ:
            so = build(variant, extra_sources)
            # libstdc++ too: the interceptor of __cxa_throw must find the real one
            lib = ':'.join(subprocess.check_output(['g++', '-print-file-name=' + n], text=True).strip()
                           for n in ('libasan.so', 'libstdc++.so.6'))
            env = dict(os.environ, VERIF_ASAN_CHILD=so, LD_PRELOAD=lib, PYTHONMALLOC='malloc',
                       VERIF_SCRATCH=scratch(), VERIF_T0=str(c.t0),
                       ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
                                    'detect_stack_use_after_return=0:handle_segv=1')
            os.execve(sys.executable, [sys.executable] + sys.argv, env)
        if variant == 'asan':
            so = os.environ['VERIF_ASAN_CHILD']
            c.t0 = float(os.environ['VERIF_T0'])
        else:
            so = build(variant, extra_sources)
        lib = load(so)
        body(c, lib)
        c.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        cleanup()
        sys.exit(3)
