"""
Case scheduler of all checks.

  python -m vlib.harness CNN quick|thorough         run the check of property CNN
  python -m vlib.harness CNN replay FILE            run the case recorded in a replay file again

A check is a module checks/cNN.py with CHECK = Check(...). Its cases are numbered; case k of seed s is
driven by Random(f'{pid}:{s}:{k}') only, so any verdict can be reproduced. Cases run in forked workers.
Exit status: 0 held, 1 violated (VIOLATION line), 2 no verdict (a monitor was not reached, or the
environment failed).
"""
import contextlib
import errno
import faulthandler
import hashlib
import importlib
import io
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('PYULOG_REPO', '/repo'))
WORKERS = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
CASE_CPU_S = 40                     # CPU time of one step of a case; normal steps need milliseconds
MEMORY_LIMIT = 6 << 30
WATCHDOG_S = {'quick': 780, 'thorough': 6 * 3600}


class Violation(Exception):
    """The property does not hold in the observed execution."""


class Inconclusive(Exception):
    """The environment kept the monitor from deciding."""


class CpuExceeded(BaseException):
    """A step used far more CPU time than any terminating execution needs."""


class Ctx:
    """What a case may use: randomness, scratch space, counters, captured output."""

    def __init__(self, check, seed, idx, tier, scratch):
        self.check, self.seed, self.idx, self.tier = check, seed, idx, tier
        self.rng = random.Random(f'{check.pid}:{seed}:{idx}')
        self.counters = {}
        self.samples = []
        self.keys = set()
        self.scratch = scratch
        self.n_dirs = 0
        self.thorough = tier == 'thorough'

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self, *parts):
        """Record one non-trivial execution by its identity."""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            h.update(p if isinstance(p, (bytes, bytearray)) else repr(p).encode('utf-8', 'replace'))
            h.update(b'\0')
        self.keys.add(h.digest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(f'case {self.idx}: {text}'[:1500])

    def dir(self):
        """A fresh scratch directory."""
        self.n_dirs += 1
        path = os.path.join(self.scratch, f'{self.idx}_{self.n_dirs}')
        os.mkdir(path)
        return path

    def tick(self):
        """Start the CPU budget of the next step."""
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)

    @contextlib.contextmanager
    def capture(self):
        """Standard output of the code under test."""
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            yield buf

    def fail(self, message):
        raise Violation(message)

    def expect(self, cond, message):
        if not cond:
            raise Violation(message() if callable(message) else message)

    def no_diff(self, lines, what):
        if lines:
            raise Violation(what + ': ' + '; '.join(lines[:4]))


class Check:
    """
    pid, case(ctx), number of cases per tier, the counters that have to be reached, directed probes
    [(id, function(ctx))] which raise Violation when the defect they look for is there.
    """

    def __init__(self, pid, case, quick, thorough, rule, required=(), probes=(), assumptions=(),
                 level='exploration', setup=None, preload=False):
        self.pid, self.case = pid, case
        self.cases = {'quick': quick, 'thorough': thorough}
        self.rule = rule
        self.required = list(required)
        self.probes = list(probes)
        self.assumptions = list(assumptions)
        self.level = level
        self.setup = setup
        self.preload = preload      # needs the fault library


def setup_import():
    """Make sure that pyulog comes from the tree under test, and from its sources."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-such-pycache', str(os.getpid()))
    sys.path[:] = [p for p in sys.path if p not in (REPO, '')]
    sys.path.insert(0, REPO)
    import pyulog
    where = os.path.abspath(pyulog.__file__)
    if not where.startswith(REPO + os.sep):
        raise Inconclusive(f'pyulog was imported from {where}, not from {REPO}')


def known_findings():
    """Probe ids listed in known_findings.txt: {(pid, probe): text}"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: property='):
                    pid, probe, text = line[len('known: property='):].strip().split(' ', 2)
                    out[(pid, probe.split('=', 1)[1])] = text
    return out


def _cpu_handler(signum, frame):
    raise CpuExceeded()


def _memory_peak():
    with open('/proc/self/status', encoding='ascii') as f:
        for line in f:
            if line.startswith('VmPeak:'):
                return int(line.split()[1]) << 10
    return 0


def guarded(func, ctx):
    """
    Run a case or probe. -> None, ('violation', text) or ('inconclusive', text)
    """
    from .monfile import BudgetExceeded
    signal.signal(signal.SIGPROF, _cpu_handler)
    ctx.tick()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            func(ctx)
        return None
    except Violation as exc:
        return ('violation', str(exc))
    except Inconclusive as exc:
        return ('inconclusive', str(exc))
    except BudgetExceeded as exc:
        return ('violation', f'does not terminate: {exc}')
    except CpuExceeded:
        return ('violation', f'does not terminate: a step took more than {CASE_CPU_S} s of CPU time\n' +
                traceback.format_exc(limit=-6))
    except MemoryError:
        if _memory_peak() > MEMORY_LIMIT * 0.5:
            return ('violation', f'needs more than {MEMORY_LIMIT >> 30} GB of memory\n' +
                    traceback.format_exc(limit=-6))
        return ('inconclusive', 'out of memory')
    except OSError as exc:
        if exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
            return ('inconclusive', f'environment: {exc}')
        return ('violation', 'unexpected error\n' + traceback.format_exc(limit=-8))
    except SystemExit:
        return ('violation', 'unexpected exit\n' + traceback.format_exc(limit=-8))
    except Exception:  # pylint: disable=broad-except
        return ('violation', 'unexpected error\n' + traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(check, seed, tier, indices, stop, out_path, scratch):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    os.mkdir(scratch)
    res = {'done': 0, 'counters': {}, 'samples': [], 'keys': set(), 'violations': [], 'inconclusive': []}
    for idx in indices:
        if stop[0]:
            break
        ctx = Ctx(check, seed, idx, tier, scratch)
        verdict = guarded(check.case, ctx)
        res['done'] += 1
        for k, v in ctx.counters.items():
            res['counters'][k] = res['counters'].get(k, 0) + v
        res['keys'] |= ctx.keys
        if len(res['samples']) < 2:
            res['samples'] += ctx.samples[:1]
        for name in os.listdir(scratch):
            shutil.rmtree(os.path.join(scratch, name), ignore_errors=True)
        if verdict is not None:
            kind, text = verdict
            if kind == 'violation':
                res['violations'].append((idx, text))
                stop[0] = 1
                break
            res['inconclusive'].append((idx, text))
            if len(res['inconclusive']) > 3:
                break
    with open(out_path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(out_path + '.tmp', out_path)


def run_cases(check, seed, tier, work):
    total = check.cases[tier]
    stop = mmap.mmap(-1, 1)
    pids = {}
    for w in range(WORKERS):
        out = os.path.join(work, f'result{w}')
        scratch = os.path.join(work, f'scratch{w}')
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                _worker(check, seed, tier, range(w, total, WORKERS), stop, out, scratch)
                code = 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = out
    deadline = time.monotonic() + WATCHDOG_S[tier]
    problems = []
    left = set(pids)
    while left:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in left:
            left.discard(pid)
            if status != 0:
                problems.append(f'worker ended with status {status}')
        elif pid == 0:
            if time.monotonic() > deadline:
                problems.append('watchdog: the run did not finish in time')
                for p in left:
                    with contextlib.suppress(OSError):
                        os.killpg(p, signal.SIGKILL)
                for p in left:
                    with contextlib.suppress(OSError):
                        os.waitpid(p, 0)
                break
            time.sleep(0.01)
    for p in pids:      # whatever the cases left running
        with contextlib.suppress(OSError):
            os.killpg(p, signal.SIGKILL)
    total_res = {'done': 0, 'counters': {}, 'samples': [], 'keys': set(), 'violations': [], 'inconclusive': []}
    for out in pids.values():
        if not os.path.exists(out):
            continue
        with open(out, 'rb') as f:
            res = pickle.load(f)
        total_res['done'] += res['done']
        total_res['keys'] |= res['keys']
        for k, v in res['counters'].items():
            total_res['counters'][k] = total_res['counters'].get(k, 0) + v
        for k in ('samples', 'violations', 'inconclusive'):
            total_res[k] += res[k]
    total_res['inconclusive'] += [(-1, p) for p in problems]
    return total_res


def write_replay(check, seed, tier, what, text):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{check.pid}_{seed}_{what}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': check.pid, 'seed': seed, 'tier': tier, 'what': what, 'violation': text}, f, indent=1)
    return path


def load_check(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + pid.lower()).CHECK


def prepare(pid, work):
    setup_import()
    check = load_check(pid)
    if check.preload:
        from . import faults
        try:
            if 'VERIF_FAULTLIB' not in os.environ:
                os.rmdir(work)      # the restarted process makes its own
            faults.preload()
        except (OSError, RuntimeError) as exc:
            raise Inconclusive(str(exc)) from exc
    if check.setup is not None:
        check.setup(work)
    return check


def run(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    code = 0
    violations = 0
    try:
        check = prepare(pid, work)
        # directed probes
        known = known_findings()
        probed, counters = 0, {}
        pscratch = os.path.join(work, 'probes')
        os.mkdir(pscratch)
        for k, (name, func) in enumerate(check.probes):
            ctx = Ctx(check, seed, 10_000_000 + k, tier, pscratch)
            verdict = guarded(func, ctx)
            probed += 1
            for key, v in ctx.counters.items():
                counters[key] = counters.get(key, 0) + v
            if verdict is None:
                continue
            kind, text = verdict
            if kind == 'inconclusive':
                print(f'INCONCLUSIVE property={pid} probe {name}: {text}')
                code = code or 2
            elif (pid, name) in known:
                print(f'KNOWN-FINDING: property={pid} {known[(pid, name)]}')
            else:
                violations += 1
                path = write_replay(check, seed, tier, f'probe-{name}', text)
                print(f'probe {name}: {text}')
                print(f'VIOLATION property={pid} replay={path}')
                code = 1
        res = run_cases(check, seed, tier, work)
        for idx, text in sorted(res['violations'])[:3]:
            violations += 1
            path = write_replay(check, seed, tier, str(idx), text)
            print(f'case {idx}: {text}')
            print(f'VIOLATION property={pid} replay={path}')
            code = 1
        for idx, text in res['inconclusive']:
            print(f'INCONCLUSIVE property={pid} case {idx}: {text}')
            code = code or 2
        for k, v in res['counters'].items():
            counters[k] = counters.get(k, 0) + v
        if code == 0:
            for name in check.required:
                if not counters.get(name):
                    print(f'INCONCLUSIVE property={pid} the monitor never observed "{name}"')
                    code = 2
        evidence = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': check.level,
            'coverage': {
                'evaluations': res['done'] + probed,
                'distinct_nontrivial': len(res['keys']),
                'rule': check.rule,
                'samples': res['samples'][:6] or ['none'],
                'directed_probes': probed,
                'observed': dict(sorted(counters.items())),
            },
            'assumptions': check.assumptions,
            'wall_s': round(time.monotonic() - t0, 2),
            'violations': violations,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{pid}.json')
        with open(path + '.tmp', 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
        os.replace(path + '.tmp', path)
        print(f'{pid} {tier}: {res["done"]} cases, {len(res["keys"])} distinct non-trivial, '
              f'{violations} violations, {time.monotonic() - t0:.1f} s')
    except Inconclusive as exc:
        print(f'INCONCLUSIVE property={pid} {exc}')
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def replay(pid, path):
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    work = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    try:
        check = prepare(pid, work)
        what = rec['what']
        if what.startswith('probe-'):
            func = dict(check.probes)[what[6:]]
            ctx = Ctx(check, rec['seed'], 0, rec['tier'], work)
        else:
            func = check.case
            ctx = Ctx(check, rec['seed'], int(what), rec['tier'], work)
        verdict = guarded(func, ctx)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(verdict)
    if verdict is None:
        return 0
    if verdict[0] == 'violation':
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 2


if __name__ == '__main__':
    faulthandler.enable()
    if len(sys.argv) > 3 and sys.argv[2] == 'replay':
        from vlib import harness
        sys.exit(harness.replay(sys.argv[1], sys.argv[3]))
    # the module that runs as __main__ and the one the checks import have to be the same
    from vlib import harness
    sys.exit(harness.run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'))
