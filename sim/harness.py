"""Runs a check: generates scenarios from a seed, runs each in the simulator (in several worker processes), minimises and
saves the first violation, and writes the evidence.

A check is a module with
    PID, LEVEL, RULE          the property's id, the level and a description of its cases
    COUNT = {tier: n}         how many scenarios (a wall limit stops earlier)
    gen(rng, ctx, i) -> scn   the i-th scenario (JSON-able). Everything that's decided at random is decided here, the
                              interleavings aside (which the world draws from scn['seed'], unless scn['schedules'] is
                              given). May run simulations of its own (through ctx), to place faults.
    run(scn, ctx)             raises Violation. May call ctx.nontrivial().
    shrink(scn)               yields simpler scenarios (optional)
"""

import copy
import hashlib
import json
import os
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import traceback

from . import core
from .rng import Rng, mix

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_time = core.real_time['monotonic']
_open = core.real_open

ASSUMPTIONS = [
    'the simulated disk follows the rules of a POSIX file system: rename is atomic, fsync makes the content of a file '
    'durable, directory operations become durable in order',
    'the latex compiler is a stub that accepts any complete document (no latex here)',
    'the interpreter, mpmath, sympy, numpy, scipy and dill are right',
]
REAL = ['main', 'enum_params', 'enum_poly_params', 'cont_fracs', 'basic_representation_types', 'decimal_hashtable',
        'lhs_evaluators', 'postprocfuncs', 'gen_consts', 'configfile', 'latex', 'utils', 'distribute_run',
        'join_hashtables', 'run_distributed_configs', 'fix_hashtable_filter_init_b_root',
        'mpmath, sympy, numpy, scipy, dill, pylatex, progressbar2, configparser, csv (unmodified)']
STUBS = ['disk (a scratch directory behind the simulator, with its own page-cache and crash model)', 'clock',
         'latexmk/pdflatex', 'process start/exit/kill', 'terminal', 'cmd.exe launcher', 'os.urandom, pid']


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls, self.msg = cls, msg


class WallLimit(BaseException):
    pass


class Ctx:
    """What a scenario is given: worlds, and where to report."""
    def __init__(self, base, tier='quick', keep_trace=False):
        self.base, self.tier, self.keep_trace = base, tier, keep_trace
        self.cache = {}
        self.reset(None)

    def reset(self, scn):
        for w in getattr(self, 'worlds', {}).values():
            shutil.rmtree(w.root, ignore_errors=True)
        self.scn = scn
        self.worlds = {}
        self._nontrivial = False
        self.extra = {}

    def world(self, name='main', preempt=0.0, record_points=False, scn=None, max_steps=400000, like=None):
        # like - the name of the world whose environment (buffer sizes, clock, orders of listings) it shares
        scn = self.scn if scn is None else scn
        sched = scn.get('schedules')
        if sched is not None:
            sched = sched.get(name, {})
        root = tempfile.mkdtemp(prefix='w', dir=self.base)
        w = core.World(root, mix(scn['seed'], like or name), schedule=sched, preempt=preempt, record_points=record_points,
                       keep_trace=self.keep_trace, max_steps=max_steps)
        w.name = name
        k, base = 1, name
        while name in self.worlds:
            k += 1
            name = '%s#%d' % (base, k)
        self.worlds[name] = w
        return w

    def drop(self, w):
        """The world isn't a part of the scenario (its faults and so on aren't counted)."""
        for k, v in list(self.worlds.items()):
            if v is w:
                del self.worlds[k]
        shutil.rmtree(w.root, ignore_errors=True)

    def nontrivial(self):
        self._nontrivial = True

    def count(self, what, k=1):
        self.extra[what] = self.extra.get(what, 0) + k

    def digest(self):
        h = hashlib.sha256()
        for name in sorted(self.worlds):
            h.update(self.worlds[name].hexdigest().encode())
        for k in sorted(self.extra):
            h.update(('%s=%s' % (k, self.extra[k])).encode())
        return h.hexdigest()[:16]

    def recorded(self):
        return {n: w.schedule if w.replay_schedule is None else w.replay_schedule for n, w in self.worlds.items()}

    def stats(self):
        fired, probes = {}, {}
        for w in self.worlds.values():
            for k, v in w.fired.items():
                fired[k] = fired.get(k, 0) + v
            for k, v in w.probes.items():
                probes[k] = probes.get(k, 0) + v
        for k, v in self.extra.items():
            probes[k] = probes.get(k, 0) + v
        return {'steps': sum(w.steps for w in self.worlds.values()),
                'switches': sum(w.switches for w in self.worlds.values()),
                'nodes': sum(len(w.nodes) for w in self.worlds.values()),
                'simtime': sum(w.wall - w.t0 for w in self.worlds.values()
                               if 0 <= w.wall - w.t0 < 1e7), 'fired': fired, 'probes': probes,
                'digest': self.digest(), 'nontrivial': self._nontrivial}


def _alarm(signum, frame):
    raise WallLimit()


def attempt(check, scn, ctx, limit=150, generate=None):
    """Runs a scenario. -> (scn, violation or None, stats). generate - a function that makes the scenario first."""
    ctx.reset(scn)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    viol = None
    if scn.get('regenerate'):
        # (it fails before the scenario is complete)
        seed, i = scn['regenerate']

        def generate():
            return make_scenario(check, seed, i, ctx)
    try:
        try:
            if generate is not None:
                scn = generate()
                ctx.reset(scn)
            check.run(scn, ctx)
        except Violation as v:
            viol = v
        except core.StepLimit as e:
            viol = Violation('no-progress', str(e))
        except WallLimit:
            viol = Violation('hang', 'the scenario takes more than %d s (usually it takes about a second)' % limit)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.settrace(None)
        sys.stdout, sys.stderr = core.real_stdout, core.real_stderr
        core.WORLD = None
        for n in core.REPO_NAMES:
            sys.modules.pop(n, None)
        os.chdir(VERIF)
    return scn, viol, ctx.stats()


# ---------------------------------------------------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------------------------------------------------

def scenario_rng(check, seed, i):
    return Rng(seed, check.PID, i)


def make_scenario(check, seed, i, ctx):
    ctx.reset({'seed': mix(seed, check.PID, i)})
    scn = check.gen(scenario_rng(check, seed, i), ctx, i)
    scn.setdefault('seed', mix(seed, check.PID, i))
    scn['index'] = i
    return scn


def run_index(check, seed, i, ctx, limit=150):
    t = _time()
    try:
        scn, viol, st = attempt(check, {'seed': mix(seed, check.PID, i), 'regenerate': [seed, i]}, ctx, limit)
    except BaseException as e:
        return {'i': i, 'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
    res = {'i': i, 'stats': st, 'wall': _time() - t, 'kind': scn.get('kind', '')}
    if viol is not None:
        res['violation'] = [viol.cls, viol.msg]
        scn = copy.deepcopy(scn)
        if not scn.get('regenerate'):
            scn.setdefault('schedules', ctx.recorded())
        res['scn'] = scn
    elif i < 12:
        res['scn'] = scn
    return res


def _send(sock, obj):
    data = json.dumps(obj).encode()
    sock.sendall(struct.pack('>I', len(data)) + data)


def _recv(sock):
    hdr = b''
    while len(hdr) < 4:
        c = sock.recv(4 - len(hdr))
        if not c:
            return None
        hdr += c
    n = struct.unpack('>I', hdr)[0]
    chunks = []
    while n:
        c = sock.recv(min(n, 1 << 16))
        if not c:
            return None
        chunks.append(c)
        n -= len(c)
    return json.loads(b''.join(chunks).decode())


def scratch_base():
    for d in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='vsim', dir=d)
        except OSError:
            continue


def _worker(check, seed, sock, base, tier):
    ctx = Ctx(base, tier)
    while True:
        i = _recv(sock)
        if i is None:
            break
        _send(sock, run_index(check, seed, i, ctx))


def batch(check, seed, tier, indices, wall, workers, log, stop_at_violation=True):
    """Runs the scenarios of the given indices. -> the results."""
    base = scratch_base()
    procs, results = [], []
    todo = iter(indices)
    t0 = _time()
    try:
        for k in range(workers):
            a, b = socket.socketpair()
            wbase = os.path.join(base, str(k))
            os.mkdir(wbase)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    a.close()
                    for _, s in procs:
                        s.close()
                    _worker(check, seed, b, wbase, tier)
                    code = 0
                except BaseException:
                    traceback.print_exc(file=core.real_stderr)
                finally:
                    core.real_stdout.flush()
                    core.real_stderr.flush()
                    os._exit(code)
            b.close()
            procs.append((pid, a))
        busy = {}
        by_sock = {s: pid for pid, s in procs}

        def feed(s):
            if stop[0] or _time() - t0 > wall:
                return
            try:
                i = next(todo)
            except StopIteration:
                return
            _send(s, i)
            busy[s] = i
        stop = [False]
        for _, s in procs:
            feed(s)
        while busy:
            r, _, _ = select.select(list(busy), [], [], 5)
            for s in r:
                try:
                    res = _recv(s)
                except OSError:
                    res = None
                i = busy.pop(s)
                if res is None:
                    results.append({'i': i, 'error': 'the worker died'})
                    by_sock.pop(s, None)
                    stop[0] = True
                    continue
                results.append(res)
                if 'violation' in res and stop_at_violation:
                    stop[0] = True
                if 'error' in res:
                    stop[0] = True
                feed(s)
    finally:
        for pid, s in procs:
            s.close()
        for pid, s in procs:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)
    results.sort(key=lambda r: r['i'])
    return results, _time() - t0


# ---------------------------------------------------------------------------------------------------------------------
# minimising and replaying
# ---------------------------------------------------------------------------------------------------------------------

def _generic_shrinks(scn):
    sch = scn.get('schedules') or {}
    if any(sch.values()):
        s = copy.deepcopy(scn)
        s['schedules'] = {}
        yield s
        for name in sch:
            keys = sorted(sch[name], key=lambda k: (int(k.rstrip('e')), k))
            n = len(keys)
            size = n
            while size >= 1:
                size = (size + 1) // 2 if size > 1 else 0
                if not size:
                    break
                for st in range(0, n, size):
                    s = copy.deepcopy(scn)
                    for k in keys[st:st + size]:
                        s['schedules'][name].pop(k, None)
                    yield s
                if size == 1:
                    break
    for key in ('faults', 'ops'):
        items = scn.get(key) or []
        n = len(items)
        size = n
        while size >= 1:
            for st in range(0, n, size):
                s = copy.deepcopy(scn)
                del s[key][st:st + size]
                yield s
            size //= 2
    for k, f in enumerate(scn.get('faults') or []):
        for drop in ('partial', 'sticky', 'stop_kinds'):
            if f.get(drop):
                s = copy.deepcopy(scn)
                s['faults'][k].pop(drop)
                yield s


def minimise(check, scn, cls, ctx, wall):
    """Greedy: takes the first simpler scenario that violates in the same way, again and again."""
    t0 = _time()
    tried = accepted = 0
    seen = set()
    progress = True
    while progress and _time() - t0 < wall:
        progress = False
        if scn.get('regenerate'):
            break
        cands = [_generic_shrinks(scn)]
        if hasattr(check, 'shrink'):
            cands.append(check.shrink(copy.deepcopy(scn)))
        for it in cands:
            for s in it:
                if _time() - t0 > wall:
                    break
                key = json.dumps(s, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                tried += 1
                try:
                    s2, v, st = attempt(check, copy.deepcopy(s), ctx, 60)
                except Exception:
                    continue
                if v is not None and v.cls == cls:
                    scn = s
                    accepted += 1
                    progress = True
                    break
            if progress:
                break
    return scn, tried, accepted


def replay_file(check, path, out=None):
    """-> (violation or None, digest, the recorded digest)"""
    with _open(path) as f:
        rec = json.load(f)
    base = scratch_base()
    try:
        ctx = Ctx(base, rec.get('tier', 'quick'), keep_trace=True)
        scn, v, st = attempt(check, rec['scenario'], ctx, 200)
        trace = {n: w.trace for n, w in ctx.worlds.items()}
        outputs = {n: [(x.name, (x.result or ('?',))[:3], x.text()[-1500:]) for x in w.nodes]
                   for n, w in ctx.worlds.items()}
        ctx.reset(None)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return v, st['digest'], rec, trace, outputs


def report_violation(check, seed, tier, res, wall, log, keep_path=None):
    """Minimises, saves the replay file, and confirms it in a fresh process. -> path"""
    scn = res['scn']
    cls, msg = res['violation']
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    path = keep_path or os.path.join(VERIF, 'evidence', 'replays', '%s-%s-%s.json' % (check.PID, cls, seed))
    base = scratch_base()
    pid_ok = True
    try:
        ctx = Ctx(base, tier, keep_trace=True)
        orig = copy.deepcopy(scn)
        s, v, st = attempt(check, copy.deepcopy(scn), ctx, 180)
        if v is None and cls == 'hang':
            return None
        if v is None:
            log('(the violation of scenario %d did not reproduce with its recorded schedule: %s)' % (res['i'], msg))
            scn.pop('schedules', None)
            s, v, st = attempt(check, copy.deepcopy(scn), ctx, 180)
        tried = accepted = 0
        if v is not None and cls != 'hang':
            scn, tried, accepted = minimise(check, scn, v.cls, ctx, wall)
            s, v, st = attempt(check, copy.deepcopy(scn), ctx, 180)
        if v is None:
            return None
        trace = {}
        for n, w in ctx.worlds.items():
            trace[n] = w.trace[-4000:]
        rec = {'property': check.PID, 'class': v.cls, 'message': v.msg, 'seed': seed, 'tier': tier,
               'scenario': scn, 'digest': st['digest'], 'original_scenario': orig,
               'minimised': {'tried': tried, 'accepted': accepted}, 'faults_fired': st['fired'], 'trace': trace,
               'replay': './check %s --replay %s' % (check.PID, path)}
        with _open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        ctx.reset(None)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return path


def run_check(check, seed, tier, workers=None, wall=None, count=None, log=None, first=0):
    t0 = _time()
    log = log or (lambda s: print(s, flush=True))
    workers = workers or min(8, os.cpu_count() or 1)
    count = count or check.COUNT[tier]
    wall = wall or {'quick': 150, 'thorough': 1500}[tier]
    log('%s %s seed=%d scenarios<=%d workers=%d' % (check.PID, tier, seed, count, workers))
    core.install()
    import scipy.stats, sympy, pylatex, mpmath, dill  # (loaded once, before the workers are forked)
    results, elapsed = batch(check, seed, tier, range(first, first + count), wall, workers, log)
    errors = [r for r in results if 'error' in r]
    viols = [r for r in results if 'violation' in r]
    ok = [r for r in results if 'stats' in r]
    slow = sorted(((r.get('wall', 0), r['i']) for r in results), reverse=True)[:3]
    log('the slowest scenarios: %s' % ', '.join('%d (%.1f s)' % (i, w) for w, i in slow))
    evidence = make_evidence(check, seed, tier, ok, viols, elapsed, workers, t0)
    path = None
    if viols:
        for r in viols:
            path = report_violation(check, seed, tier, r, 45 if tier == 'quick' else 240, log)
            if path:
                log('violation in scenario %d: %s: %s' % (r['i'], r['violation'][0], r['violation'][1][:600]))
                break
            log('a violation of scenario %d could not be reproduced: %s' % (r['i'], r['violation']))
    evidence['violations'] = len(viols)
    evidence['wall_s'] = round(_time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with _open(os.path.join(VERIF, 'evidence', '%s.json' % check.PID), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    c = evidence['coverage']
    log('%s: %d runs (%d distinct, %d non-trivial) in %.1f s, %d steps, %d switches, faults %s' % (
        check.PID, c['evaluations'], c['distinct_traces'], c['distinct_nontrivial'], elapsed, c['simulated_steps'],
        c['task_switches'], json.dumps(c['faults_injected'], sort_keys=True)))
    if path:
        log('VIOLATION property=%s replay=%s' % (check.PID, path))
        return 1
    if errors:
        log('the harness failed in scenario %d:\n%s' % (errors[0]['i'], errors[0]['error']))
        return 2
    if viols:
        return 2
    if not ok:
        log('nothing was run')
        return 2
    return 0


def make_evidence(check, seed, tier, ok, viols, elapsed, workers, t0):
    fired, probes, kinds = {}, {}, {}
    for r in ok:
        for src, dst in ((r['stats']['fired'], fired), (r['stats']['probes'], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
    digests = {r['stats']['digest'] for r in ok}
    nontriv = {r['stats']['digest'] for r in ok if r['stats']['nontrivial']}
    hours = max(elapsed, 0.001) / 3600.0
    return {'property': check.PID, 'tier': tier, 'seed': seed, 'level': check.LEVEL,
            'coverage': {'evaluations': len(ok), 'distinct_nontrivial': len(nontriv), 'rule': check.RULE,
                         'samples': [r['scn'] for r in ok if 'scn' in r][:4],
                         'distinct_traces': len(digests), 'scenario_kinds': kinds,
                         'runs_per_hour_each_with_a_seed_of_its_own': int(len(ok) / hours),
                         'simulated_processes': sum(r['stats']['nodes'] for r in ok),
                         'simulated_steps': sum(r['stats']['steps'] for r in ok),
                         'simulated_hours': round(sum(r['stats']['simtime'] for r in ok) / 3600.0, 3),
                         'task_switches': sum(r['stats']['switches'] for r in ok),
                         'faults_injected': fired, 'probes': probes,
                         'interleaving_measure': 'sha256 of the sequence of (step, node, operation, path) of a run',
                         'real_code': REAL, 'stubs': STUBS, 'workers': workers,
                         'slowest_run_s': round(max([r['wall'] for r in ok] or [0]), 2)},
            'assumptions': ASSUMPTIONS + list(getattr(check, 'ASSUME', [])), 'wall_s': 0, 'violations': len(viols)}


def main(argv):
    import argparse
    import importlib
    p = argparse.ArgumentParser(prog='check')
    p.add_argument('pid')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--replay')
    p.add_argument('--count', type=int)
    p.add_argument('--first', type=int, default=0)
    p.add_argument('--wall', type=float)
    p.add_argument('--workers', type=int)
    p.add_argument('--digests', action='store_true', help='prints the digest of each scenario (to prove determinism)')
    p.add_argument('--all', action='store_true', help='goes on after a violation, and lists the violations')
    p.add_argument('--verbose', action='store_true')
    a = p.parse_args(argv)
    core.install()
    check = importlib.import_module('checks.' + a.pid.lower())
    if a.replay:
        v, digest, rec, trace, outputs = replay_file(check, a.replay)
        if a.verbose:
            for n in trace:
                print('--- trace of world', n)
                print(''.join(trace[n][-300:]))
            for n in outputs:
                for o in outputs[n]:
                    print('--- %s/%s %s\n%s' % (n, o[0], o[1], o[2]))
        if v is None:
            print('no violation')
            return 0
        print('%s: %s' % (v.cls, v.msg))
        print('trace digest %s, recorded %s: %s' % (digest, rec['digest'],
                                                    'identical' if digest == rec['digest'] else 'DIFFERENT'))
        print('VIOLATION property=%s replay=%s' % (check.PID, a.replay))
        return 1
    if a.digests or a.all:
        import scipy.stats, sympy, pylatex, mpmath, dill
        results, el = batch(check, a.seed, a.tier, range(a.first, a.first + (a.count or check.COUNT[a.tier])),
                            a.wall or 1e9, a.workers or 8, print, stop_at_violation=False)
        for r in results:
            if 'error' in r:
                print(r['i'], 'ERROR', r['error'])
            elif a.digests:
                print(r['i'], r['stats']['digest'], r['stats']['steps'], r['stats']['switches'])
            elif 'violation' in r:
                print(r['i'], r['kind'], r['violation'][0], r['violation'][1][:500])
        if a.all:
            kinds = {}
            for r in results:
                if 'stats' in r:
                    k = kinds.setdefault(r['kind'], [0, 0.0, 0, 0.0])
                    k[0] += 1
                    k[1] += r['wall']
                    k[2] += r['stats']['nontrivial']
                    k[3] = max(k[3], r['wall'])
            fired, probes = {}, {}
            for r in results:
                for k, v in r.get('stats', {}).get('fired', {}).items():
                    fired[k] = fired.get(k, 0) + v
                for k, v in r.get('stats', {}).get('probes', {}).items():
                    probes[k] = probes.get(k, 0) + v
            print('%d runs, %.1f s' % (len(results), el))
            for k in sorted(kinds):
                print('  %-24s n=%d mean %.2f s max %.2f nontrivial %d' % (k, kinds[k][0], kinds[k][1] / kinds[k][0],
                                                                      kinds[k][3], kinds[k][2]))
            print('fired', fired)
            print('probes', probes)
        return 0
    return run_check(check, a.seed, a.tier, a.workers, a.wall, a.count, first=a.first)
