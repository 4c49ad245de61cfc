"""Reported times are the times that passed."""
import copy
import os
import re

from sim import ini, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C14'
LEVEL = 'exploration'
TECH = ('seeded search over the behaviour of the clock: stalls inside and between operations, jumps, sessions side by '
        'side; the reported times are compared with the simulated clock')
NOTE = ('Sampled. A time is compared with the clock up to the time that printing a line takes; when the clock jumps, '
        'either of the wall and the monotonic clock is right.')
COUNT = {'quick': 2600, 'thorough': 40000}
RULE = ('Histories of up to 40 operations on 1-3 stopwatches with pauses, stalls inside the operations, jumps of the '
        'clock and interrupts; and whole sessions (generating, using, expanding, searching, cancelled) in which stages '
        'stall for minutes to days, alone or beside another session. Every reported time is compared with the simulated '
        'clock. Non-trivial: the clock was stalled or jumped.')
DAY = 86400.0
SHOWN = re.compile(r'untime: *((?:-?\d+ days?, *)?\d+:\d\d:\d\d(?:\.\d+)?)')
TOOK = re.compile(r'Took (-?[0-9.]+) seconds')


def gen(r, ctx, i):
    if r.chance(0.6):
        ops = []
        n = r.weighted([(4, 1), (2, 2), (1, 3)])
        for k in range(r.randint(3, 40)):
            o = {'w': r.below(n), 'op': r.weighted([(3, 'start'), (8, 'measure'), (3, 'total'), (3, 'last'), (1, 'is'),
                                                   (6, 'pause'), (1, 'jump')])}
            if o['op'] == 'pause':
                o['by'] = r.choice([0.0, 1e-3, 0.5, 7.25, 61.0, 3600.0, 1e5]) * (1 + r.below(8) / 8.0)
            if o['op'] == 'jump':
                o['by'] = r.choice([-DAY, -3600.0, -1.5, 2.0, 3600.0, 40 * DAY])
            if o['op'] in ('start', 'measure', 'total') and r.chance(0.2):
                o['fault'] = {'type': 'stall', 'lines': r.randint(1, 8), 'by': r.choice([1.0, 600.0, 3 * DAY])}
            elif o['op'] in ('start', 'measure', 'total') and r.chance(0.06):
                o['fault'] = {'type': r.choice(['ki', 'mem']), 'lines': r.randint(1, 8)}
            ops.append(o)
        return {'kind': 'stopwatch', 'seed': ctx.scn['seed'], 'n': n, 'ops': ops}
    scn = {'kind': 'session', 'seed': ctx.scn['seed'], 'sessions': [], 'faults': [], 'preempt': 0.0, 'schedules': None}
    del scn['schedules']
    x = r.random()
    cfg = G.search_cfg(r, small=True, miss=0.1) if r.chance(0.75) else G.table_cfg(r, 30)
    cfg['gen_hashtable_only'] = r.choice(['auto', False, False, False]) if 'lhs_params' in cfg else 'auto'
    if r.chance(0.3):
        first = dict(cfg, gen_hashtable_only=True)
        scn['first'] = first
        cfg = dict(cfg, hashtable_file_operation=r.choice(['use', 'expand']))
        if cfg['hashtable_file_operation'] == 'expand':
            cfg['postproc_funcs_filter'] = r.sample(G.CHEAP, 2)
    scn['cfg'] = cfg
    if x < 0.2:
        scn['other'] = G.table_cfg(r, 20, hashtable_file='other.pkl')
        scn['preempt'] = r.choice([0.05, 0.3])
    for _ in range(r.weighted([(1, 0), (3, 1), (3, 2), (2, 4)])):
        f = {'type': 'stall', 'at': r.choice([r.below(40), r.below(160), r.loguniform(1, 400)]),
             'by': r.choice([90.0, 3600.0, 2.5 * DAY, 300 * DAY]) * (1 + r.below(16) / 16.0), 'stop_kinds': []}
        if r.chance(0.5):
            f['lines'] = r.loguniform(1, 40000)
        scn['faults'].append(f)
    if r.chance(0.15):
        scn['faults'].append({'type': 'jump', 'at': r.below(200), 'by': r.choice([-DAY, -7200.0, 3600.0, 9 * DAY])})
    if r.chance(0.2):
        # it's cancelled
        w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
        n = prepare(scn, w, [])[0]
        at = [k for k, (x, d) in enumerate(n.points) if x == 'print' and 'REFINING CAN BE CANCELLED' in d]
        ctx.drop(w)
        if at:
            scn['faults'].append({'type': 'ki', 'at': at[-1] + 1, 'lines': r.loguniform(1, 3000),
                                  'by': r.choice([0, 75.5, 5000.0, 4 * DAY]), 'stop_kinds': ['mkdir']})
    return scn


# ---------------------------------------------------------------------------------------------------------------------

def near(x, y, tol=1e-6):
    return abs(x - y) <= tol + 1e-9 * abs(y)


class Instants:
    """The possible instants (an interval of the wall clock, and of the monotonic clock) of a reading."""
    def __init__(self, a, b):
        self.lo, self.hi = a, b

    def after(self, dt, a, b):
        """The instants of a reading that says dt, made between a and b; None if there are none."""
        res = []
        for k in (0, 1):
            lo, hi = max(self.lo[k] + dt, a[k]), min(self.hi[k] + dt, b[k])
            eps = 1e-5 + 1e-9 * abs(dt)
            res.append((lo, hi) if lo <= hi + eps else None)
        if res == [None, None]:
            return None
        new = Instants((0, 0), (0, 0))
        # (a clock that's refuted stays so)
        new.lo = tuple(x[0] if x else float('inf') for x in res)
        new.hi = tuple(x[1] if x else float('-inf') for x in res)
        return new

    def join(self, other):
        new = Instants((0, 0), (0, 0))
        new.lo = tuple(min(x, y) for x, y in zip(self.lo, other.lo))
        new.hi = tuple(max(x, y) for x, y in zip(self.hi, other.hi))
        return new


def run_stopwatch(scn, ctx):
    w = ctx.world('main')

    def fail(k, o, msg):
        raise Violation('wrong-time', 'operation %d (%s) of %s: %s' % (k, o, [x['op'] for x in scn['ops'][:k]], msg))

    def body(node):
        M = node.mod('utils').MeasureRuntime
        ms = [M() for _ in range(scn['n'])]
        # per stopwatch: the instants of the start and of the last reading, the last time, whether it's sound
        start, last, val, sound = [None] * len(ms), [None] * len(ms), [None] * len(ms), [True] * len(ms)
        for k, o in enumerate(scn['ops']):
            m, j = ms[o['w']], o['w']
            if o['op'] == 'pause':
                w.wall += o['by']
                w.mono += o['by']
                continue
            if o['op'] == 'jump':
                w.wall += o['by']
                w.fire('clockjump' + ('+' if o['by'] > 0 else '-'))
                continue
            if not sound[j]:
                continue
            if o['op'] in ('measure', 'total', 'last') and start[j] is None:
                continue
            if o['op'] == 'last' and val[j] is None:
                continue
            call = {'start': m.start_measure, 'measure': m.measure_time, 'total': m.get_total_runtime,
                    'last': m.get_last_measured_time, 'is': m.is_started}[o['op']]
            w.point('call', '')
            a = (w.wall, w.mono)
            f = o.get('fault')
            fired = sum(w.fired.values())
            if f:
                w._apply_fault(node, dict(f, stop_kinds=[]), 'call', '')
            try:
                v = call()
                cut = False
            except (KeyboardInterrupt, MemoryError):
                if sum(w.fired.values()) == fired:
                    raise
                cut = True
            finally:
                node.disarm()
            b = (w.wall, w.mono)
            span = Instants(a, b)
            if cut:
                if o['op'] == 'start' and start[j] is None:
                    # it's started or not; it can be asked
                    if not m.is_started():
                        continue
                    sound[j] = False
                elif o['op'] == 'measure':
                    # it's either read or not; the next reading is from this instant or from the former one
                    last[j], val[j] = last[j] + [span], None
                continue
            if o['op'] == 'start':
                if start[j] is None:
                    start[j], last[j] = span, [span]
            elif o['op'] == 'is':
                if bool(v) != (start[j] is not None):
                    fail(k, o, 'is_started is %s' % v)
            elif o['op'] == 'measure':
                cands = last[j]
                new = [x for x in (s.after(v, a, b) for s in cands) if x]
                if not new:
                    fail(k, o, 'a reading of %r, which is not the time since the last one (between %s and %s), the clock '
                               'now being %s' % (v, [s.lo for s in cands], [s.hi for s in cands], b))
                last[j] = new          # (a long reading may be explained by more than one of them)
                val[j] = v
            elif o['op'] == 'total':
                if not start[j].after(v, a, b):
                    fail(k, o, 'a total of %r, but the start was at %s and it is %s' % (v, start[j].lo, b))
            elif o['op'] == 'last':
                if not near(v, val[j]):
                    fail(k, o, 'says that the last reading was %r, it was %r' % (v, val[j]))
        return None
    n = w.spawn('process', body)
    w.run()
    if not n.finished_ok() and n.result[0] == 'exc' and isinstance(n.result[3], Violation):
        raise n.result[3]
    S.must_finish(n, 'a stopwatch')
    if w.fired or any(o['op'] == 'pause' for o in scn['ops']):
        ctx.nontrivial()


# ---------------------------------------------------------------------------------------------------------------------

def guard(frame):
    """Stalls and interrupts that come while a stage (and not main's own prints around it) runs."""
    while frame is not None:
        f = frame.f_code.co_filename
        if f.endswith('.py') and os.path.basename(f) in ('enum_params.py', 'cont_fracs.py', 'lhs_evaluators.py',
                                                         'enum_poly_params.py', 'latex.py'):
            return frame.f_code.co_name != 'get_filtered_params'
        frame = frame.f_back
    return False


def seconds(s):
    days = 0
    m = re.match(r'(-?\d+) days?, *', s)
    if m:
        days = int(m.group(1))
        s = s[m.end():]
    h, mi, se = s.split(':')
    return days * DAY + int(h) * 3600 + int(mi) * 60 + float(se)


def check_times(n, w, what):
    """The printed times of a session against the clock. -> how many were compared"""
    tol = 100 * w.dt_scale + 0.001            # (what printing two lines may take)
    prev = None
    begun = None
    sums = [0.0, 0.0, 0.0]
    count = 0
    for k, (line, wall, mono) in enumerate(n.printed):
        m = TOOK.search(line)
        if m:
            v = float(m.group(1))
            before = n.printed[k - 1] if k else (None, n.started_at, 0)
            hi = max(wall - before[1], mono - before[2])
            if not (-1e-6 <= v <= hi + tol) and wall - before[1] >= 0:
                raise Violation('wrong-time', '%s prints %r, but only %.3f seconds passed' % (what, line, hi))
        m = SHOWN.search(line)
        if not m:
            if prev is None:
                begun = (wall, mono)
            continue
        v = seconds(m.group(1))
        if prev is not None:
            real = (wall - prev[0], mono - prev[1])
            if not any(near(v, x, tol) for x in real):
                raise Violation('wrong-time', '%s prints %r, but since %r %.3f seconds passed (%.3f by the wall clock)' % (
                    what, line, prev[2], real[1], real[0]))
            sums = [sums[0] + v, sums[1] + real[0], sums[2] + real[1]]
            count += 1
        elif begun is not None:
            hi = max(wall - begun[0], mono - begun[1])
            if v > hi + tol:
                raise Violation('wrong-time', '%s prints %r, but only %.3f seconds passed since it began' % (what, line, hi))
        prev = (wall, mono, line)
    if not any(near(sums[0], x, 4 * tol) for x in sums[1:]):
        raise Violation('wrong-sum', 'the times that %s prints are %.3f seconds together, but %.3f passed' % (
            what, sums[0], sums[2]))
    return count


def prepare(scn, w, faults):
    """Runs the sessions of the scenario; -> (the session, the one beside, the one before)"""
    first = None
    if scn.get('first'):
        w.write_file('first.ini', ini.text(scn['first']))
        first = S.session(w, 'first', 'first.ini')
        w.run()
        S.must_finish(first, 'a session that makes a table')
    w.write_file('c.ini', ini.text(scn['cfg']))
    n = S.session(w, 's', 'c.ini', faults, guard=guard)
    o = None
    if scn.get('other'):
        w.write_file('other.ini', ini.text(scn['other']))
        o = S.session(w, 'other', 'other.ini')
        w.preempt = scn['preempt']
    w.run()
    return n, o, first


def run_session(scn, ctx):
    w = ctx.world('main')
    compared = 0
    n, o, first = prepare(scn, w, scn['faults'])
    if first is not None:
        compared += check_times(first, w, 'a session that makes a table')
    S.must_finish(n, 'a session that is stalled')
    compared += check_times(n, w, 'a session')
    if o is not None:
        S.must_finish(o, 'a session beside one that is stalled')
        compared += check_times(o, w, 'a session beside another')
    if compared < 2:
        raise Violation('no-times', 'the session does not report the times of its stages: %s' % n.text()[-300:])
    ctx.count('times', compared)
    if w.fired:
        ctx.nontrivial()


def run(scn, ctx):
    (run_stopwatch if scn['kind'] == 'stopwatch' else run_session)(scn, ctx)


def shrink(scn):
    if scn['kind'] == 'stopwatch':
        for k, o in enumerate(scn['ops']):
            if 'fault' in o:
                s = copy.deepcopy(scn)
                del s['ops'][k]['fault']
                yield s
        return
    for key in ('other', 'first'):
        if scn.get(key):
            s = copy.deepcopy(scn)
            s.pop(key)
            if key == 'first':
                s['cfg']['hashtable_file_operation'] = 'generate'
            yield s
