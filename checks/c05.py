"""Ctrl-C, once refining can be cancelled, ends in a complete and valid export."""
import copy
import os
import re

from sim import ini, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C05'
LEVEL = 'fault_enumeration'
TECH = ('interrupts placed at every kind of line of the refining, the export compared with that of the '
        'uninterrupted run')
NOTE = ('The interrupt is placed at a line drawn uniformly from those that the undisturbed run executes in the '
        'refining, or at one of the visits of a line of code that is drawn uniformly; sampled.')
COUNT = {'quick': 350, 'thorough': 12000}
RULE = ('A search that is interrupted (KeyboardInterrupt between two lines) at a point drawn out of the '
        'lines that are run after the announcement that refining can be cancelled and before the results are saved; '
        'in a third of the runs the table was made by an earlier session, or another session runs beside. '
        'Non-trivial: the interrupt fired, and there was something to export.')


def guard(frame):
    """Ctrl-C is claimed about while the refining itself (and not main's own prints around it) runs."""
    while frame is not None:
        f = frame.f_code.co_filename
        if f.endswith('.py') and os.path.basename(f) in ('enum_params.py', 'cont_fracs.py', 'lhs_evaluators.py'):
            return True
        frame = frame.f_back
    return False


def window(points):
    """The indices of the points between the announcement and the saving."""
    a = [i for i, (k, d) in enumerate(points) if k == 'print' and 'REFINING CAN BE CANCELLED' in d]
    if not a:
        raise Violation('no-announcement', 'the session does not say that refining can be cancelled')
    b = [i for i, (k, d) in enumerate(points) if i > a[-1] and k == 'mkdir']
    return a[-1] + 1, (b[0] if b else len(points))


def play(scn, ctx, w, faults, sites=False):
    cfg = scn['cfg']
    if scn.get('first'):
        w.write_file('first.ini', ini.text(scn['first']))
        n = S.session(w, 'first', 'first.ini')
        w.run()
        S.must_finish(n, 'a session that makes a table')
        cfg = dict(cfg, hashtable_file_operation='use')
    w.write_file('c.ini', ini.text(cfg))
    before = w.snapshot()
    n = S.session(w, 's', 'c.ini', faults, guard=guard)
    if sites:
        n.sites = {}
    o = None
    if scn.get('other'):
        w.write_file('other.ini', ini.text(scn['other']))
        o = S.session(w, 'other', 'other.ini')
        w.preempt = scn['preempt']
    w.run()
    w.preempt = 0.0
    return n, o, before


def gen(r, ctx, i):
    cfg = G.search_cfg(r, small=r.chance(0.6), miss=0.03, loose=0.06, tiny=True, gen_hashtable_only=False)
    scn = {'kind': 'alone', 'cfg': cfg, 'seed': ctx.scn['seed']}
    x = r.random()
    if x < 0.2:
        scn['kind'] = 'saved-table'
        scn['first'] = dict(cfg, gen_hashtable_only=True)
    elif x < 0.35:
        scn['kind'] = 'beside'
        scn['other'] = G.search_cfg(r, hashtable_file='other.pkl', gen_hashtable_only=r.chance(0.5))
        scn['preempt'] = r.choice([0.05, 0.3])
    w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
    n, o, before = play({k: v for k, v in scn.items() if k != 'other'}, ctx, w, [])
    S.must_finish(n, 'a search')
    lo, hi = window(n.points)
    ctx.drop(w)
    # how many lines are there?
    big = 10 ** 9
    w = ctx.world('baseline', like='main', scn={'seed': scn['seed'], 'schedules': {}})
    n, o, before = play({k: v for k, v in scn.items() if k != 'other'}, ctx, w,
                        [{'at': lo, 'type': 'ki', 'lines': big, 'stop_kinds': ['mkdir']}], sites=True)
    total = big - (n.lines_left or big)
    ctx.drop(w)
    at = r.weighted([(6, r.randint(1, max(1, total))), (1, r.loguniform(1, max(1, total))),
                     (3, max(1, total + 1 - r.loguniform(1, max(1, total))))])
    if n.sites and r.chance(0.5):
        # (each line of the code is as likely, however often it's run)
        seen = n.sites[r.choice(sorted(n.sites))]
        at = big - r.weighted([(2, r.choice(seen)), (1, seen[0]), (1, seen[-1])])
    scn['faults'] = [{'node': 's', 'at': lo, 'type': 'ki', 'lines': at, 'stop_kinds': ['mkdir']}]
    return scn


def run(scn, ctx):
    cfg = scn['cfg']
    b = ctx.world('uninterrupted')
    n, o, before = play({k: v for k, v in scn.items() if k != 'other'}, ctx, b, [])
    S.must_finish(n, 'a search')
    ref = S.results_of(b, n, before)
    # (the results that are due are those of a search that isn't interrupted)
    S.verify_export(ref, cfg)

    w = ctx.world('main')
    n, o, before = play(scn, ctx, w, S.faults_of(scn, 's'))
    fired = any(k.startswith('ki@') for k in w.fired)
    if o is not None:
        S.must_finish(o, 'a session beside one that is interrupted')
    if not n.finished_ok():
        raise Violation('cancel-fails', 'a search whose refining is cancelled %s ends in %s' % (
            sorted(w.fired), S.describe(n)))
    new = S.new_results(before, w.snapshot())
    d = S.reported_results(n)
    if d is None or d not in dict(new):
        raise Violation('no-export', 'nothing is exported by a search whose refining is cancelled %s' % sorted(w.fired))
    files = dict(new)[d]
    missing = {'results.csv', 'results.tex', 'results.pdf', 'config.ini'} - set(files)
    if missing:
        raise Violation('missing-files', 'a cancelled search did not save %s' % sorted(missing))
    res = S.load_results(files, d)
    S.verify_export(res, cfg, cancelled=fired)
    if fired and ref.rows:
        ctx.nontrivial()
    # nothing of what the whole refining confirms is lost
    a, c = S.canonical_results(ref), S.canonical_results(res)
    if a - c:
        raise Violation('missing-result', 'a cancelled search loses %s' % sorted(a - c)[:3])
    if not fired and a != c:
        raise Violation('results-differ', 'a search differs from itself: %s' % sorted(c - a)[:3])
    # the config that's saved beside says the same
    for key, val in ref_config(ref.config).items():
        if ref_config(res.config).get(key) != val:
            raise Violation('wrong-config', 'the saved config of a cancelled search says %s=%s instead of %s' % (
                key, ref_config(res.config).get(key), val))


def ref_config(text):
    import configparser
    p = configparser.ConfigParser(interpolation=None)
    p.read_string(text)
    return dict(p['Setup'])


def shrink(scn):
    for k in ('other', 'first'):
        if scn.get(k):
            s = copy.deepcopy(scn)
            s.pop(k)
            yield s
    for f in scn['faults']:
        for lines in (1, f['lines'] // 2, f['lines'] - 1):
            if 0 < lines < f['lines']:
                s = copy.deepcopy(scn)
                s['faults'][0]['lines'] = lines
                yield s
    c = scn['cfg']
    if len(c['postproc_funcs_filter']) > 1:
        for t in c['postproc_funcs_filter']:
            s = copy.deepcopy(scn)
            s['cfg']['postproc_funcs_filter'] = [t]
            if s.get('first'):
                s['first']['postproc_funcs_filter'] = [t]
            yield s
