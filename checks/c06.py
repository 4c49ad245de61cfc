"""The exported results are true, complete, and don't depend on how the table came into being."""
import copy
import os

from checks.c01 import gen_faults
from sim import ini, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C06'
LEVEL = 'exploration'
TECH = ('differential search over histories (saved, expanded, joined, retried, concurrent), with exact '
        'verification of every exported row')
NOTE = ('Rows are verified by an independent evaluation in high precision; completeness is judged against matches '
        'of a list of known fractions and the reference enumeration; the borderline classification of convergence '
        'is left open.')
COUNT = {'quick': 320, 'thorough': 6000}
RULE = ('A search that is run in one session, and again through another history: the table is saved first and used '
        'later; it is made by expanding a smaller one; it is joined from distributed parts; the session is repeated '
        'after one that crashed, was interrupted or had a disk error in the middle of it; it runs beside another '
        'session. Non-trivial: something was found in the end.')
KINDS = [(2, 'repeat'), (4, 'use'), (4, 'expand'), (3, 'joined'), (4, 'retry'), (3, 'beside')]
FAULTS = [(4, 'crash'), (3, 'ki'), (2, 'eio'), (2, 'enospc'), (2, 'powerloss'), (1, 'mem'), (1, 'texfail')]


def split_range(r, cfg):
    """The config as two configs of disjoint ranges whose union is it (or None)."""
    c1, c2 = copy.deepcopy(cfg), copy.deepcopy(cfg)
    places = [(s, i, j) for s in ('a_coeffs_range', 'b_coeffs_range') for i, p in enumerate(cfg[s])
              for j, (lo, hi) in enumerate(p) if hi - lo > 1]
    if places and r.chance(0.7):
        s, i, j = r.choice(places)
        lo, hi = cfg[s][i][j]
        m = r.randint(lo + 1, hi - 1)
        c1[s][i][j], c2[s][i][j] = [lo, m], [m, hi]
    elif len(cfg['postproc_funcs_filter']) > 1:
        t = cfg['postproc_funcs_filter']
        c1['postproc_funcs_filter'] = t[:1]
    else:
        return None
    return c1, c2


def gen(r, ctx, i):
    kind = r.weighted(KINDS)
    big = r.chance(0.3 if ctx.tier == 'quick' else 0.5)
    cfg = G.search_cfg(r, small=not big, loose=0.15, tiny=kind in ('retry', 'beside'),
                       gen_hashtable_only=False)
    scn = {'kind': kind, 'cfg': cfg, 'seed': ctx.scn['seed']}
    if kind == 'expand':
        parts = split_range(r, cfg)
        if parts is None:
            scn['kind'] = kind = 'use'
        else:
            c1, c2 = parts
            c1['gen_hashtable_only'] = True
            if r.chance(0.4):
                # the table was made for another constant
                c1['const'] = r.choice(['e', 'pi', 'phi'])
            c2['hashtable_file_operation'] = 'expand'
            scn['first'], scn['second'] = c1, c2
    if kind == 'use':
        c = dict(cfg, gen_hashtable_only=True)
        if r.chance(0.4):
            c['const'] = r.choice(['e', 'pi', 'phi'])
        scn['first'] = c
    if kind == 'joined':
        if not S.dividable(cfg, 2):
            p = r.choice(cfg['a_coeffs_range'][0] + cfg['b_coeffs_range'][0][:1])
            if r.chance(0.5):
                p[0] -= 1
            else:
                p[1] += 1
        scn['parts'] = r.choice([n for n in (1, 2, 2, 4, 8) if S.dividable(cfg, n)])
        scn['preempt'] = r.choice([0, 0.05, 0.3])
    if kind == 'beside':
        scn['other'] = G.search_cfg(r, gen_hashtable_only=r.choice([True, False]), hashtable_file='other.pkl')
        scn['preempt'] = r.choice([0.02, 0.1, 0.4])
    if kind == 'retry':
        w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
        w.write_file('c.ini', ini.text(cfg))
        n, res = S.run_search(w, 's', 'c.ini')
        scn['faults'] = gen_faults(r, n.points, 'victim', FAULTS)
        for f in scn['faults']:
            if f['type'] in ('ki', 'mem'):
                f['lines'] = r.loguniform(1, 3000)
            elif r.chance(0.5):
                # somewhere in the results' saving
                late = [k for k, (x, d) in enumerate(n.points) if 'results' in d] or [0]
                f['at'] = r.choice(late)
        ctx.drop(w)
    return scn


def run(scn, ctx):
    cfg, kind = scn['cfg'], scn['kind']
    b = ctx.world('direct')
    b.write_file('c.ini', ini.text(cfg))
    n, ref = S.run_search(b, 's', 'c.ini')
    due = S.verify_export(ref, cfg)
    ctx.count('results', len(ref.rows))
    ctx.count('due', due)
    if ref.rows:
        ctx.nontrivial()

    w = ctx.world('main')
    cfgs = [cfg]
    exact = False
    if kind == 'repeat':
        w.write_file('c.ini', ini.text(cfg))
        exact = True
        n, res = S.run_search(w, 's', 'c.ini')
    elif kind in ('use', 'expand'):
        w.write_file('first.ini', ini.text(scn['first']))
        n = S.session(w, 'first', 'first.ini')
        w.run()
        S.must_finish(n, 'a session that makes a table')
        w.settle()
        if kind == 'use':
            second = dict(cfg, hashtable_file_operation='use')
        else:
            second = scn['second']
            cfgs = [dict(cfg), scn['second']]
            if scn['first']['a_coeffs_range'] == second['a_coeffs_range'] and \
                    scn['first']['b_coeffs_range'] == second['b_coeffs_range']:
                cfgs = [cfg]
        w.write_file('second.ini', ini.text(second))
        n, res = S.run_search(w, 'second', 'second.ini', 'a search in a saved table')
    elif kind == 'joined':
        w.write_file('c.ini', ini.text(cfg))
        d = S.distribute(w, 'distribute', scn['parts'], 'c.ini')
        w.run()
        S.must_finish(d, 'distributing a config')
        confs = sorted(p for p in w.snapshot('c_dist_%d' % scn['parts']) if p.endswith('.ini'))
        for i, p in enumerate(confs):
            # (part sessions that generate only, as the distributed search is of the joined table)
            t = w.snapshot('c_dist_%d' % scn['parts'])[p].decode()
            import re
            t = re.sub(r'(?m)^gen_hashtable_only\s*=.*$', 'gen_hashtable_only = true', t)
            w.write_file('c_dist_%d/%s' % (scn['parts'], p), t)
        w.preempt = scn['preempt']
        ns = [S.session(w, 'part%d' % i, 'c_dist_%d/%s' % (scn['parts'], p)) for i, p in enumerate(confs)]
        w.run()
        w.preempt = 0.0
        for x in ns:
            S.must_finish(x, 'a part of a distributed run')
        os.makedirs(os.path.join(w.root, 'parts'))
        for p in S.pkl_files(w):
            os.rename(os.path.join(w.root, p), os.path.join(w.root, 'parts', os.path.basename(p)))
        j = S.join(w, 'join', 'parts', 'joined.pkl')
        w.run()
        S.must_finish(j, 'joining the parts')
        w.settle()
        w.write_file('u.ini', ini.text(dict(cfg, hashtable_file='joined.pkl', hashtable_file_operation='use')))
        n, res = S.run_search(w, 'use', 'u.ini', 'a search in a joined table')
    elif kind == 'retry':
        w.write_file('c.ini', ini.text(cfg))
        v = S.session(w, 'victim', 'c.ini', S.faults_of(scn, 'victim'))
        w.run()
        w.settle()
        exact = True
        n, res = S.run_search(w, 'again', 'c.ini', 'a search that is repeated after %s' % sorted(w.fired))
    else:
        w.write_file('c.ini', ini.text(cfg))
        w.write_file('other.ini', ini.text(scn['other']))
        before = w.snapshot()
        n = S.session(w, 's', 'c.ini')
        o = S.session(w, 'other', 'other.ini')
        w.preempt = scn['preempt']
        w.run()
        w.preempt = 0.0
        S.must_finish(n, 'a search beside another session')
        S.must_finish(o, 'a search beside another session')
        exact = True
        d = S.reported_results(n)
        new = dict(S.new_results(before, w.snapshot()))
        if d not in new:
            raise Violation('wrong-results-dirs', 'the results directory %s of a finished session is not there' % d)
        res = S.load_results(new[d], d)
    S.verify_export(res, cfg, cfgs)
    if exact and [S.row_key(r) for r in res.rows] != [S.row_key(r) for r in ref.rows]:
        # (the order of equal keys' entries isn't promised)
        if sorted(map(repr, map(S.row_key, res.rows))) != sorted(map(repr, map(S.row_key, ref.rows))):
            raise Violation('results-differ', 'the same search has other results (%d, %d) when %s' % (
                len(ref.rows), len(res.rows), kind))
    a, c = S.canonical_results(ref), S.canonical_results(res)
    if a != c:
        raise Violation('results-differ', 'the results of the same search (%s) depend on its history: only direct %s, '
                        'only %s %s' % (kind, sorted(a - c)[:3], kind, sorted(c - a)[:3]))


def shrink(scn):
    c = scn['cfg']
    if scn['kind'] in ('repeat', 'retry', 'beside', 'joined') and len(c['postproc_funcs_filter']) > 1:
        for t in c['postproc_funcs_filter']:
            s = copy.deepcopy(scn)
            s['cfg']['postproc_funcs_filter'] = [t]
            yield s
    if scn.get('parts', 0) > 1:
        s = copy.deepcopy(scn)
        s['parts'] //= 2
        yield s
