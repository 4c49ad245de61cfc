"""A program that ends normally has done its work; after a failure, repeating it does it."""
import copy
import os

from sim import core, ini, model, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C09'
LEVEL = 'fault_enumeration'
TECH = ('operating-system errors placed at operations of the fault-free trace, outputs compared with the '
        'undisturbed run, then repetition')
NOTE = ('Errors are placed at operations drawn from the trace of the undisturbed run; sampled.')
COUNT = {'quick': 650, 'thorough': 12000}
RULE = ('A program (a search, a search in a saved table, generating, expanding, distributing, joining, cleaning) under '
        '1-3 errors of the operating system (disk errors, a full or read-only disk, too many open files, denied access, '
        'short writes; some of them persistent) or of the LaTeX compiler, placed at operations of its fault-free trace; '
        'then the same program again with no fault. The outputs are compared with those of a fault-free run. '
        'Non-trivial: a fault fired.')
KINDS = [(5, 'search'), (3, 'use'), (2, 'generate'), (2, 'expand'), (2, 'distribute'), (2, 'join'), (1, 'fix')]
FAULTS = [(4, 'eio'), (4, 'enospc'), (2, 'eacces'), (2, 'emfile'), (2, 'erofs'), (2, 'shortwrite')]


def place(r, points, kind):
    res = []
    byk = {}
    for i, (k, d) in enumerate(points):
        if k in core.FS_KINDS:
            byk.setdefault(k, []).append(i)
    ex = [i for i, (k, d) in enumerate(points) if k == 'exec']
    for _ in range(r.weighted([(6, 1), (2, 2), (1, 3)])):
        if ex and r.chance(0.12):
            res.append({'node': 'victim', 'at': r.choice(ex), 'type': r.choice(['texfail', 'notex'])})
            continue
        t = r.weighted(FAULTS)
        at = r.choice(byk[r.choice(sorted(byk))]) if r.chance(0.7) else r.choice(sorted(x for v in byk.values() for x in v))
        if kind in ('search', 'use') and r.chance(0.5):
            late = [i for i, (k, d) in enumerate(points) if k in core.FS_KINDS and 'results' in d]
            if late:
                at = r.choice(late)
        f = {'node': 'victim', 'at': at, 'type': t}
        if t == 'shortwrite':
            if 'write' not in byk:
                continue
            f['at'] = r.choice(byk['write'])
            f['frac'] = r.random()
        elif points[at][0] == 'write' and t in ('enospc', 'eio') and r.chance(0.5):
            f['partial'] = True
            f['frac'] = r.random()
        if t in ('enospc', 'eio', 'erofs', 'emfile') and r.chance(0.35):
            f['sticky'] = True
        res.append(f)
    return res


def gen(r, ctx, i):
    kind = r.weighted(KINDS)
    scn = {'kind': kind, 'seed': ctx.scn['seed'], 'setup': []}
    d = r.choice(['', 'tables'])
    path = os.path.join(d, 'ht.pkl')
    if kind == 'search':
        scn['cfg'] = G.search_cfg(r, gen_hashtable_only=False, hashtable_file=path)
    elif kind == 'use':
        scn['cfg'] = G.search_cfg(r, gen_hashtable_only=False, hashtable_file=path, hashtable_file_operation='use')
        scn['setup'].append(dict(scn['cfg'], gen_hashtable_only=True, hashtable_file_operation='generate'))
    else:
        scn['cfg'] = G.table_cfg(r, 24, hashtable_file=path)
        same = {k: scn['cfg'][k] for k in ('hashtable_precision', 'hashtable_num_of_iterations')}
        if kind == 'expand':
            scn['setup'].append(dict(scn['cfg']))
            scn['cfg'] = G.table_cfg(r, 24, hashtable_file=path, hashtable_file_operation='expand', **same)
        elif kind in ('join', 'fix'):
            for k in range(r.randint(1, 3) if kind == 'join' else 1):
                scn['setup'].append(G.table_cfg(r, 16, hashtable_file='parts/p_part%02d.pkl' % k, **same))
        elif kind == 'distribute':
            scn['n'] = r.choice([n for n in (1, 2, 2, 4, 8) if S.dividable(scn['cfg'], n)])
            if r.chance(0.5):
                # under that name, another config was distributed earlier
                while True:
                    scn['earlier'] = G.table_cfg(r, 24, hashtable_file=path)
                    if S.dividable(scn['earlier'], scn['n']):
                        break
        if kind == 'fix' and r.chance(0.5):
            scn['earlier'] = True       # a cleaned table of other content is there
    scn['faults'] = []
    w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
    v, before = play(scn, w, setup(scn, w), [])
    S.must_finish(v, 'the %s' % kind)
    scn['faults'] = place(r, v.points, kind)
    ctx.drop(w)
    return scn


def setup(scn, w):
    for d in ('tables', 'parts'):
        os.makedirs(os.path.join(w.root, d), exist_ok=True)
    last = None
    for k, c in enumerate(scn['setup']):
        w.write_file('setup%d.ini' % k, ini.text(c))
        last = S.session(w, 'setup%d' % k, 'setup%d.ini' % k)
        w.run()
        S.must_finish(last, 'a session of the setup')
    src = S.stored_name(last) if last is not None else None
    earlier = scn.get('earlier')
    if earlier and scn['kind'] == 'fix':
        data = w.snapshot()[src]
        S.other_content(w, src)
        n = S.fix(w, 'earlier', src)
        w.run()
        S.must_finish(n, 'cleaning a table')
        w.write_file(src, data)
    elif earlier:
        w.write_file('c.ini', ini.text(earlier))
        n = S.distribute(w, 'earlier', scn['n'], 'c.ini')
        w.run()
        S.must_finish(n, 'distributing a config')
    w.settle()
    w.write_file('c.ini', ini.text(scn['cfg']))
    return src


def replaceable(scn, src):
    """-> the files of an earlier run that the program makes anew"""
    if not scn.get('earlier'):
        return lambda p: False
    if scn['kind'] == 'fix':
        fixed = '_fixed'.join(os.path.splitext(src))
        return lambda p: p == fixed
    return lambda p: p.startswith('c_dist_')


def play(scn, w, src, faults, name='victim', out='joined.pkl'):
    before = w.snapshot()
    kind = scn['kind']
    if kind == 'distribute':
        v = S.distribute(w, name, scn['n'], 'c.ini', faults)
    elif kind == 'join':
        v = S.join(w, name, 'parts', out, faults)
    elif kind == 'fix':
        v = S.fix(w, name, src, faults)
    else:
        v = S.session(w, name, 'c.ini', faults)
    w.run()
    return v, before


def outputs(scn, w, before, v, what):
    """What a program that finished has made, up to names."""
    after = w.snapshot()
    res = {}
    new = sorted(p for p in after if after[p] != before.get(p))
    tabs = S.read_tables(w, [p for p in new if p.endswith('.pkl')])
    for p, t in tabs.items():
        if t.error:
            raise Violation('incomplete', '%s ends normally, but its table %s cannot be loaded: %s' % (what, p, t.error))
    if tabs:
        res['tables'] = sorted((sorted(map(repr, t.entries().items())) for t in tabs.values()), key=repr)
    if scn['kind'] == 'distribute':
        confs = sorted(p for p in after if p.startswith('c_dist_') and p.endswith('.ini'))
        got = S.parse_configs(w, confs)
        res['configs'] = got
    if scn['kind'] in ('search', 'use'):
        d = S.reported_results(v)
        dirs = dict(S.new_results(before, after))
        if d is None or d not in dirs:
            raise Violation('incomplete', '%s ends normally, but its results are not there' % what)
        missing = {'results.csv', 'results.tex', 'results.pdf', 'config.ini'} - set(dirs[d])
        if missing:
            raise Violation('incomplete', '%s ends normally, but did not save %s' % (what, sorted(missing)))
        r = S.load_results(dirs[d], d)
        S.verify_export(r, scn['cfg'])
        if not dirs[d]['results.pdf']:
            raise Violation('incomplete', '%s ends normally, but the PDF is empty' % what)
        res['results'] = sorted(map(repr, map(S.row_key, r.rows)))
        c = S.parse_configs(w, [os.path.join(d, 'config.ini')])
        c = list(c.values())[0]
        if isinstance(c, str):
            raise Violation('incomplete', '%s ends normally, but its config.ini cannot be read: %s' % (what, c))
        res['config'] = {k: v for k, v in c.items() if k != 'hashtable_file'}
    return res


def run(scn, ctx):
    b = ctx.world('baseline')
    bv, bbefore = play(scn, b, setup(scn, b), [])
    S.must_finish(bv, 'the %s' % scn['kind'])
    bsteps = b.steps
    ref = outputs(scn, b, bbefore, bv, 'the fault-free %s' % scn['kind'])
    if 'tables' not in ref and scn['kind'] in ('generate', 'expand', 'join', 'fix'):
        raise Violation('incomplete', 'the fault-free %s ends normally, but it saved no table' % scn['kind'])

    w = ctx.world('main')
    src = setup(scn, w)
    steps0 = w.steps
    v, before = play(scn, w, src, S.faults_of(scn, 'victim'))
    fired = sorted(w.fired)
    what = 'the %s under %s' % (scn['kind'], fired)
    if fired:
        ctx.nontrivial()
    if not fired:
        S.must_finish(v, what)
    anew, snap = replaceable(scn, src), w.snapshot()
    for p, data in before.items():
        if snap.get(p) != data and not anew(p):
            raise Violation('damaged', '%s changes %s, which was there before' % (what, p))
    if v.finished_ok():
        ctx.count('survived')
        got = outputs(scn, w, before, v, what)
        compare(got, ref, what)
    else:
        ctx.count('failed')
        if scn['kind'] in ('search', 'use') and S.reported_results(v):
            # (what was reported as saved is saved, whatever failed later)
            d = S.reported_results(v)
            dirs = dict(S.new_results(before, w.snapshot()))
            if d not in dirs:
                raise Violation('incomplete', '%s reports that its results are saved, but they are not there' % what)
            r = S.load_results(dirs[d], d)
            rows = sorted(map(repr, map(S.row_key, r.rows)))
            if rows != ref['results']:
                raise Violation('incomplete', '%s reports that its results are saved, but %d of %d are' % (
                    what, len(r.rows), len(ref['results'])))
        if scn['kind'] == 'fix' and scn.get('earlier'):
            # the cleaned table is the earlier one or the new one
            for p in [p for p in before if anew(p)]:
                if snap.get(p) != before[p]:
                    if p not in snap:
                        raise Violation('damaged', '%s removes %s' % (what, p))
                    compare(outputs(scn, w, before, v, what), ref, what)
        name = S.stored_name(v)
        if name is not None and name not in S.pkl_files(w):
            raise Violation('incomplete', '%s reports that %s is stored, but it is not there' % (what, name))
    # the errors are over
    w.settle()
    s = w.steps
    out = 'joined2.pkl' if os.path.exists(os.path.join(w.root, 'joined.pkl')) else 'joined.pkl'
    mid = {p: x for p, x in w.snapshot().items() if p not in before}
    if scn['kind'] == 'expand' and [p for p in mid if p.endswith('.pkl')]:
        # (the expansion is stored already; expanding it once more changes nothing)
        ctx.count('stored before failing')
    a, abefore = play(scn, w, src, [], 'again', out)
    if not a.finished_ok():
        raise Violation('no-recovery', 'the %s that is repeated after %s fails: %s' % (scn['kind'], fired,
                                                                                     S.describe(a)))
    if scn['kind'] == 'distribute' or scn['kind'] == 'fix':
        abefore = before
    got = outputs(scn, w, abefore, a, 'the %s that is repeated after %s' % (scn['kind'], fired))
    compare(got, ref, 'the %s that is repeated after %s' % (scn['kind'], fired))
    if w.steps - s > 3 * bsteps + 300:
        raise Violation('no-progress', 'the %s that is repeated after %s takes %d operations instead of %d' % (
            scn['kind'], fired, w.steps - s, bsteps))


def compare(got, ref, what):
    for k in ref:
        if got.get(k) != ref[k]:
            a, b = got.get(k), ref[k]
            raise Violation('incomplete', '%s ends normally, but its %s are not complete: %s' % (
                what, k, str([x for x in b if a is None or x not in a] if isinstance(b, list) else [
                    (x, a.get(x), b[x]) for x in sorted(b) if a.get(x) != b[x]])[:300]))


def shrink(scn):
    c = scn['cfg']
    if len(c['postproc_funcs_filter']) > 1:
        for t in c['postproc_funcs_filter']:
            s = copy.deepcopy(scn)
            for d in [s['cfg']] + s['setup']:
                if t in d['postproc_funcs_filter']:
                    d['postproc_funcs_filter'] = [t]
            yield s
    for k in range(len(scn['setup'])):
        if len(scn['setup']) > 1:
            s = copy.deepcopy(scn)
            del s['setup'][k]
            yield s
