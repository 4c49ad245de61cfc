"""Saved tables survive crashes, power losses and disk errors."""
import os

from sim import core, ini, model, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C01'
LEVEL = 'fault_enumeration'
TECH = ('crash, power-loss and disk-fault search over sessions that save tables, on a simulated disk, against a '
        'reference enumeration')
NOTE = ('Sampled, not exhaustive: seeded crash points and faults over whole real sessions; torn or lost data is '
        'decided by the model of the simulated disk (POSIX rename and fsync).')
COUNT = {'quick': 1400, 'thorough': 12000}
RULE = ('A history of 0-2 sessions that save tables, then a victim (generate, expand, join or the cleaning tool; in a '
        'fifth of the runs beside another session) that is hit by 1-2 faults placed at operations of its fault-free '
        'trace. Non-trivial: a fault fired inside the victim after it has opened a file.')

VICTIMS = [(5, 'generate'), (4, 'expand'), (3, 'join'), (2, 'fix')]
FAULTS = [(6, 'crash'), (5, 'powerloss'), (2, 'eio'), (3, 'enospc'), (1, 'eacces'), (1, 'emfile'), (1, 'erofs'),
          (1, 'shortwrite'), (2, 'ki'), (1, 'mem')]


def gen_faults(r, points, node, kinds=None, n=None):
    """Places faults on the operations of a fault-free trace."""
    res = []
    byk = {}
    for i, (k, d) in enumerate(points):
        byk.setdefault(k, []).append(i)
    disk = [i for k in ('write', 'fsync', 'replace', 'open', 'remove', 'link', 'mkdir') for i in byk.get(k, [])]
    for _ in range(n or r.weighted([(4, 1), (1, 2)])):
        t = r.weighted(kinds or FAULTS)
        if not points:
            break
        if r.chance(0.75) and disk:
            cls = r.choice([k for k in ('write', 'fsync', 'replace', 'open', 'remove', 'link', 'mkdir') if k in byk])
            at = r.choice(byk[cls])
            if r.chance(0.2):
                at = min(len(points) - 1, at + 1)
        elif r.chance(0.3):
            at = len(points) - 1 - r.below(min(4, len(points)))
        else:
            at = r.below(len(points))
        if t in core.IO_FAULTS and points[at][0] not in core.FS_KINDS:
            fs = [i for i, (k, _) in enumerate(points) if k in core.FS_KINDS]
            if fs:
                at = r.choice(fs)
        f = {'node': node, 'at': at, 'type': t}
        if t in ('crash', 'enospc', 'eio', 'shortwrite') and points[at][0] == 'write' and r.chance(0.6):
            f['partial'] = True
            f['frac'] = r.below(100) / 100.0
        if t == 'shortwrite':
            f['frac'] = r.below(100) / 100.0
            if 'write' in byk:
                f['at'] = r.choice(byk['write'])
        if t in ('enospc', 'eio', 'erofs', 'emfile') and r.chance(0.5):
            f['sticky'] = True
        if t in ('ki', 'mem'):
            f['lines'] = r.loguniform(1, 60)
        if t == 'powerloss':
            f['seed'] = r.below(1 << 30)
        res.append(f)
    return res


def gen_base(r):
    kind = r.weighted(VICTIMS)
    scn = {'kind': kind, 'setup': []}
    base = r.choice(['ht', 'table', 'My.Table', 'a_b'])
    d = r.choice(['', '', 'tables'])
    path = os.path.join(d, base + '.pkl')
    first = G.table_cfg(r, 24, hashtable_file=path)
    post = first['postproc_funcs_filter']

    def later(**kw):
        c = G.table_cfg(r, 24, hashtable_file=path, hashtable_precision=first['hashtable_precision'],
                          hashtable_num_of_iterations=first['hashtable_num_of_iterations'])
        c.update(kw)
        return c
    nset = r.below(3)
    if kind in ('expand', 'fix') and nset == 0:
        nset = 1
    if kind == 'join':
        nset = 1 + r.below(3)
    for k in range(nset):
        c = dict(first) if k == 0 else later()
        if kind == 'join':
            c = later(hashtable_file='parts/p_part%02d.pkl' % k, postproc_funcs_filter=post)
            scn['out'] = r.choice(['joined.pkl', 'tables/joined.pkl', './all.pkl'])
        elif k and r.chance(0.5):
            c['hashtable_file_operation'] = 'expand'
        scn['setup'].append(c)
    if kind == 'generate':
        scn['victim'] = later() if nset else first
    elif kind == 'expand':
        scn['victim'] = later(hashtable_file_operation='expand')
    scn['settle'] = r.chance(0.6)
    if kind in ('generate', 'expand') and r.chance(0.25):
        other = G.table_cfg(r, 16, hashtable_file=os.path.join(d, 'other.pkl'))
        scn['other'] = other
        scn['preempt'] = r.choice([0.05, 0.2, 0.5])
    scn['cleaned'] = kind == 'fix' and r.chance(0.5)
    return scn


def play(scn, ctx, w):
    """-> (victim, other, the tables before, [the nodes of the setup])"""
    for d in ('tables', 'parts'):
        os.makedirs(os.path.join(w.root, d))
    setup = []
    for k, c in enumerate(scn['setup']):
        w.write_file('setup%d.ini' % k, ini.text(c))
        n = S.session(w, 'setup%d' % k, 'setup%d.ini' % k)
        w.run()
        S.must_finish(n, 'a session of the setup')
        setup.append(n)
    kind = scn['kind']
    if kind == 'fix' and scn.get('cleaned'):
        # a cleaned table of what the table was before it was made anew
        src = S.stored_name(setup[-1])
        data = w.snapshot()[src]
        S.other_content(w, src)
        n = S.fix(w, 'earlier', src)
        w.run()
        S.must_finish(n, 'cleaning a table')
        w.write_file(src, data)
    if scn.get('settle') or scn.get('cleaned'):
        w.settle()
    before = S.pkl_files(w)
    fl = S.faults_of(scn, 'victim')
    other = None
    if kind in ('generate', 'expand'):
        w.write_file('victim.ini', ini.text(scn['victim']))
        v = S.session(w, 'victim', 'victim.ini', fl)
    elif kind == 'join':
        v = S.join(w, 'victim', 'parts', scn['out'], fl)
    else:
        v = S.fix(w, 'victim', S.stored_name(setup[-1]), fl)
    if scn.get('other'):
        w.write_file('other.ini', ini.text(scn['other']))
        other = S.session(w, 'other', 'other.ini', S.faults_of(scn, 'other'))
    w.preempt = scn.get('preempt', 0.0)
    w.run()
    w.preempt = 0.0
    return v, other, before, setup


def gen(r, ctx, i):
    scn = gen_base(r)
    scn['seed'] = ctx.scn['seed']
    w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
    v, other, before, setup = play(dict(scn, preempt=0.0), ctx, w)
    S.must_finish(v, 'the %s' % scn['kind'])
    scn['faults'] = gen_faults(r, v.points, 'victim')
    ctx.drop(w)
    return scn


def run(scn, ctx):
    # without faults: what the complete files contain
    b = ctx.world('baseline', scn={'seed': scn['seed'], 'schedules': {}})
    bv, bother, bbefore, bset = play(dict(scn, faults=[], preempt=0.0), ctx, b)
    S.must_finish(bv, 'the %s' % scn['kind'])
    bafter = S.pkl_files(b)
    bnew = sorted(set(bafter) - set(bbefore))
    replaced = None
    if scn.get('cleaned'):
        replaced = '_fixed'.join(os.path.splitext(S.stored_name(bset[-1])))
        bnew += [p for p in [replaced] if bafter.get(p) not in (None, bbefore[p])]
    if len(bnew) != (2 if bother else 1):
        raise Violation('wrong-files', 'the fault-free %s creates %s' % (scn['kind'], bnew))
    btabs = S.read_tables(b, bnew)
    for p, t in btabs.items():
        if t.error:
            raise Violation('unreadable-table', '%s, saved with no fault, cannot be loaded: %s' % (p, t.error))
    ctx.drop(b)

    w = ctx.world('main')
    v, other, before, setup = play(scn, ctx, w)
    power = any(k.startswith('powerloss') for k in w.fired)
    # only faults that fired inside of the victim count
    if w.fired and v.npoints > 6:
        ctx.nontrivial()
    after = S.pkl_files(w)
    # 1. the tables that were there are untouched
    for p, data in before.items():
        if p not in after:
            if not power or scn.get('settle') or scn.get('cleaned'):
                raise Violation('lost-table', 'the table %s, saved by an earlier session, is gone' % p)
        elif p == replaced:
            if after[p] == data and v.finished_ok() and not power:
                raise Violation('lost-table', 'the cleaning tool ended normally, but did not replace %s' % p)
        elif after[p] != data:
            raise Violation('damaged-table', 'the table %s, saved by an earlier session, is changed' % p)
    # 2. what's new is complete
    new = sorted(set(after) - set(before))
    new += [p for p in [replaced] if p in before and after.get(p) not in (None, before[p])]
    for p in new:
        if p not in btabs:
            raise Violation('wrong-files', 'an unexpected file %s' % p)
    tabs = S.read_tables(w, new)
    for p, t in tabs.items():
        if t.error:
            raise Violation('torn-table', '%s cannot be loaded after %s: %s' % (p, sorted(w.fired), t.error))
        if t.entries() != btabs[p].entries():
            raise Violation('partial-table', '%s has %d entries of %d after %s' % (
                p, len(t.entries()), len(btabs[p].entries()), sorted(w.fired)))
    # 3. what was reported as saved is there
    if not power:
        for n in (v, other):
            if n is None:
                continue
            name = S.stored_name(n)
            if name is not None and name not in after:
                raise Violation('lost-table', '%s was reported as stored, but it is not there' % name)
        if v.finished_ok() and not [p for p in new if p in btabs and p != 'other_v1.pkl' and
                                    not p.endswith('/other_v1.pkl')]:
            raise Violation('lost-table', 'the session finished, but its table is not there')
        if other is not None and not S.faults_of(scn, 'other') and not other.finished_ok():
            raise Violation('session-fails', 'a session fails because of the faults of another one: %s' %
                            S.describe(other))
    # 4. once the faults are over, the same can be done, and finds all the tables in order
    w.settle()
    after = S.pkl_files(w)
    if scn['kind'] in ('generate', 'expand'):
        n = S.session(w, 'again', 'victim.ini')
    elif scn['kind'] == 'join':
        n = S.join(w, 'again', 'parts', 'joined2.pkl')
    else:
        src = S.stored_name(setup[-1])
        if src not in after:
            return
        n = S.fix(w, 'again', src)
    if scn['kind'] == 'expand' and not before:
        return
    gone = [p for p in before if p not in after]
    w.run()
    if not n.finished_ok():
        if gone:
            return
        raise Violation('no-recovery', 'the session that is repeated after %s fails: %s' % (sorted(w.fired),
                                                                                           S.describe(n)))
    snap, all_before = S.pkl_files(w), w.snapshot('')
    for p, data in after.items():
        if p not in snap or (snap[p] != data and scn['kind'] != 'fix'):
            raise Violation('damaged-table', '%s is changed by the session that is repeated' % p)
    if scn['kind'] == 'join':
        # joining to a file that is there, as if by mistake
        for k, out in enumerate(['joined2.pkl', scn['out'], 'parts/' + os.path.basename(sorted(before)[0])]):
            if os.path.exists(os.path.join(w.root, out)):
                S.join(w, 'mistake%d' % k, 'parts', out)
        w.run()
        later = w.snapshot('')
        for p, data in all_before.items():
            if later.get(p) != data:
                raise Violation('damaged-table', 'joining to an existing file changes %s' % p)
    if gone or scn['kind'] == 'expand':
        return
    outs = [p for p in snap if p not in after or snap[p] != after[p]]
    if scn['kind'] == 'fix':
        outs = [p for p in bnew if p in snap]
    if not outs:
        raise Violation('no-recovery', 'the session that is repeated after %s saves nothing' % sorted(w.fired))
    main = [p for p in bnew if 'other' not in p][0]
    for p, t in S.read_tables(w, outs).items():
        if t.error or t.entries() != btabs[main].entries():
            raise Violation('no-recovery', 'the table %s that is saved after %s is not complete: %s' % (
                p, sorted(w.fired), t.error or '%d entries of %d' % (len(t.entries()), len(btabs[main].entries()))))


def shrink(scn):
    if scn.get('other') and not S.faults_of(scn, 'other'):
        s = dict(scn)
        s.pop('other')
        yield s
    for k in range(len(scn['setup'])):
        s = dict(scn, setup=scn['setup'][:k] + scn['setup'][k + 1:])
        if scn['kind'] != 'generate' and not s['setup']:
            continue
        yield s
    for c in [scn.get('victim')] + scn['setup']:
        if not c:
            continue
        if len(c['postproc_funcs_filter']) > 1:
            import copy
            s = copy.deepcopy(scn)
            for d in [s.get('victim')] + s['setup']:
                if d:
                    d['postproc_funcs_filter'] = d['postproc_funcs_filter'][:1]
            yield s
            break
