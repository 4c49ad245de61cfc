"""Cleaning a table removes exactly the entries whose b vanishes."""
import copy
import os

from sim import core, ini, model, sessions as S
from sim import gen as G
from sim.golden import tup
from sim.harness import Violation

PID = 'C15'
LEVEL = 'fault_enumeration'
TECH = ('seeded search over tables, their histories, and points of failure of the cleaning tool, against an exact '
        'reference for the roots of b')
NOTE = ('Sampled. Of a polynomial of b of a degree above 2 (its powers of x aside), and of one of degree 2 that has '
        'negative integer roots only, either is accepted.')
COUNT = {'quick': 1150, 'thorough': 15000}
RULE = ('A table is generated, and maybe expanded (to other ranges, functions and precisions) or joined, by real '
        'sessions; then old entries, a part of which has vanishing polynomials of b, are added as they were before the '
        'search avoided them; the table may have been renamed. The tool cleans it, with crashes, power losses, interrupts, failing allocations and disk '
        'errors at any operation or line, maybe beside sessions that use or expand the same table; then again with no '
        'fault. The cleaned table is compared with the reference, used, expanded, joined and cleaned again. '
        'Non-trivial: an entry had to be removed.')
FAULTS = [(5, 'crash'), (3, 'ki'), (3, 'powerloss'), (3, 'eio'), (3, 'enospc'), (2, 'mem'), (1, 'emfile'), (1, 'erofs'),
          (1, 'eacces'), (1, 'shortwrite')]


def bad_poly(r):
    k = r.below(4)
    if k == 0:
        return [0] * r.randint(1, 4)
    if k == 1:
        # c*(x-i)
        c, i = r.choice([-3, -2, -1, 1, 2, 3]), r.choice([1, 1, 2, 3, 7, 100])
        p = [-c * i, c]
    elif k == 2:
        c, i, j = r.choice([-2, -1, 1, 1, 3]), r.choice([1, 2, 3, 12]), r.choice([-5, -1, 1, 2, 4])
        p = [c * i * j, -c * (i + j), c]
    else:
        # (p*x + q)(x - i)
        a, q, i = r.choice([2, 3, 5]), r.choice([-7, -1, 1, 4]), r.choice([1, 2, 9])
        p = [-q * i, q - a * i, a]
    return [0] * r.below(3) * r.below(2) + p + [0] * r.below(2)


def good_poly(r):
    while True:
        p = [r.randint(-4, 4) for _ in range(r.randint(1, 3))]
        p = [0] * r.below(2) + p + [0] * r.below(2)
        if model.b_status(p) == 'in':
            return p


def any_poly(r):
    return [r.randint(-5, 5) for _ in range(r.randint(1, 5))]


def old_entries(r, n, npost):
    res = []
    for _ in range(n):
        bs = []
        for k in range(r.weighted([(4, 1), (3, 2), (1, 3), (1, 4)])):
            bs.append(r.weighted([(3, bad_poly), (5, good_poly), (2, any_poly)])(r))
        if len(bs) > 1 and r.chance(0.15):
            bs = [bs[0]] * len(bs)
        as_ = [any_poly(r) for _ in range(r.weighted([(4, 1), (1, 2)]))]
        res.append([as_, bs, r.below(npost)])
    return res


def gen(r, ctx, i):
    scn = {'seed': ctx.scn['seed'], 'setup': [], 'faults': [], 'beside': [], 'preempt': 0.0}
    d = r.choice(['', 'tables', 'ta.bles', 'my tables'])
    name = r.choice(['ht', 'ht', 'a.b', 'x_v2', 't_fixed'])
    scn['path'] = os.path.join(d, name + '.pkl')
    cfg = G.table_cfg(r, 16, hashtable_file=scn['path'])
    scn['setup'].append(cfg)
    same = {'hashtable_num_of_iterations': cfg['hashtable_num_of_iterations'], 'hashtable_file_operation': 'expand'}
    if r.chance(0.3):
        same['hashtable_precision'] = cfg['hashtable_precision'] if r.chance(0.6) else r.choice([4, 6, 8, 12])
        scn['setup'].append(G.table_cfg(r, 16, hashtable_file=scn['path'], **same))
    if r.chance(0.2):
        # a copy of the table that was kept under another name
        scn['kept'] = r.choice(['ht.bak', 'ht_v1', 'old/table', 'old.pkl/ht_v1.pkl', 'old.pkl/t', 'ht.pkl.old', 'x_fixed.pkl',
                                'ht.PKL', '.pkl.pkl', 'old.d/ht'])
    # (groups of entries that share a key; the position among the keys is drawn too)
    scn['old'] = [old_entries(r, r.weighted([(3, 1), (3, 2), (2, 4), (1, 8)]), len(model.POSTPROC_TEXTS))
                  for _ in range(r.loguniform(1, 14))]
    scn['where'] = [r.weighted([(3, 'new'), (2, 'before'), (2, 'after'), (1, 'between')]) for _ in scn['old']]
    scn['again'] = r.chance(0.3)        # an earlier cleaned table is there
    if scn['again'] and r.chance(0.5):
        scn['again'] = 'other'          # of what the table was before it was made anew
    x = r.random()
    if x < 0.6:
        w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
        src = setup(scn, w)
        v = S.fix(w, 'tool', src)
        w.run()
        S.must_finish(v, 'cleaning a table')
        pts = v.points
        ctx.drop(w)
        fs = [k for k, (kk, _) in enumerate(pts) if kk in core.FS_KINDS]
        writes = [k for k in fs if pts[k][0] in ('write', 'fsync', 'replace', 'close')]
        for _ in range(r.weighted([(6, 1), (1, 2)])):
            t = r.weighted(FAULTS)
            at = r.choice(writes) if writes and r.chance(0.6) else r.choice(fs)
            f = {'node': 'tool', 'type': t, 'at': at}
            if t in ('ki', 'mem'):
                f['at'] = r.below(len(pts))
                f['lines'] = r.loguniform(1, 400)
            if t == 'shortwrite':
                f['at'] = r.choice([k for k in fs if pts[k][0] == 'write'] or fs)
                f['frac'] = r.random()
            if t in ('eio', 'enospc', 'crash') and pts[f['at']][0] == 'write' and r.chance(0.6):
                f['partial'] = True
                f['frac'] = r.random()
            if t in ('eio', 'enospc', 'erofs', 'emfile') and r.chance(0.3):
                f['sticky'] = True
            if t == 'powerloss':
                f['seed'] = r.below(1 << 30)
                f['at'] = r.below(len(pts) - f['at']) + f['at']
            scn['faults'].append(f)
    elif r.chance(0.3):
        scn['off'] = r.below(1 << 30)       # the power goes off when it's done
    if r.chance(0.35):
        for k in range(r.randint(1, 2)):
            how = r.choice(['expand', 'clean other', 'clean same', 'read', 'use fixed'])
            o = {'how': how}
            if how == 'expand':
                o['cfg'] = G.table_cfg(r, 10, hashtable_file=scn['path'], **dict(
                    same, hashtable_precision=scn['setup'][-1]['hashtable_precision']))
            scn['beside'].append(o)
        scn['preempt'] = r.choice([0.02, 0.1, 0.4])
    if not scn.get('kept', '.pkl').endswith('.pkl') or 'kept' in scn and r.chance(0.5):
        # (sessions take tables that are called .pkl only)
        scn['beside'] = []
        scn['after'] = r.sample(['join', 'clean'], r.randint(1, 2))
    else:
        scn['after'] = r.sample(['expand', 'join', 'clean', 'search'], r.randint(1, 2))
    scn['later'] = G.table_cfg(r, 12, **dict(same, hashtable_precision=scn['setup'][-1]['hashtable_precision']))
    return scn


def put_old(scn, w, path):
    """Adds the old entries to a table, as an old version of the programs would have them."""
    def body(node):
        import dill
        node.mod('enum_params')
        with open(path, 'rb') as f:
            mitm = dill.load(f)
        t = mitm.dec_hashtable
        raw = {k: dict.__getitem__(t, k) for k in list(t.keys())}
        for j, (group, where) in enumerate(zip(scn['old'], scn['where'])):
            es = [((tup(a), tup(b)), p) for a, b, p in group]
            keys = sorted(k for k in raw if k != 'parameters')
            if where == 'new' or not keys:
                dict.__setitem__(t, '0.' + ('%d' % (7919 ** 9 * (3 * j + 2)))[:mitm.hashtable_prec], es)
                continue
            k = keys[j * 31 % len(keys)]
            old = list(dict.__getitem__(t, k))
            h = len(old) // 2
            dict.__setitem__(t, k, es + old if where == 'before' else old + es if where == 'after' else
                             old[:h] + es + old[h:])
        with open(path, 'wb') as f:
            dill.dump(mitm, f, protocol=dill.HIGHEST_PROTOCOL)
    n = w.spawn('old version', body)
    w.run()
    S.must_finish(n, 'writing an old table')


def setup(scn, w):
    os.makedirs(os.path.join(w.root, os.path.dirname(scn['path'])), exist_ok=True)
    n = None
    for k, c in enumerate(scn['setup']):
        w.write_file('s%d.ini' % k, ini.text(c))
        n = S.session(w, 'setup%d' % k, 's%d.ini' % k)
        w.run()
        S.must_finish(n, 'a session of the setup')
    src = S.stored_name(n)
    put_old(scn, w, os.path.join(w.root, src))
    if 'kept' in scn:
        with open(os.path.join(w.root, src), 'rb') as f:
            data = f.read()
        src = scn['kept']
        os.makedirs(os.path.join(w.root, os.path.dirname(src)), exist_ok=True)
        w.write_file(src, data)
    w.settle()
    return src


def fixed_name(src):
    return '_fixed'.join(os.path.splitext(src))


def statuses(pair):
    st = [model.b_status(p) for p in pair[1]]
    return 'out' if 'out' in st else 'free' if 'free' in st else 'in'


def check_clean(t, src, what):
    if t.error:
        raise Violation('partial-table', '%s: the cleaned table cannot be loaded (%s)' % (what, t.error))
    if (t.acc, t.target) != (src.acc, src.target):
        raise Violation('wrong-table', '%s: the cleaned table is of %s in %s digits, the given one of %s in %s' % (
            what, t.target, t.acc, src.target, src.acc))
    a, b = src.entries(), t.entries()
    for e, k in a.items():
        s = statuses(e[1][0])
        have = b.get(e, 0)
        if s == 'out' and have:
            raise Violation('not-removed', '%s: the entry %s is still there' % (what, e))
        if s == 'in' and have != k:
            raise Violation('lost-entry', '%s: the entry %s is there %d times instead of %d' % (what, e, have, k))
        if s == 'free' and have > k:
            raise Violation('wrong-table', '%s: the entry %s is there %d times instead of %d' % (what, e, have, k))
    for e in b:
        if e not in a:
            raise Violation('wrong-table', '%s: the entry %s was not there' % (what, e))


def run(scn, ctx):
    w = ctx.world('main')
    src = setup(scn, w)
    fixed = fixed_name(src)
    ref = S.read_table(w, src)
    out = sum(1 for e in ref.entries() if statuses(e[1][0]) == 'out')
    if out:
        ctx.nontrivial()
    ctx.count('to be removed', out)
    earlier = None
    if scn['again']:
        if scn['again'] == 'other':
            with open(os.path.join(w.root, src), 'rb') as f:
                data = f.read()
            S.other_content(w, src)
        n = S.fix(w, 'earlier', src)
        w.run()
        S.must_finish(n, 'cleaning a table')
        if scn['again'] == 'other':
            with open(os.path.join(w.root, fixed), 'rb') as f:
                earlier = f.read()
            w.write_file(src, data)
        w.settle()
    before_entries = S.read_table(w, fixed).entries() if earlier is not None else None
    # other programs
    beside = []
    before = w.snapshot()
    for k, o in enumerate(scn['beside']):
        if o['how'] == 'expand':
            w.write_file('b%d.ini' % k, ini.text(o['cfg']))
            n = S.session(w, 'beside%d' % k, 'b%d.ini' % k)
        elif o['how'] == 'clean other':
            other = os.path.join(os.path.dirname(src), 'other%d.pkl' % k)
            with open(os.path.join(w.root, src), 'rb') as f:
                w.write_file(other, f.read())
            w.settle()
            o['other'] = other
            n = S.fix(w, 'beside%d' % k, other)
        elif o['how'] == 'clean same':
            n = S.fix(w, 'beside%d' % k, src)
        else:
            p = fixed if o['how'] == 'use fixed' else src
            n = w.spawn('beside%d' % k, lambda node, p=p: S._read_table(node, os.path.join(w.root, p))
                        if os.path.exists(os.path.join(w.root, p)) else None)
        beside.append((o, n))
    before = {p: b for p, b in w.snapshot().items()}
    v = S.fix(w, 'tool', src, S.faults_of(scn, 'tool'))
    w.preempt = scn['preempt'] if beside else 0.0
    w.run()
    w.preempt = 0.0
    if 'off' in scn:
        w.power_off(scn['off'])
    fired = sorted(w.fired)
    power = any(f.startswith('powerloss') for f in fired)
    what = 'cleaning %s%s' % (src, ' under %s' % fired if fired else '')
    if not fired or 'off' in scn:
        S.must_finish(v, what, 'cleaning-fails')
    snap = w.snapshot()
    if snap.get(src) != before[src]:
        raise Violation('source-changed', '%s: the given table is %s' % (
            what, 'changed' if src in snap else 'not there any more'))
    if earlier is not None and snap.get(fixed) == earlier and (power or not v.finished_ok()) and (
            power or not any(o['how'] == 'clean same' for o, n in beside)):
        pass        # still the one of the earlier table
    elif fixed in snap:
        check_clean(S.read_table(w, fixed), ref, what)
    elif (v.finished_ok() or any(o['how'] == 'clean same' for o, n in beside)) and not power:
        raise Violation('no-table', '%s ends normally, but there is no %s (but %s)' % (
            what, fixed, sorted(p for p in snap if p not in before)))
    elif scn['again']:
        raise Violation('lost-table', '%s: the table that was cleaned earlier is not there any more' % what)
    for o, n in beside:
        if power:
            continue
        S.must_finish(n, 'a program (%s) beside %s' % (o['how'], what))
        if o['how'] == 'clean other':
            check_clean(S.read_table(w, fixed_name(o['other'])), ref, 'cleaning beside ' + what)
        elif o['how'] == 'read':
            if n.result[1].error or n.result[1].entries() != ref.entries():
                raise Violation('source-changed', 'beside %s, the given table reads differently (%s)' % (
                    what, n.result[1].error))
        elif o['how'] == 'use fixed' and n.result[1] is not None:
            if earlier is not None and n.result[1].entries() == before_entries:
                continue
            check_clean(n.result[1], ref, 'read while ' + what)
        elif o['how'] == 'expand':
            t = S.read_table(w, S.stored_name(n))
            if t.error:
                raise Violation('partial-table', 'the table that was expanded beside %s cannot be loaded: %s' % (
                    what, t.error))
            got = t.entries()
            lost = [e for e, k in ref.entries().items() if got.get(e, 0) < k]
            if lost:
                raise Violation('lost-entry', 'the table that was expanded beside %s lacks %s' % (what, lost[0]))
    if not power:
        bad = [p for p in before if p.endswith('.pkl') and p != fixed and snap.get(p) != before[p]]
        if bad:
            raise Violation('source-changed', '%s: %s was changed' % (what, bad[0]))
    # the errors are over
    w.settle()
    a = S.fix(w, 'again', src)
    w.run()
    if not a.finished_ok():
        raise Violation('no-recovery', 'cleaning again after %s fails: %s' % (what, S.describe(a)))
    snap = w.snapshot()
    if fixed not in snap:
        raise Violation('no-table', 'cleaning again after %s ends normally, but there is no %s' % (what, fixed))
    clean = S.read_table(w, fixed)
    check_clean(clean, ref, 'cleaning again after ' + what)
    if snap.get(src) != before[src]:
        raise Violation('source-changed', 'cleaning again after %s: the given table is changed' % what)
    w.settle()
    # its uses
    for k, how in enumerate(scn['after']):
        if how == 'clean':
            n = S.fix(w, 'after%d' % k, fixed)
            w.run()
            S.must_finish(n, 'cleaning a clean table', 'cleaning-fails')
            t = S.read_table(w, fixed_name(fixed))
            if t.error or t.entries() != clean.entries():
                raise Violation('wrong-table', 'cleaning a clean table does not leave its entries as they are (%s)' % (
                    t.error or sorted(set(t.entries()) ^ set(clean.entries()))[:2]))
        elif how == 'join':
            d = 'joining%d' % k
            os.makedirs(os.path.join(w.root, d))
            with open(os.path.join(w.root, fixed), 'rb') as f:
                data = f.read()
            w.write_file(d + '/x_part00.pkl', data)
            w.write_file(d + '/x_part01.pkl', data)
            w.settle()
            n = S.join(w, 'after%d' % k, d, 'joined%d.pkl' % k)
            w.run()
            S.must_finish(n, 'joining cleaned tables')
            t = S.read_table(w, 'joined%d.pkl' % k)
            if t.error or set(t.entries()) != set(clean.entries()):
                raise Violation('wrong-table', 'cleaned tables that are joined differ from them (%s)' % (
                    t.error or sorted(set(t.entries()) ^ set(clean.entries()))[:2]))
        elif how == 'expand':
            c = dict(scn['later'], hashtable_file=fixed)
            w.write_file('a%d.ini' % k, ini.text(c))
            n = S.session(w, 'after%d' % k, 'a%d.ini' % k)
            w.run()
            S.must_finish(n, 'expanding a cleaned table')
            t = S.read_table(w, S.stored_name(n))
            if t.error:
                raise Violation('wrong-table', 'an expanded cleaned table cannot be loaded: %s' % t.error)
            got = t.entries()
            for e, kk in clean.entries().items():
                if got.get(e, 0) < kk:
                    raise Violation('lost-entry', 'expanding a cleaned table loses %s' % (e,))
            exp = model.expected_table(c['ab_polys_type'], c['ab_polys_special_params'], c['a_coeffs_range'],
                                       c['b_coeffs_range'], c['hashtable_num_of_iterations'],
                                       c['postproc_funcs_filter'])
            have = {e[1] for e in got}
            old = {e[1] for e in clean.entries()}
            for pt, (val, must) in exp.items():
                if must and val.ok and pt not in have:
                    raise Violation('lost-entry', 'expanding a cleaned table does not add %s' % (pt,))
            for pt in have:
                if pt not in exp and pt not in old:
                    raise Violation('wrong-table', 'expanding a cleaned table adds %s' % (pt,))
        else:
            # a search in it finds no result that is not in it
            c = G.search_cfg(core_rng(scn), gen_hashtable_only=False, hashtable_file=fixed,
                             hashtable_file_operation='use')
            c['hashtable_precision'] = scn['setup'][-1]['hashtable_precision']
            for f in ('ab_polys_type', 'ab_polys_special_params'):
                c[f] = scn['setup'][-1][f]
            w.write_file('a%d.ini' % k, ini.text(c))
            b = w.snapshot()
            n = S.session(w, 'after%d' % k, 'a%d.ini' % k)
            w.run()
            S.must_finish(n, 'searching in a cleaned table')
            res = S.results_of(w, n, b)
            for row in res.rows:
                if statuses(row.pair) == 'out':
                    raise Violation('not-removed', 'a search in the cleaned table finds %s' % (row.raw,))
    now = w.snapshot()
    for p in (src, fixed):
        if now.get(p) != snap.get(p):
            raise Violation('source-changed', 'the uses of the cleaned table change %s' % p)


def core_rng(scn):
    from sim import rng
    return rng.Rng('%s/search' % scn['seed'])


def shrink(scn):
    for k in range(len(scn['old'])):
        s = copy.deepcopy(scn)
        del s['old'][k], s['where'][k]
        yield s
        if len(scn['old'][k]) > 1:
            for j in range(len(scn['old'][k])):
                s = copy.deepcopy(scn)
                del s['old'][k][j]
                yield s
    for k in range(len(scn['beside'])):
        s = copy.deepcopy(scn)
        del s['beside'][k]
        yield s
    if scn['again']:
        s = copy.deepcopy(scn)
        s['again'] = False
        yield s
    if len(scn['setup']) > 1:
        s = copy.deepcopy(scn)
        s['setup'].pop()
        yield s
    for k in range(len(scn['after'])):
        s = copy.deepcopy(scn)
        del s['after'][k]
        yield s
