"""What a table holds is decided by what was asked for, and not by the way it was built."""
import os

from sim import core, ini, model, sessions as S
from sim import gen as G
from sim.harness import Violation
from .c01 import gen_faults

PID = 'C02'
LEVEL = 'exploration'
TECH = ('seeded search over build histories with interruptions, refinement against a reference enumeration of the '
        'table')
NOTE = ('Sampled spaces of up to a few hundred pairs and histories of up to a few steps; the reference evaluates '
        "exactly, and entries whose value is within rounding of a digit's border are left open.")
COUNT = {'quick': 1400, 'thorough': 15000}
RULE = ('A random search space (polynomial type, interlaces, ranges, post-process functions, depth and precision) is '
        'built by a random history: one session, a session per piece and expansions in a random order, or calls of the '
        'library in one or two processes; some of the steps are interrupted (crash, Ctrl-C, disk error, no memory) and '
        'repeated. After each step the table is compared with the reference enumeration. Non-trivial: the reference '
        'table is not empty, and the history has at least two steps or a fault that fired.')


def cut_ranges(r, cfg):
    """Cuts one range of the config in two (or returns None)."""
    opts = []
    for side in ('a_coeffs_range', 'b_coeffs_range'):
        for i, p in enumerate(cfg[side]):
            for j, (lo, hi) in enumerate(p):
                if hi - lo >= 2:
                    opts.append((side, i, j, lo, hi))
    if not opts:
        return None
    side, i, j, lo, hi = r.choice(opts)
    m = r.randint(lo + 1, hi - 1)
    res = []
    for a, b in ((lo, m), (m, hi)):
        c = dict(cfg)
        c[side] = [[list(x) for x in p] for p in cfg[side]]
        c[side][i][j] = [a, b]
        res.append(c)
    return res


def gen(r, ctx, i):
    kind = r.weighted([(2, 'single'), (5, 'sessions'), (4, 'library')])
    path = r.choice(['ht.pkl', 'd/ht.pkl', 'ht_v1.pkl'])
    first = G.table_cfg(r, 60 if kind == 'single' else 24, hashtable_file=path)
    ops = [first]
    if kind != 'single':
        for k in range(r.randint(1, 3)):
            how = r.below(4)
            if how == 0:
                c = cut_ranges(r, ops[-1])
                if c:
                    c = r.shuffle(c)
                    ops[-1:] = c
                    continue
            if how <= 1 and r.chance(0.5):
                c = dict(ops[-1])                      # the same space again, maybe with other functions
                if r.chance(0.7):
                    c['postproc_funcs_filter'] = r.sample(G.CHEAP, r.randint(1, 3))
            else:
                c = G.table_cfg(r, 24, hashtable_file=path, hashtable_precision=first['hashtable_precision'],
                                hashtable_num_of_iterations=first['hashtable_num_of_iterations'])
                if r.chance(0.5):
                    c['postproc_funcs_filter'] = first['postproc_funcs_filter']
            if r.chance(0.25):
                c['hashtable_precision'] = r.choice([4, 6, 8, 12])
            ops.append(c)
        for c in ops[1:]:
            c['hashtable_file_operation'] = 'expand'
        ops[0] = dict(ops[0], hashtable_file_operation='generate')
    scn = {'kind': kind, 'seed': ctx.scn['seed'], 'ops': ops, 'faults': [], 'restart': [r.chance(0.4) for _ in ops]}
    if kind != 'single' and r.chance(0.6):
        k = r.below(len(ops))
        if kind == 'sessions':
            w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
            os.makedirs(os.path.join(w.root, 'd'))
            n = None
            for j in range(k + 1):
                n = one(w, scn, j, 'op%d' % j, [])
            scn['faults'] = [dict(f, op=k) for f in gen_faults(r, n.points, 'op%d' % k, kinds=[
                (4, 'crash'), (5, 'ki'), (2, 'enospc'), (1, 'eio'), (1, 'mem')], n=1)]
            ticks = [i for i, (p, d) in enumerate(n.points) if p == 'tick']
            for f in scn['faults']:
                if f['type'] == 'ki' and ticks and r.chance(0.7):
                    # while the table is built
                    f['at'], f['lines'] = r.choice(ticks), r.loguniform(1, 400)
            ctx.drop(w)
        else:
            for _ in range(r.randint(1, 2)):
                scn['faults'].append({'op': r.below(len(ops)), 'type': r.choice(['ki', 'mem']), 'skip': r.below(30),
                                      'lines': r.loguniform(1, 200)})
            scn['redo'] = r.chance(0.3)
    return scn


def one(w, scn, j, name, faults):
    w.write_file('op%d.ini' % j, ini.text(scn['ops'][j]))
    n = S.session(w, name, 'op%d.ini' % j, faults)
    w.run()
    return n


def newest(w, before):
    new = sorted(set(S.pkl_files(w)) - set(before))
    return new


def check(scn, k, table, what, prev=None):
    ops = scn['ops'][:k + 1]
    depth = ops[0]['hashtable_num_of_iterations']
    exp = model.merge_expected(*[S.expected_of(dict(c, hashtable_num_of_iterations=depth)) for c in ops])
    if table.error:
        raise Violation('unreadable-table', 'the table after %s cannot be loaded: %s' % (what, table.error))
    bad = model.check_table(table.keys, exp, sorted({c['hashtable_precision'] for c in ops}))
    if bad:
        cls = ('missing-entry' if 'missing' in bad else 'repeated-entry' if 'times' in bad else
               'foreign-entry' if 'unexpected' in bad else 'wrong-key')
        raise Violation(cls, 'after %s: %s' % (what, bad))
    # what's new is stored in the precision of the step, unless its digits were there already
    acc = ops[k]['hashtable_precision']
    for key in table.keys:
        if len(key) != acc + 2 and (prev is None or key not in prev.keys):
            raise Violation('wrong-precision', 'after %s: new entries are stored under %s, and the precision is %d' % (
                what, key, acc))
    return exp


def run_sessions(scn, ctx):
    w = ctx.world('main')
    os.makedirs(os.path.join(w.root, 'd'))
    exp, prev = {}, None
    for k in range(len(scn['ops'])):
        fl = [f for f in scn['faults'] if f['op'] == k]
        before = S.pkl_files(w)
        n = one(w, scn, k, 'op%d' % k, fl)
        new = newest(w, before)
        if not n.finished_ok():
            if not fl or not w.fired:
                S.must_finish(n, 'session %d (%s)' % (k, scn['ops'][k]['hashtable_file_operation']))
            if not new:
                n = one(w, scn, k, 'op%d-again' % k, [])
                S.must_finish(n, 'session %d, repeated after %s,' % (k, sorted(w.fired)), 'no-recovery')
                new = newest(w, before)
        if len(new) != 1:
            raise Violation('wrong-files', 'session %d saves %s' % (k, new))
        table = S.read_table(w, new[0])
        exp = check(scn, k, table, 'session %d (%s)%s' % (
            k, scn['ops'][k]['hashtable_file_operation'], ' and %s' % sorted(w.fired) if w.fired else ''), prev)
        prev = table
    if exp and (len(scn['ops']) > 1 or w.fired):
        ctx.nontrivial()
    ctx.count('entries', len(exp))


def run_library(scn, ctx):
    """The same through the library, with an interrupt in the middle of a build, which is then repeated."""
    w = ctx.world('main')
    ops = scn['ops']
    state = {'k': 0}

    def build(node, mitm, c, k):
        """A build that may be interrupted, and is repeated if it was."""
        faults = [f for f in scn['faults'] if f['op'] == k]
        for f in faults + [None]:
            if f is not None:
                at = node.npoints + f['skip']
                node.faults.setdefault(at, []).append({'at': at, 'type': f['type'], 'lines': f['lines'],
                                                       'stop_kinds': []})
            try:
                mitm.build_hashtable(range_a=c['a_coeffs_range'], range_b=c['b_coeffs_range'])
                if not scn.get('redo'):
                    # it ended normally, so the table is built
                    f = None
            except (KeyboardInterrupt, MemoryError):
                pass
            except RuntimeError as e:
                # (what's interrupted is a generator, and Python converts some of the exceptions)
                if f is None:
                    raise
            node.disarm()
            node.faults.clear()
            if f is None:
                break

    def dump(mitm):
        import dill
        with open('mitm.pkl', 'wb') as f:
            dill.dump(mitm, f)

    def process_all(node):
        # several operations in one process
        while state['k'] < len(ops):
            process_one(node)
            if state['k'] < len(ops) and scn['restart'][state['k']]:
                return

    holder = {}

    def process_one(node):
        ep = node.mod('enum_params')
        pf = node.mod('postprocfuncs')
        types = node.mod('enum_poly_params').AB_POLYS_TYPES
        gc = node.mod('gen_consts')
        import dill
        k = state['k']
        c = ops[k]
        if holder.get('node') is not node:
            holder['node'], holder['mitm'] = node, None
            if k:
                with open('mitm.pkl', 'rb') as f:
                    holder['mitm'] = dill.load(f)
        mitm = holder['mitm']
        inds = [pf.POSTPROC_FUNCS.index(t) for t in c['postproc_funcs_filter']]
        kw = dict(target_generator=gc.gen_e_const, target_name='e', postproc_funcs_filter=inds,
                  hashtable_prec=c['hashtable_precision'], ab_poly_class=types[c['ab_polys_type']],
                  ab_poly_special_params=c['ab_polys_special_params'], prec=50)
        if mitm is None:
            mitm = holder['mitm'] = ep.MITM(num_of_iterations=c['hashtable_num_of_iterations'], **kw)
        else:
            mitm.redefine_settings(**kw)
        build(node, mitm, c, k)
        dump(mitm)
        with open('mitm%d.pkl' % k, 'wb') as f:
            dill.dump(mitm, f)
        state['k'] = k + 1

    while state['k'] < len(ops):
        n = w.spawn('process', process_all)
        w.run()
        S.must_finish(n, 'building the table through the library (step %d)' % state['k'])
    tabs = S.read_tables(w, ['mitm%d.pkl' % k for k in range(len(ops))])
    exp = {}
    for k in range(len(ops)):
        exp = check(scn, k, tabs['mitm%d.pkl' % k], 'step %d of the library history%s' % (
            k, ' and %s' % sorted(w.fired) if w.fired else ''), tabs['mitm%d.pkl' % (k - 1)] if k else None)
    if exp and (len(ops) > 1 or w.fired):
        ctx.nontrivial()
    ctx.count('entries', len(exp))


def run(scn, ctx):
    if not scn['ops']:
        return
    if scn['kind'] != 'library' and scn['ops'][0]['hashtable_file_operation'] != 'generate':
        return
    if scn['kind'] == 'library':
        run_library(scn, ctx)
    else:
        run_sessions(scn, ctx)


def shrink(scn):
    import copy
    for k, c in enumerate(scn['ops']):
        if len(c['postproc_funcs_filter']) > 1:
            for t in c['postproc_funcs_filter']:
                s = copy.deepcopy(scn)
                s['ops'][k]['postproc_funcs_filter'] = [t]
                yield s
        for side in ('a_coeffs_range', 'b_coeffs_range'):
            for i, p in enumerate(c[side]):
                for j, (lo, hi) in enumerate(p):
                    if hi - lo > 1:
                        for m in ([lo, lo + 1], [hi - 1, hi], [lo, hi - 1], [lo + 1, hi]):
                            s = copy.deepcopy(scn)
                            s['ops'][k][side][i][j] = m
                            yield s
