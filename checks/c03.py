"""A distributed run makes the same table as a single one."""
import copy
import os
import re

from checks.c01 import gen_faults
from sim import ini, model, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C03'
LEVEL = 'exploration'
TECH = ('seeded search over interleavings and failures of the sessions of the distributed parts, refinement '
        'against the undistributed reference')
NOTE = ('Sampled: up to 8 concurrent real sessions, preempted at their operations on the simulated disk, clock and'
        ' terminal.')
COUNT = {'quick': 1300, 'thorough': 8000}
RULE = ('A config is distributed to 1-8 parts, whose sessions run concurrently (in a third of the runs started by the '
        'launcher) under 0-4 faults; the parts that were not stored are run again, and some of the stored ones too; '
        'then the newest tables of the parts are joined (in a random order of listing, in a part of the runs after a '
        'failed attempt), and the result is compared with the reference model of the undistributed table; a quarter '
        'goes on to use or expand the joined table. '
        'In a seventh of the runs there are up to 128 parts, of which only the configs are compared. Non-trivial: 2 parts or more and a non-empty table.')
FAULTS = [(5, 'crash'), (3, 'powerloss'), (2, 'eio'), (3, 'enospc'), (1, 'emfile'), (2, 'ki'), (1, 'mem'),
          (1, 'shortwrite')]


def gen_many(r, ctx):
    """Many parts, whose sessions are not run."""
    while True:
        cfg = G.table_cfg(r, 80)
        for side in ('a_coeffs_range', 'b_coeffs_range'):
            for p in cfg[side]:
                for x in p:
                    if r.chance(0.5):
                        x[0] = r.randint(-12, 12)
                        x[1] = x[0] + r.loguniform(1, 20)
        cfg['hashtable_file'] = os.path.join('parts', r.choice(['ht', 'Table', 'a.b', 'x_v', 'ht_part01', 'h_v3']) + '.pkl')
        ns = [n for n in (2, 4, 8, 16, 32, 64, 128) if S.dividable(cfg, n)]
        if ns:
            break
    n = r.choice(ns + [m for m in ns if m > 8] * 2)
    scn = {'kind': 'many-parts', 'cfg': cfg, 'n': n, 'seed': ctx.scn['seed'], 'faults': [], 'file': 'c.ini'}
    gen_earlier(r, scn)
    return scn


def gen_earlier(r, scn):
    """Under that name, another config was distributed earlier."""
    if r.chance(0.25):
        c = G.table_cfg(r, 40, hashtable_file=scn['cfg']['hashtable_file'])
        if S.dividable(c, scn['n']):
            scn['earlier'] = c


def put_earlier(scn, w):
    if scn.get('earlier'):
        w.write_file(scn['file'], ini.text(scn['earlier']))
        d = S.distribute(w, 'earlier', scn['n'], scn['file'])
        w.run()
        S.must_finish(d, 'distributing a config')
        w.settle()
    w.write_file(scn['file'], ini.text(scn['cfg']))


def gen(r, ctx, i):
    if r.chance(0.15):
        return gen_many(r, ctx)
    while True:
        cfg = G.table_cfg(r, 80)
        cfg['hashtable_file'] = os.path.join('parts', r.choice(['ht', 'Table', 'a.b', 'x_v']) + '.pkl')
        cfg['gen_hashtable_only'] = r.choice(['auto', True])
        ns = [n for n in (1, 2, 4, 8) if S.dividable(cfg, n)]
        if len(ns) > 1 or r.chance(0.05):
            break
    n = r.choice(ns[1:] * 3 + ns[:1])
    scn = {'kind': 'parts-%d' % n, 'cfg': cfg, 'n': n, 'seed': ctx.scn['seed'], 'faults': [],
           'launcher': r.chance(0.33), 'preempt': r.choice([0, 0.05, 0.2, 0.6]),
           'file': r.choice(['c.ini', 'c.ini', 'conf/my.ini']), 'rerun': [k for k in range(n) if r.chance(0.1)],
           'then': r.weighted([(6, ''), (1, 'use'), (2, 'expand')]), 'joined': r.choice(['joined.pkl', 'out/j.pkl'])}
    for _ in range(r.weighted([(3, 0), (3, 1), (2, 2), (1, 4)])):
        k = r.below(n)
        t = r.weighted(FAULTS)
        # (the operations of a small session: about 60 prints and reads, then a tick per pair, and then the saving)
        scn['faults'].append({'node': 'part%d' % k, 'at': r.choice([r.loguniform(1, 200), r.randint(30, 120)]),
                              'type': t, 'lines': r.loguniform(1, 3000), 'seed': r.below(1 << 30),
                              'frac': r.below(100) / 100.0, 'sticky': r.chance(0.3) and t == 'enospc',
                              'partial': r.chance(0.4)})
    if r.chance(0.35):
        t = r.weighted(FAULTS)
        scn['faults'].append({'node': 'join', 'at': r.below(8 * n + 12), 'type': t, 'lines': r.loguniform(1, 300),
                              'seed': r.below(1 << 30), 'frac': r.below(100) / 100.0, 'partial': r.chance(0.5)})
    if r.chance(0.2):
        scn['faults'].append({'node': 'distribute', 'at': r.loguniform(1, 100), 'type': r.weighted(FAULTS),
                              'lines': r.loguniform(1, 300), 'seed': r.below(1 << 30), 'frac': 0.5})
    gen_earlier(r, scn)
    return scn


def pairs_of(cfg):
    """The boxes of coefficients of a config, each as a flat list of ranges."""
    return [tuple(x) for side in ('a_coeffs_range', 'b_coeffs_range') for p in cfg[side] for x in p]


def run_many(scn, ctx):
    cfg, n = scn['cfg'], scn['n']
    w = ctx.world('main')
    os.makedirs(os.path.join(w.root, 'parts'))
    put_earlier(scn, w)
    d = S.distribute(w, 'distribute', n, scn['file'])
    w.run()
    S.must_finish(d, 'distributing a config to %d' % n)
    confs = sorted('c_dist_%d/%s' % (n, p) for p in w.snapshot('c_dist_%d' % n))
    if len(confs) != n:
        raise Violation('wrong-files', 'a distribution to %d created %s' % (n, confs))
    parsed = S.parse_configs(w, confs)
    names = {}
    for p in confs:
        f = os.path.normpath(parsed[p]['hashtable_file'])
        if f in names:
            raise Violation('shared-table', 'the parts %s and %s of %d have the same table, %s' % (names[f], p, n, f))
        names[f] = p
    whole = pairs_of(cfg)
    boxes = [pairs_of(parsed[p]) for p in confs]

    def volume(box):
        v = 1
        for lo, hi in box:
            v *= max(0, hi - lo)
        return v
    for p, box in zip(confs, boxes):
        if len(box) != len(whole) or any(lo < wl or hi > wh for (lo, hi), (wl, wh) in zip(box, whole)):
            raise Violation('wrong-parts', '%s has %s, out of %s' % (p, box, whole))
    for i, x in enumerate(boxes):
        for j in range(i):
            if volume([(max(a, c), min(b, d)) for (a, b), (c, d) in zip(x, boxes[j])]):
                raise Violation('wrong-parts', 'the parts %s and %s overlap' % (confs[j], confs[i]))
    if sum(map(volume, boxes)) != volume(whole):
        raise Violation('wrong-parts', 'the parts of %s have %d coefficients out of %d' % (
            whole, sum(map(volume, boxes)), volume(whole)))
    ctx.nontrivial()
    ctx.count('parts', n)


def run(scn, ctx):
    cfg, n = scn['cfg'], scn['n']
    if not S.dividable(cfg, n):
        return
    if scn['kind'] == 'many-parts':
        return run_many(scn, ctx)
    w = ctx.world('main')
    for d in ('parts', 'out', 'conf'):
        os.makedirs(os.path.join(w.root, d))
    put_earlier(scn, w)
    fl = S.faults_of(scn, 'distribute')
    for faults in ([fl] if fl else []) + [[]]:
        d = S.distribute(w, 'distribute', n, scn['file'], faults)
        w.run()
        w.settle()
    S.must_finish(d, 'distributing a config to %d' % n)
    base = os.path.splitext(scn['file'])
    ddir = '%s_dist_%d' % (base[0], n)
    confs = sorted(p for p in w.snapshot(ddir) if p.endswith(base[1]))
    if len(confs) != n:
        raise Violation('wrong-files', 'a distribution to %d created %s' % (n, confs))
    paths = [os.path.join(ddir, c) for c in confs]

    # the sessions of the parts
    w.preempt = scn['preempt']
    if scn['launcher']:
        started = []

        def on_launch(node, cmd):
            m = re.search(r'main\.py\s+(.+?)\s*$', cmd)
            p = os.path.normpath(m.group(1)) if m else None
            if p not in paths or p in started:
                raise Violation('wrong-launch', 'the launcher runs %r, the configs being %s' % (cmd, paths))
            started.append(p)
            k = paths.index(p)
            S.session(w, 'part%d' % k, p, S.faults_of(scn, 'part%d' % k), cwd=w.root)
            return 0
        w.on_launch = on_launch
        l = w.spawn('launcher', lambda node: node.mod('run_distributed_configs').main(ddir))
        w.run()
        if not w.fired:
            S.must_finish(l, 'launching the distributed configs')
        if sorted(started) != sorted(paths) and not w.fired:
            raise Violation('wrong-launch', 'the launcher ran %s out of %s' % (started, paths))
    else:
        for k, p in enumerate(paths):
            S.session(w, 'part%d' % k, p, S.faults_of(scn, 'part%d' % k))
        w.run()
    fault_free = not [f for f in scn['faults'] if f['node'].startswith('part')]
    if fault_free and not scn['launcher']:
        for x in w.nodes[-n:]:
            S.must_finish(x, 'a part of a distributed run')
    power = any(f.startswith('powerloss') for f in w.fired)
    w.settle()

    # what was not stored is run again
    files = [S.parse_configs(w, [p])[p]['hashtable_file'] for p in paths]
    again = []
    for k, p in enumerate(paths):
        if not latest(w, files[k]) or k in scn['rerun']:
            again.append(S.session(w, 'again%d' % k, p))
    w.run()
    w.preempt = 0.0
    for x in again:
        S.must_finish(x, 'a part that is run again')
    w.settle()
    tables = [latest(w, f) for f in files]
    if None in tables or len(set(tables)) != n:
        raise Violation('lost-table', 'the parts stored %s' % tables)
    for p in S.pkl_files(w):
        if p not in tables:
            os.remove(os.path.join(w.root, p))
            w.settle()

    # joining
    fl = S.faults_of(scn, 'join')
    snap = S.pkl_files(w)
    for faults in ([fl] if fl else []) + [[]]:
        if os.path.exists(os.path.join(w.root, scn['joined'])):
            # (the first attempt has saved it before it was hit)
            break
        j = S.join(w, 'join', 'parts', scn['joined'], faults)
        w.run()
        w.settle()
        if not faults:
            S.must_finish(j, 'joining the parts')
    now = S.pkl_files(w)
    if {p: b for p, b in now.items() if p != scn['joined']} != snap:
        raise Violation('damaged-table', 'joining changes the tables of the parts')
    t = S.read_table(w, scn['joined'])
    if t.error:
        raise Violation('unreadable-table', 'the joined table cannot be loaded: %s' % t.error)
    exp = S.expected_of(cfg)
    # (the same sparse polynomial with a zero coefficient may be in several parts)
    dups = n if cfg['ab_polys_type'] == 'sparse' else 1
    bad = model.check_table(t.keys, exp, cfg['hashtable_precision'], dups)
    if bad:
        raise Violation('wrong-joined-table', 'the joined table of %d parts (%s): %s' % (n, sorted(w.fired), bad))
    if n > 1 and t.keys:
        ctx.nontrivial()
    ctx.count('entries', sum(len(v) for v in t.keys.values()))

    # a table that exists isn't overwritten
    before = S.pkl_files(w)
    j = S.join(w, 'join2', 'parts', scn['joined'])
    w.run()
    if S.pkl_files(w) != before:
        raise Violation('damaged-table', 'joining to an existing file changes the tables')

    if scn['then']:
        c = dict(cfg, hashtable_file=scn['joined'], hashtable_file_operation=scn['then'], gen_hashtable_only=True)
        c2 = c
        if scn['then'] == 'expand':
            c2 = dict(c, postproc_funcs_filter=[p for p in model.POSTPROC_TEXTS[:4]
                                                if p not in cfg['postproc_funcs_filter']][:1] or
                      cfg['postproc_funcs_filter'])
        w.write_file('then.ini', ini.text(c2))
        x = S.session(w, 'then', 'then.ini')
        w.run()
        S.must_finish(x, 'to %s a joined table' % scn['then'])
        if scn['then'] == 'expand':
            new = sorted(set(S.pkl_files(w)) - set(before))
            if len(new) != 1:
                raise Violation('wrong-files', 'expanding a joined table creates %s' % new)
            t = S.read_table(w, new[0])
            bad = t.error or model.check_table(t.keys, model.merge_expected(exp, S.expected_of(c2)),
                                               cfg['hashtable_precision'], dups)
            if bad:
                raise Violation('wrong-joined-table', 'an expanded joined table: %s' % bad)


def latest(w, f):
    """The newest version of a part's table (by the rule of the config's documentation)."""
    d, b = os.path.split(f)
    m = re.fullmatch(r'(.*?)(_v[0-9]+)?\.pkl', b)
    best = None
    for p in S.pkl_files(w):
        if os.path.dirname(p) != d:
            continue
        k = re.fullmatch(re.escape(m.group(1)) + r'(?:_v([0-9]+))?\.pkl', os.path.basename(p))
        if k:
            v = int(k.group(1) or 0)
            if best is None or v > best[0]:
                best = (v, p)
    return best[1] if best else None


def shrink(scn):
    if scn['n'] > 1:
        yield dict(copy.deepcopy(scn), n=scn['n'] // 2)
    if scn.get('earlier'):
        yield dict(copy.deepcopy(scn), earlier=None)
    for k in ('launcher', 'preempt', 'rerun', 'then'):
        if scn.get(k):
            yield dict(copy.deepcopy(scn), **{k: type(scn[k])()})
    c = scn['cfg']
    if len(c['postproc_funcs_filter']) > 1:
        for t in c['postproc_funcs_filter']:
            s = copy.deepcopy(scn)
            s['cfg']['postproc_funcs_filter'] = [t]
            yield s
    for side in ('a_coeffs_range', 'b_coeffs_range'):
        for i, p in enumerate(c[side]):
            for j, (lo, hi) in enumerate(p):
                if hi - lo > 1:
                    for m in ([lo, hi - 1], [lo + 1, hi]):
                        s = copy.deepcopy(scn)
                        s['cfg'][side][i][j] = m
                        yield s
