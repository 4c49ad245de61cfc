"""Versions of tables: the newest is loaded, the next one is saved, and nothing is overwritten."""
import copy
import os
import re

from sim import core, ini, model, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C04'
LEVEL = 'exploration'
TECH = ('seeded search over directories and histories of sessions with crashes, against a reference model of the '
        'versions')
NOTE = ('Sampled histories of 2-6 real sessions on one directory.')
COUNT = {'quick': 1000, 'thorough': 12000}
RULE = ('A directory with 0-5 tables under versioned names (with gaps, two-digit versions, files with no version, tables '
        'of similar names, and files that only look like versions), and a history of 2-6 sessions (generate, expand, '
        'use) on it, each of which names the table in a way of its own; a part of the sessions runs beside another one '
        'on another table, or is hit by a crash, a power loss, Ctrl-C or a disk error, and the history goes on. '
        'Non-trivial: a session loaded or saved a table beside an older version of it.')
FAULTS = [(4, 'crash'), (2, 'powerloss'), (2, 'eio'), (2, 'enospc'), (1, 'eacces'), (1, 'emfile'), (2, 'ki'), (1, 'mem')]
BASES = ['ht', 'table', 'My.Table', 'h.t', 'hxt', 'ht2', 'ht_v', 'ht_vx', 'my_ht', 'ht_v1_b', 'a+b', 'ht-part', 'HT',
         'ht_part00', 'ht_fixed', 'v1', '_v', 'ht[1]', 'ht v2']


def decoys(r, base):
    k = r.randint(2, 30)
    return r.choice(['%s_v%d.pkl.bak' % (base, k), '%s_v%d.txt' % (base, k), '.%s_v%d.pkl.123.tmp' % (base, k),
                     '%s_v%d.PKL' % (base, k), '%s_vx.pkl' % base, 'my%s_v%d.pkl' % (base, k),
                     '%s_v%d_fixed.pkl' % (base, k), '%s_v%d_part01.pkl' % (base, k), '%s_v%d (copy).pkl' % (base, k),
                     '%s_v-%d.pkl' % (base, k), '%s v%d.pkl' % (base, k), '%s_v%d' % (base, k), '%sv%d.pkl' % (base, k),
                     '%s_v%d.pkl~' % (base, k), '%s_V%d.pkl' % (base, k), 'x_%s_v%d.pkl' % (base, k),
                     '%s_v%d.1.pkl' % (base, k), '%s_v%dpkl' % (base, k), '%s_v.pkl' % base, '%s_.pkl' % base])


def split(filename):
    """(base, version or None) that a configured name says."""
    if not filename.endswith('.pkl'):
        filename += '.pkl'
    m = re.fullmatch(r'(.*)_v([0-9]+)\.pkl', filename)
    return (m.group(1), int(m.group(2))) if m else (filename[:-4], None)


def resolve(names, filename, op):
    """What a session has to load and to save, in a directory with these files. -> (load, save), either may be None"""
    base, v = split(filename)
    have = []
    for n in names:
        if n == base + '.pkl':
            have.append((0, n))
        elif n.startswith(base + '_v') and n.endswith('.pkl') and re.fullmatch('[0-9]+', n[len(base) + 2:-4]):
            have.append((int(n[len(base) + 2:-4]), n))
    if not have:
        return None, ('%s_v%d.pkl' % (base, 1 if v is None else v) if op == 'generate' else None)
    newest = max(have)
    save = '%s_v%d.pkl' % (base, newest[0] + 1)
    return (newest[1] if op != 'generate' else None), (save if op != 'use' else None)


def gen(r, ctx, i):
    post = r.sample(G.CHEAP, r.choice([1, 2]))
    common = {'hashtable_precision': r.choice([6, 8]), 'hashtable_num_of_iterations': r.choice([5, 12])}

    def table(path, op='generate'):
        return G.table_cfg(r, 12, r.weighted([(6, 'normal'), (1, 'indexed'), (1, 'sparse')]), hashtable_file=path,
                           hashtable_file_operation=op, postproc_funcs_filter=r.sample(post, r.randint(1, len(post))),
                           **common)
    bases = r.sample(BASES, r.choice([1, 2, 2, 3]))
    d = r.choice(['', '', 'tables', 'a/b.c'])
    scn = {'kind': 'history', 'seed': ctx.scn['seed'], 'dir': d, 'tables': [], 'decoys': [], 'ops': []}
    for b in bases:
        vs = r.weighted([(2, []), (2, [1]), (2, [1, 2]), (3, [9, 10]), (2, [2, 11]), (1, [3]), (2, [1, 2, 3]), (1, [99, 100]),
                         (1, [0, 1]), (1, [8, 9, 10])])
        names = ['%s_v%d.pkl' % (b, v) for v in vs]
        if 0 not in vs and r.chance(0.3):
            names.append(b + '.pkl')
        for n in names:
            scn['tables'].append([n, table('x.pkl')])
        for _ in range(r.weighted([(3, 0), (2, 1), (2, 3)])):
            n = decoys(r, b)
            # (that isn't a version of another table here)
            if not any(resolve([n], x, 'use')[0] for x in bases) and n not in scn['decoys']:
                scn['decoys'].append(n)

    def step(b):
        how = r.weighted([(3, '%s.pkl'), (2, '%s'), (3, '%s_v1.pkl'), (2, '%%s_v%d.pkl' % r.randint(1, 12)),
                          (1, '%s_v2')])
        name = how % b
        if name.endswith('.pkl') and split(name)[0] != b or not name.endswith('.pkl') and split(name)[0] != b:
            name = b + '_v1.pkl'
        p = (d + '/' if d else r.choice(['', '', './'])) + name
        op = r.weighted([(3, 'generate'), (3, 'expand'), (2, 'use')])
        c = table(p, op)
        if op == 'use':
            c['gen_hashtable_only'] = True
        o = {'cfg': c}
        if r.chance(0.2):
            o['faults'] = [gen_fault(r)]
        return o
    for _ in range(r.randint(2, 6)):
        b = r.choice(bases)
        o = step(b)
        others = [x for x in bases if x != b]
        if others and r.chance(0.3):
            o['beside'] = step(r.choice(others))
            o['preempt'] = r.choice([0.1, 0.5])
        if r.chance(0.3):
            o['settle'] = True
        scn['ops'].append(o)
    return scn


def gen_fault(r):
    t = r.weighted(FAULTS)
    f = {'at': r.loguniform(1, 70) - 1, 'type': t}
    if t in ('crash', 'enospc', 'eio') and r.chance(0.5):
        f['partial'] = True
        f['frac'] = r.below(100) / 100.0
    if t in ('ki', 'mem'):
        f['lines'] = r.loguniform(1, 400)
    if t == 'powerloss':
        f['seed'] = r.below(1 << 30)
    return f


def run(scn, ctx):
    w = ctx.world('main')
    d = scn['dir']
    os.makedirs(os.path.join(w.root, d), exist_ok=True)
    # the tables that are there at first
    made = {}
    if scn['tables']:
        m = ctx.world('tables', scn={'seed': scn['seed'], 'schedules': {}})

        def make(node, k):
            # (a process per table, as the tables are of different searches)
            return node.mod('main').main('t%d.ini' % k)
        for k, (name, c) in enumerate(scn['tables']):
            m.write_file('t%d.ini' % k, ini.text(dict(c, hashtable_file='t%d.pkl' % k)))
            n = S.session(m, 't%d' % k, 't%d.ini' % k)
            m.run()
            S.must_finish(n, 'a session that makes a table')
            out = [p for p in S.pkl_files(m) if p.startswith('t%d_' % k) or p == 't%d.pkl' % k]
            if len(out) != 1:
                raise Violation('wrong-files', 'a new table t%d is saved as %s' % (k, out))
            made[name] = S.pkl_files(m)[out[0]]
        ctx.drop(m)
    contents = {}
    for name, c in scn['tables']:
        w.write_file(os.path.join(d, name), made[name])
        contents[os.path.join(d, name)] = [c]
    for name in scn['decoys']:
        w.write_file(os.path.join(d, name), b'\x80not a table')
    w.settle()
    initial = set(w.snapshot())

    def kept():
        # (what a killed session left of a file that it was saving doesn't matter)
        return {p: b for p, b in w.snapshot().items() if p in initial or p.endswith('.pkl')}

    for k, o in enumerate(scn['ops']):
        group = [o] + ([o['beside']] if o.get('beside') else [])
        before = kept()
        there = set(w.snapshot())
        here = [os.path.relpath(p, d or '.') for p in there if os.path.dirname(p) == d]
        nodes = []
        for g, x in enumerate(group):
            c = x['cfg']
            path = 'op%d_%d.ini' % (k, g)
            w.write_file(path, ini.text(c))
            load, save = resolve(here, os.path.basename(c['hashtable_file']), c['hashtable_file_operation'])
            nodes.append((S.session(w, 'op%d_%d' % (k, g), path, x.get('faults')), c, load, save, x))
            if load and load not in [n for n, _ in scn['tables']] or save and save != split(save)[0] + '_v1.pkl':
                ctx.nontrivial()
        fired0 = dict(w.fired)
        w.preempt = o.get('preempt', 0.0)
        w.run()
        w.preempt = 0.0
        fired = sorted(f for f in w.fired if w.fired[f] != fired0.get(f))
        power = any(f.startswith('powerloss') for f in fired)
        if o.get('settle'):
            w.settle()
        after = kept()
        for p, b in before.items():
            if p not in after:
                if power:
                    contents.pop(p, None)
                    continue
                raise Violation('lost-file', '%s is gone after step %d (%s)' % (p, k, [x[1]['hashtable_file_operation']
                                                                                   for x in nodes]))
            if after[p] != b:
                raise Violation('overwritten', '%s is changed by step %d (%s %s)' % (
                    p, k, [(x[1]['hashtable_file_operation'], x[1]['hashtable_file']) for x in nodes], fired))
        new = {p for p in (after if fired else w.snapshot()) if p not in there and not p.endswith('.ini')}
        expected = {os.path.join(d, save): (n, c, load, x) for n, c, load, save, x in nodes if save}
        for p in sorted(new):
            if p not in expected:
                raise Violation('wrong-name', 'step %d (%s, in a directory of %s) creates %s instead of %s' % (
                    k, [(x[1]['hashtable_file_operation'], x[1]['hashtable_file']) for x in nodes], sorted(here), p,
                    sorted(expected)))
        for n, c, load, save, x in nodes:
            op, name = c['hashtable_file_operation'], c['hashtable_file']
            if op != 'generate' and load is None:
                if n.finished_ok():
                    raise Violation('silent-failure', 'the table %s is not there, but a session that has to %s it '
                                    'finishes' % (name, op))
                continue
            hit = bool(x.get('faults')) and bool(fired)
            if not hit and not power:
                if not n.finished_ok():
                    raise Violation('session-fails', '%s of %s in a directory of %s fails: %s' % (
                        op, name, sorted(here), S.describe(n)))
                if save and os.path.join(d, save) not in new:
                    raise Violation('wrong-name', '%s of %s in a directory of %s saves nothing as %s' % (
                        op, name, sorted(here), save))
            got = S.loaded_name(n)
            if got is not None and load is not None and got != os.path.normpath(os.path.join(d, load)):
                raise Violation('wrong-version', '%s of %s in a directory of %s loads %s instead of %s' % (
                    op, name, sorted(here), got, load))
            got = S.stored_name(n)
            if got is not None and (save is None or got != os.path.normpath(os.path.join(d, save))):
                raise Violation('wrong-name', '%s of %s in a directory of %s says it saves %s instead of %s' % (
                    op, name, sorted(here), got, save))
        # what's saved is what was asked for, on top of what was loaded
        tabs = S.read_tables(w, sorted(new))
        for p in sorted(new):
            n, c, load, x = expected[p]
            t = tabs[p]
            if t.error:
                raise Violation('unreadable-table', '%s cannot be loaded (%s): %s' % (p, fired, t.error))
            cs = (contents[os.path.join(d, load)] if load else []) + [c]
            contents[p] = cs
            exp = model.merge_expected(*[S.expected_of(c) for c in cs])
            err = model.check_table(t.keys, exp, c['hashtable_precision'])
            if err:
                raise Violation('wrong-content', '%s (%s, of %s) has a wrong content: %s' % (
                    p, c['hashtable_file_operation'], load, err))
        ctx.count('steps')
        ctx.count('op-' + o['cfg']['hashtable_file_operation'])


def shrink(scn):
    for k in range(len(scn['tables'])):
        s = copy.deepcopy(scn)
        del s['tables'][k]
        yield s
    for k in range(len(scn['decoys'])):
        s = copy.deepcopy(scn)
        del s['decoys'][k]
        yield s
    for k, o in enumerate(scn['ops']):
        for key in ('beside', 'faults', 'settle'):
            if o.get(key):
                s = copy.deepcopy(scn)
                s['ops'][k].pop(key)
                yield s
