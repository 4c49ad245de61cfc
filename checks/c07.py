"""The configs that the programs save say what was run, and can be run again."""
import copy
import json
import os

from checks.c01 import gen_faults
from sim import ini, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C07'
LEVEL = 'exploration'
TECH = ('seeded search over chains of programs that are started with saved configs, with crashes, against a '
        'reference model of the configs')
NOTE = ('Sampled chains of 2-4 real programs.')
COUNT = {'quick': 750, 'thorough': 9000}
RULE = ('A chain of 2-4 programs, each started with a config that the one before it saved: searches (the config.ini of '
        'the results) and distributions (of a config or of a distributed part), some of them repeated after a crash, an '
        'interrupt or a disk error in the middle of the first attempt, some with another session beside. Every config is '
        'read back by a new process. Non-trivial: a saved config was run or distributed again.')
FAULTS = [(4, 'crash'), (2, 'ki'), (2, 'eio'), (2, 'enospc'), (2, 'powerloss'), (1, 'eacces')]


def style(r, cfg):
    """The text of a config, written as a user may."""
    keys = list(cfg)
    if r.chance(0.5):
        keys = r.shuffle(keys)
    up = r.chance(0.2)
    out = ['[Setup]'] if r.chance(0.9) else ['; search', '[Setup]', '# a comment']
    eq = r.choice(['=', ' = ', ': ', '='])
    for k in keys:
        v = cfg[k]
        if isinstance(v, bool):
            s = r.choice(['true', 'True', 'TRUE']) if v else r.choice(['false', 'False'])
        elif v is None:
            s = r.choice(['none', 'None'])
        elif isinstance(v, str):
            s = v
            if up and k in ('const', 'ab_polys_type', 'hashtable_file_operation'):
                s = s.capitalize()
        else:
            s = json.dumps(v)
            if r.chance(0.3):
                s = s.replace(', ', ',')
        s = s.replace('%', '%%')
        out.append('%s%s%s' % (k.upper() if up and r.chance(0.3) else k, eq, s))
        if r.chance(0.05):
            out.append('')
    return '\n'.join(out) + '\n'


def gen(r, ctx, i):
    kind = r.weighted([(4, 'search'), (5, 'distribute'), (2, 'mixed')])
    name = r.choice(['ht', 'Table', 'my table', 'a.b', 'ht_v3', 'x_v', 'a_part01', 'h50%t', 'a=b;c #d'])
    path = os.path.join(r.choice(['', '', 'Tables']), name + r.choice(['', '.pkl', '.pkl']))
    if name == 'a.b':
        path = 'a.b.pkl'
    if kind == 'distribute':
        cfg = G.table_cfg(r, 60)
        cfg['const'] = r.choice(['phi', 'pi', 'e', 'apery', 'euler_masch', 'zeta', 'percolation', 'feig'])
        cfg['i'] = {'zeta': r.randint(2, 20), 'percolation': r.below(2), 'feig': r.below(4)}.get(cfg['const'], r.below(9))
        cfg['lhs_type'] = r.choice(['ulcd', 'rationalfunc'])
        cfg['lhs_params'] = r.choice([[1, 1, 1, 2], [[-3, 4], 2, 3, [1, 5]]]) if cfg['lhs_type'] == 'ulcd' else \
            r.choice([[[[0, 2], [0, 2]], [[1, 2], [0, 2]], True], [[[-1, 3]], [[0, 2], [-2, 2], [1, 3]], False]])
        cfg['gen_hashtable_only'] = r.choice(['auto', True, False])
    else:
        cfg = G.search_cfg(r, small=True, gen_hashtable_only=False)
    cfg['hashtable_file'] = path
    cfg['print_surprising_nonexp_contfracs'] = r.chance(0.3)
    cfg['validate_hashtable_extend_no_replication'] = r.chance(0.7)
    if r.chance(0.3):
        cfg['is_test'] = r.chance(0.5)
    for k in ('i', 'validate_hashtable_extend_no_replication'):
        if r.chance(0.3) and not (k == 'i' and cfg['const'] in ('zeta', 'percolation', 'feig')):
            cfg.pop(k)
    if r.chance(0.3):
        for k in ('first', 'second', 'third'):
            cfg[k + '_filtering_precision'] += r.below(3)
    ops, c = [], cfg
    n = r.randint(2, 4) if kind != 'search' else 2
    for k in range(n):
        if kind == 'search' or (kind == 'mixed' and k % 2 == 0):
            ops.append({'op': 'search'})
        else:
            cands = [m for m in (1, 2, 2, 4, 8) if S.dividable(c, m)]
            if kind == 'mixed' and not S.dividable(c, 2) and r.chance(0.7):
                cands = [1]
            m = r.choice(cands)
            # (a part may be less dividable)
            ops.append({'op': 'distribute', 'n': m, 'take': r.below(m)})
            c = dict(c, a_coeffs_range=[[[0, 1]]], b_coeffs_range=[[[0, 1]]])
    scn = {'kind': kind, 'cfg': cfg, 'text': style(r, cfg), 'ops': ops, 'seed': ctx.scn['seed'],
           'dir': r.choice(['', '', 'conf', 'a.dir']), 'faults': []}
    scn['file'] = os.path.join(scn['dir'], r.choice(['c.ini', 'config.ini', 'My Config.ini', 'c.v2.ini']))
    if r.chance(0.4):
        k = r.below(len(ops))
        kinds = r.weighted(FAULTS)
        scn['faults'] = [{'op': k, 'node': 'victim', 'at': r.loguniform(1, 400) if ops[k]['op'] == 'search' else
                          r.loguniform(1, 80), 'type': kinds, 'lines': r.loguniform(1, 2000),
                          'frac': r.below(100) / 100.0, 'seed': r.below(1 << 30)}]
    return scn


def run(scn, ctx):
    w = ctx.world('main')
    for d in ('Tables', scn['dir']):
        if d:
            os.makedirs(os.path.join(w.root, d), exist_ok=True)
    w.write_file(scn['file'], scn['text'])
    cur, exp = scn['file'], config_of_first(scn['cfg'])
    got = S.parse_configs(w, [cur])[cur]
    compare(got, exp, 'the config %r is not taken as it is written' % cur)
    exp = got
    rows = None
    for k, op in enumerate(scn['ops']):
        faults = [f for f in scn['faults'] if f['op'] == k]
        for attempt in ([faults] if faults else []) + [[]]:
            if op['op'] == 'search':
                before = w.snapshot()
                n = S.session(w, 'victim', cur, attempt)
            else:
                n = S.distribute(w, 'victim', op['n'], cur, attempt)
            w.run()
            if w.fired:
                w.settle()
                if not attempt and not os.path.exists(os.path.join(w.root, cur)):
                    return
        if op['op'] == 'search':
            S.must_finish(n, 'a search with the config %r' % cur)
            res = S.results_of(w, n, before)
            # (the table's file is the one which that session used)
            used = S.stored_name(n) or S.loaded_name(n)
            cur = os.path.join(res.dir, 'config.ini')
            exp = dict(exp, hashtable_file=None)
            got = S.parse_configs(w, [cur])[cur]
            compare(got, exp, 'the config of the results differs from what was run')
            import configparser
            p = configparser.ConfigParser()
            p.read_string(res.config)
            if used and os.path.normpath(p['Setup']['hashtable_file']) != used:
                raise Violation('wrong-config', 'the config of the results names the table %s instead of %s' % (
                    p['Setup']['hashtable_file'], used))
            key = sorted(map(repr, S.canonical_results(res)))
            if rows is not None and key != rows[0]:
                raise Violation('results-differ', 'the saved config has other results than the search that saved it: '
                                '%s' % sorted(set(key) ^ set(rows[0]))[:3])
            rows = (key,)
            exp = got
            w.settle()
        else:
            if not n.finished_ok():
                if S.dividable(exp, op['n']):
                    raise Violation('session-fails', 'distributing the config %r to %d fails with no fault: %s' % (
                        cur, op['n'], S.describe(n)))
                ctx.count('not dividable')
                break
            base, ext = os.path.splitext(cur)
            d = '%s_dist_%d' % (base, op['n'])
            parts = ['%s/%s_%d%s' % (d, os.path.basename(base), j, ext) for j in range(op['n'])]
            have = sorted('%s/%s' % (d, f) for f in w.snapshot(d))
            if sorted(parts) != have:
                raise Violation('wrong-files', 'a distribution to %d created %s' % (op['n'], have))
            got = S.parse_configs(w, parts)
            union, tables = {}, set()
            for p in parts:
                compare(got[p], exp, 'a distributed config differs from the original', ('hashtable_file', 'a_coeffs_range',
                                                                                    'b_coeffs_range'))
                if [len(x) for x in got[p]['a_coeffs_range'] + got[p]['b_coeffs_range']] != \
                        [len(x) for x in exp['a_coeffs_range'] + exp['b_coeffs_range']]:
                    raise Violation('wrong-config', 'the ranges of the part %s have another shape' % p)
                for box in boxes(got[p]):
                    if box in union:
                        raise Violation('parts-overlap', '%s and %s share %s' % (p, union[box], box))
                    union[box] = p
                if got[p]['hashtable_file'] in tables:
                    raise Violation('parts-overlap', 'two parts share the table %s' % got[p]['hashtable_file'])
                tables.add(got[p]['hashtable_file'])
                if os.path.dirname(got[p]['hashtable_file']) != os.path.dirname(exp['hashtable_file']):
                    raise Violation('wrong-config', 'the table of a part is in another directory: %s / %s' % (
                        got[p]['hashtable_file'], exp['hashtable_file']))
            if set(union) != set(boxes(exp)):
                raise Violation('parts-incomplete', 'the parts have %d combinations of coefficients of %d' % (
                    len(union), len(boxes(exp))))
            cur = parts[op['take']]
            exp = got[cur]
            rows = None
            w.settle()          # (a config is written before it is used, maybe long before the power goes off)
        if k:
            ctx.nontrivial()


def boxes(c):
    import itertools
    rs = [rg for p in c['a_coeffs_range'] + c['b_coeffs_range'] for rg in p]
    return list(itertools.product(*[range(a, b) for a, b in rs]))


def config_of_first(cfg):
    exp = S.config_of(cfg)
    p = cfg['hashtable_file']
    if not p.endswith('.pkl'):
        p += '.pkl'
    import re
    if not re.search(r'_v[0-9]+\.pkl$', p):
        p = p[:-4] + '_v1.pkl'
    exp['hashtable_file'] = os.path.normpath(p)
    return exp


def compare(got, exp, what, ignore=()):
    if isinstance(got, str):
        raise Violation('unreadable-config', '%s: %s' % (what, got))
    ign = tuple(ignore) + (('hashtable_file',) if exp.get('hashtable_file') is None else ())
    d = S.config_diff(got, exp, ign)
    if d:
        raise Violation('wrong-config', '%s: %s' % (what, '; '.join(d)))


def shrink(scn):
    if scn['text'] != ini.text(scn['cfg']):
        s = copy.deepcopy(scn)
        s['text'] = ini.text(scn['cfg'])
        yield s
    for k in ('print_surprising_nonexp_contfracs', 'is_test', 'validate_hashtable_extend_no_replication', 'i'):
        if k in scn['cfg']:
            s = copy.deepcopy(scn)
            s['cfg'].pop(k)
            s['text'] = ini.text(s['cfg'])
            yield s
