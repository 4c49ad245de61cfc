"""Searches in one process do not influence each other."""
import copy
import os
import re

from sim import ini, model, sessions as S
from sim import gen as G
from sim.harness import Violation
from checks import c12

PID = 'C13'
LEVEL = 'exploration'
TECH = ('seeded search over sequences and interleavings of programs in one process, with failing and interrupted ones '
        'among them, compared with the same programs in processes of their own')
NOTE = ('Sampled sequences of up to 7 programs, and pairs of searches whose stages are interleaved. Searches that are '
        'interleaved work in the same precision, as that is global by design.')
COUNT = {'quick': 500, 'thorough': 12000}
RULE = ('A sequence of 2-7 programs in one process: sessions (of any constants, types of polynomials, precisions, '
        'operations on tables), distributing, joining, cleaning and library calls; some fail on purpose (bad config, '
        'error of the disk, the LaTeX compiler) or are interrupted at any line. Whatever the others make - tables, '
        'results, configs, printed reports - is compared with what they make in a new process each. In a fourth of the '
        'scenarios the stages of two or three searches are interleaved instead. Non-trivial: at least two programs '
        'made something after another one ran in the process.')

OPTIONAL = ('i', 'print_surprising_nonexp_contfracs', 'validate_hashtable_extend_no_replication', 'gen_hashtable_only')
KI_KINDS = [(4, 'ki'), (2, 'mem'), (2, 'eio'), (2, 'enospc'), (1, 'emfile'), (1, 'texfail'), (1, 'notex')]


def gen_library(r):
    k = r.weighted([(3, 0), (5, 1), (1, 2), (1, 3), (1, 4), (1, 5)])
    if k == 0:
        return {'do': 'precision', 'dps': r.choice([10, 15, 30, 50, 120, 300])}
    if k == 1:
        return {'do': 'const', 'dps': r.choice([10, 15, 50, 120]), 'const': r.choice(
            ['e', 'pi', 'phi', 'e', 'pi', 'phi', 'apery', 'euler_masch', 'zeta', 'percolation', 'feig']), 'i': r.choice([2, 3])}
    if k == 2:
        return {'do': 'contfrac', 'dps': r.choice([10, 30, 80]), 'a': [[r.randint(1, 4), r.randint(0, 2)]],
                'b': [[r.randint(1, 3)]], 'n': r.randint(3, 80), 'est': r.chance(0.5)}
    if k == 3:
        return {'do': 'enum', 'type': r.choice(['normal', 'indexed', 'sparse']), 'threshold': r.chance(0.5),
                'a': [[G.coeff_range(r)]], 'b': [[[1, 3]]]}
    if k == 4:
        return {'do': 'table', 'acc': r.choice([3, 8, 20]), 'dps': r.choice([15, 50])}
    return {'do': 'parser', 'text': ini.text(G.search_cfg(r))[:r.randint(20, 900)]}


def gen(r, ctx, i):
    if r.chance(0.25):
        return gen_interleaved(r, ctx)
    progs = []
    tables = []              # (config, of tables that will be there)
    for k in range(r.randint(2, 7)):
        d = 'p%d' % k
        x = r.random()
        if x < 0.22:
            progs.append(dict(gen_library(r), op='library'))
            continue
        if x < 0.29 and tables:
            j = r.choice(tables)
            progs.append({'op': 'fix', 'of': j})
            continue
        if x < 0.37:
            c = G.table_cfg(r, 30, hashtable_file=d + '/ht.pkl')
            n = r.choice([m for m in (1, 2, 4) if S.dividable(c, m)])
            p = {'op': 'distribute', 'cfg': c, 'n': n, 'and_run': r.chance(0.6)}
            progs.append(p)
            continue
        if progs and r.chance(0.35):
            q = r.choice([p for p in progs if p['op'] == 'session' and not p.get('bad')] or [None])
        else:
            q = None
        if q:
            c = dict(copy.deepcopy(q['cfg']), hashtable_file=d + '/ht.pkl', hashtable_file_operation='generate')
            if r.chance(0.65):
                vary(r, c)
        elif tables and r.chance(0.35):
            j = r.choice(tables)
            t = progs[j]['cfg']
            if r.chance(0.7):
                c = dict(progs[j]['cfg'] if 'lhs_params' in t and r.chance(0.7) else G.search_cfg(r),
                         gen_hashtable_only=False, hashtable_file='p%d/ht.pkl' % j, hashtable_file_operation='use')
            else:
                c = dict(G.table_cfg(r, 20, hashtable_file='p%d/ht.pkl' % j, hashtable_file_operation='expand'),
                         hashtable_precision=t['hashtable_precision'],
                         hashtable_num_of_iterations=t['hashtable_num_of_iterations'])
        elif r.chance(0.6):
            c = G.search_cfg(r, small=True, gen_hashtable_only=r.choice(['auto', False]), hashtable_file=d + '/ht.pkl',
                             print_surprising_nonexp_contfracs=r.chance(0.2))
        else:
            c = G.table_cfg(r, 30, hashtable_file=d + '/ht.pkl')
        if r.chance(0.2):
            for key in OPTIONAL:
                if r.chance(0.5) and not (key == 'i' and c['const'] in ('zeta', 'percolation')):
                    c.pop(key, None)
        p = {'op': 'session', 'cfg': c}
        if c.get('hashtable_file_operation') == 'generate' and r.chance(0.35):
            # it fails
            how = r.weighted([(6, 'fault'), (1, 'const'), (1, 'post'), (1, 'missing'), (1, 'cut')])
            p['bad'] = True
            if how == 'fault':
                t = r.weighted(KI_KINDS)
                p['fault'] = {'type': t}
                if t in ('ki', 'mem'):
                    p['fault'].update(skip=r.choice([0, 0, r.below(60)]), lines=r.loguniform(1, 60000))
                else:
                    p['fault'].update(skip=r.loguniform(1, 120), sticky=r.chance(0.4) and t in ('eio', 'enospc'))
            elif how == 'const':
                c['const'] = 'gamma'
            elif how == 'post':
                c['postproc_funcs_filter'] = ['lambda x: x', 'nothing']
            elif how == 'missing':
                c['hashtable_file_operation'] = r.choice(['use', 'expand'])
                c['hashtable_file'] = d + '/none.pkl'
            elif how == 'cut':
                p['cut'] = r.randint(5, 300)
        elif c.get('hashtable_file_operation') == 'generate' and not any(x['op'] == 'fix' and x.get('of') == k
                                                                          for x in progs):
            tables.append(k)
        progs.append(p)
    for k, p in enumerate(progs):
        later = [q for q in progs[k + 1:] if q['op'] == 'session' and not q.get('bad')]
        if p['op'] == 'library' and later and r.chance(0.75):
            relate(r, p, r.choice(later)['cfg'])
    return {'kind': 'sequence', 'seed': ctx.scn['seed'], 'progs': progs}


def relate(r, p, c):
    """The library is used with what a later session uses, so that anything that's kept is met again."""
    if p['do'] in ('const', 'precision'):
        p.update(do='const', const=c['const'], dps=r.choice([10, 10, 15, 50, 120]), i=c.get('i', 2))
    elif p['do'] == 'enum':
        p.update(type=c['ab_polys_type'], a=copy.deepcopy(c['a_coeffs_range']), b=copy.deepcopy(c['b_coeffs_range']))
        if c['ab_polys_special_params']:
            p['special'] = list(c['ab_polys_special_params'])
    elif p['do'] == 'contfrac':
        pairs = sorted(model.enumerate_pairs(c['ab_polys_type'], c['ab_polys_special_params'], c['a_coeffs_range'],
                                             c['b_coeffs_range']))
        if pairs:
            p['a'], p['b'] = (jsonable(x) for x in r.choice(pairs))


def jsonable(x):
    return [list(p) for p in x]


def vary(r, c):
    """Changes one or two of the parameters, so that what's kept for the others would be wrong for it."""
    for _ in range(r.randint(1, 2)):
        how = r.weighted([(3, 'type'), (3, 'ranges'), (2, 'const'), (2, 'depth'), (1, 'prec'), (1, 'post'), (1, 'lhs'),
                          (8 if c['ab_polys_special_params'] else 0, 'special')])
        if how == 'special':
            s = list(c['ab_polys_special_params'])
            k = r.below(2)
            s[k] = max(len(c['a_coeffs_range' if k == 0 else 'b_coeffs_range'][0]), s[k] + r.choice([-2, -1, 1, 2]))
            if model.sparse_size(s, c['a_coeffs_range'], c['b_coeffs_range']) <= 150:
                c['ab_polys_special_params'] = s
        elif how == 'type':
            if c['ab_polys_type'] == 'sparse':
                t = r.choice(['normal', 'indexed'])
            elif all(len({len(p) for p in c[x]}) == 1 for x in ('a_coeffs_range', 'b_coeffs_range')):
                t = r.choice(['normal', 'indexed', 'sparse'])
            else:
                t = r.choice(['normal', 'indexed'])
            s = None
            if t == 'sparse':
                s = [len(c['a_coeffs_range'][0]) + r.below(2), len(c['b_coeffs_range'][0]) + r.below(2)]
                if model.sparse_size(s, c['a_coeffs_range'], c['b_coeffs_range']) > 150:
                    continue
            c.update(ab_polys_type=t, ab_polys_special_params=s)
        elif how == 'ranges':
            x = c[r.choice(['a_coeffs_range', 'b_coeffs_range'])]
            p = r.choice(x)
            j = r.below(len(p))
            sh = r.choice([-1, 1])
            p[j] = [p[j][0] + sh, p[j][1] + sh]
        elif how == 'const':
            if c.get('const') in ('zeta', 'percolation') and r.chance(0.7):
                c['i'] = r.choice([0, 1]) if c['const'] == 'percolation' else r.choice([2, 3, 5, 7])
            else:
                c['const'] = r.choice(['phi', 'pi', 'e', 'apery', 'euler_masch'])
        elif how == 'depth':
            c['hashtable_num_of_iterations'] = r.choice([5, 12, 30, 60, 80])
        elif how == 'prec':
            c['hashtable_precision'] = r.choice([4, 6, 8, 12])
        elif how == 'post':
            c['postproc_funcs_filter'] = r.sample(G.CHEAP, r.randint(1, 3))
        elif how == 'lhs' and 'lhs_params' in c:
            o = G.search_cfg(r)
            c.update(lhs_type=o['lhs_type'], lhs_params=o['lhs_params'])


def gen_interleaved(r, ctx):
    cfgs = [G.search_cfg(r, small=True, miss=0.03) for _ in range(r.weighted([(4, 2), (1, 3)]))]
    if r.chance(0.3):
        cfgs[1] = dict(cfgs[0])
        if r.chance(0.7):
            cfgs[1].update(hashtable_precision=r.choice([6, 8]))
    approach = r.weighted([(3, 'main'), (1, 'default'), (1, 'blacklist')])
    n = len(c12.STAGES) - 1
    order = r.shuffle([k for k in range(len(cfgs)) for _ in range(n)])
    cuts = {}
    for j in range(len(order)):
        if r.chance(0.08):
            cuts[str(j)] = {'type': 'ki', 'lines': r.loguniform(1, 30000)}
    return {'kind': 'interleaved', 'seed': ctx.scn['seed'], 'cfgs': cfgs, 'order': order, 'cuts': cuts,
            'approach': approach}


# ---------------------------------------------------------------------------------------------------------------------

def norm(text):
    text = re.sub(r'(Runtime: )[^\n]*', r'\1', text)
    text = re.sub(r'(-?\d+ days?, )?\d+:\d\d:\d\d(\.\d+)?', 'T', text)
    text = re.sub(r'-?[0-9.]+(e-?\d+)? ?(s|secs?|seconds)\b', 'T', text)
    text = re.sub(r'results/[0-9_]+', 'results/', text)
    return text


def table(d, base):
    return os.path.join(d, sorted(f for f in os.listdir(d) if base in f and f.endswith('.pkl'))[0])


def do(node, prog, k):
    """Runs a program in the process. -> (the way it ended, the text that it printed, its results directory)"""
    mark = len(node.out)
    if prog['op'] == 'session':
        def body():
            node.mod('main').main('p%d/c.ini' % k)
    elif prog['op'] == 'distribute':
        def body():
            node.mod('distribute_run').main(prog['n'], 'p%d/c.ini' % k)
            if prog['and_run'] and prog['n'] > 1:
                d = 'p%d/c_dist_%d' % (k, prog['n'])
                for j in range(prog['n']):
                    node.mod('main').main(os.path.join(d, 'c_%d.ini' % j))
                os.makedirs('p%d/parts' % k)
                for j in range(prog['n']):
                    os.rename(table('p%d' % k, '_part%02d' % j), 'p%d/parts/%d.pkl' % (k, j))
                node.mod('join_hashtables').main('p%d/parts' % k, 'p%d/joined.pkl' % k)
    elif prog['op'] == 'fix':
        def body():
            import shutil
            shutil.copy(table('p%d' % prog['of'], 'ht'), 'p%d/t.pkl' % k)
            node.mod('fix_hashtable_filter_init_b_root').main('p%d/t.pkl' % k)
    else:
        def body():
            library(node, prog)
    f = prog.get('fault')
    if f is None:
        res = node.attempt(body)
    elif f['type'] in ('ki', 'mem'):
        at = node.npoints + 1 + f['skip']
        node.faults.setdefault(at, []).append(dict(f, at=at, stop_kinds=[]))
        res = node.attempt(body)
    else:
        for at in ([node.npoints + 1 + f['skip']] if f['type'] not in ('texfail', 'notex') else
                   range(node.npoints + 1, node.npoints + 4000)):
            node.faults.setdefault(at, []).append(dict(f, at=at))
        res = node.attempt(body)
    node.faults.clear()
    node.sticky, node.no_tex = None, False
    node.disarm()
    text = ''.join(node.out[mark:])
    m = re.search(r'Finished saving results\. Filename: (.+?)\.csv', text)
    return res[0], ('%s: %s' % (type(res[1]).__name__, str(res[1]).replace(node.world.root, '')[:300]) if res[0] != 'ok' else None), norm(text), \
        os.path.normpath(os.path.dirname(m.group(1))) if m else None


def library(node, p):
    """Calls of a user that leave their marks on global state, such as the precision."""
    gc = node.mod('gen_consts')
    if 'dps' in p:
        gc.set_precision(p['dps'])
    if p['do'] == 'const':
        if p['const'] in ('zeta', 'percolation', 'feig'):
            getattr(gc, {'zeta': 'gen_zeta_consts', 'percolation': 'gen_percolation_consts',
                         'feig': 'gen_feig_consts'}[p['const']])(i=p['i'] if p['const'] == 'zeta' else 1)
        else:
            getattr(gc, 'gen_%s_const' % p['const'])()
    elif p['do'] == 'contfrac':
        cf = node.mod('cont_fracs').ContFrac(a_coeffs=p['a'], b_coeffs=p['b'])
        cf.gen_iterations(p['n'])
        if p['est']:
            cf.estimate_approach_type_and_params()
    elif p['do'] == 'enum':
        ep = node.mod('enum_poly_params')
        kw = {'special_params': p.get('special', [2, 2])} if p['type'] == 'sparse' else {}
        e = ep.AB_POLYS_TYPES[p['type']](num_of_iterations=20, enum_only_exp_conv=p['threshold'], avoid_int_roots=False,
                                         should_gen_contfrac=False, **kw)
        g, n = e.polys_generator(range_a=p['a'], range_b=p['b'])
        for _ in range(3):
            next(g, None)
    elif p['do'] == 'table':
        t = node.mod('decimal_hashtable').DecimalHashTable(p['acc'])
        from mpmath import mpf
        t[mpf('0.123456789')] = [1]
        t.update_accuracy(p['acc'] + 2)
        t.get(mpf('0.123456789'))
    elif p['do'] == 'parser':
        with open('x.ini', 'w') as f:
            f.write(p['text'])
        try:
            node.mod('configfile').ConfigParser(configfile='x.ini').get_config()
        except Exception as e:
            print(type(e).__name__)


def prepare(w, scn):
    for k, p in enumerate(scn['progs']):
        os.makedirs(os.path.join(w.root, 'p%d' % k), exist_ok=True)
        if 'cfg' in p:
            t = ini.text(p['cfg'])
            w.write_file('p%d/c.ini' % k, t[:p['cut']] if p.get('cut') else t)


def spoiled(progs):
    """Programs that aren't claimed about: those that are made to fail, and those that build on them."""
    return {k for k, p in enumerate(progs) if p.get('bad') or p['op'] == 'library'}


def tables_of(w, k):
    return sorted(p for p in S.pkl_files(w) if p.startswith('p%d/' % k))


def run_sequence(scn, ctx):
    progs = scn['progs']
    bad = spoiled(progs)
    # (tables that are shared by programs are made by programs that don't fail)
    a = ctx.world('own', scn={'seed': scn['seed'], 'schedules': {}})
    prepare(a, scn)
    want = {}
    for k, p in enumerate(progs):
        if k in bad:
            continue
        n = a.spawn('own%d' % k, lambda node: do(node, p, k))
        a.run()
        S.must_finish(n, 'a process of one program')
        want[k] = n.result[1]
    b = ctx.world('main')
    prepare(b, scn)
    got = {}

    def all_of_them(node):
        for k, p in enumerate(progs):
            got[k] = do(node, p, k)
            ctx.count('ended-' + got[k][0])
    n = b.spawn('one', all_of_them)
    b.run()
    S.must_finish(n, 'a process of several programs')
    sa, sb = a.snapshot(), b.snapshot()
    names = []
    ran = 0
    for k, p in enumerate(progs):
        if k in bad:
            ran += 1
            continue
        what = 'program %d (%s, after %s)' % (k, name(p), ', '.join(
            name(q) + (' ended by %s' % got[j][1] if got[j][1] else '') for j, q in enumerate(progs[:k])) or 'nothing')
        if (want[k][0], want[k][1]) != (got[k][0], got[k][1]):
            raise Violation('ends-otherwise', '%s ends %s instead of %s' % (what, got[k][:2], want[k][:2]))
        if want[k][2] != got[k][2]:
            x, y = [z for z in want[k][2].split('\n') if z not in got[k][2].split('\n')], \
                [z for z in got[k][2].split('\n') if z not in want[k][2].split('\n')]
            raise Violation('prints-otherwise', '%s prints %s instead of %s' % (what, str(y)[:300], str(x)[:300]))
        d, e = want[k][3], got[k][3]
        if (d is None) != (e is None):
            raise Violation('results-differ', '%s saves results in %s instead of %s' % (what, e, d))
        if d is not None:
            for f in ('results.csv', 'results.tex', 'config.ini'):
                x, y = sa.get('%s/%s' % (d, f)), sb.get('%s/%s' % (e, f))
                if (x is None) != (y is None) or (x and sorted(x.splitlines()) != sorted(y.splitlines())):
                    raise Violation('results-differ', '%s saves in %s %s instead of %s' % (
                        what, f, str([z for z in (y or b'').splitlines() if z not in (x or b'').splitlines()])[:300],
                        str([z for z in (x or b'').splitlines() if z not in (y or b'').splitlines()])[:300]))
        if ran and (d or p['op'] != 'session' or p['cfg'].get('hashtable_file_operation') != 'use'):
            names.append(k)
        ran += 1
    ta, tb = sorted(S.pkl_files(a)), sorted(S.pkl_files(b))
    ok = {'p%d/' % k for k in range(len(progs)) if k not in bad}
    ta, tb = [[x for x in t if x.split('/')[0] + '/' in ok] for t in (ta, tb)]
    if ta != tb:
        raise Violation('tables-differ', 'the tables are %s instead of %s' % (tb, ta))
    ra, rb = S.read_tables(a, ta), S.read_tables(b, tb)
    for t in ta:
        x, y = ra[t], rb[t]
        if x.error or y.error:
            raise Violation('unreadable-table', '%s: %s' % (t, x.error or y.error))
        kx, ky = [{k: sorted(v) for k, v in z.keys.items()} for z in (x, y)]
        if kx != ky or (x.acc, x.target) != (y.acc, y.target):
            diff = [k for k in set(kx) | set(ky) if kx.get(k) != ky.get(k)]
            raise Violation('tables-differ', '%s of program %s (%s) differs at %s: %s instead of %s; %s %s' % (
                t, t.split('/')[0][1:], name(progs[int(t.split('/')[0][1:])]), sorted(diff)[:2],
                [ky.get(k) for k in sorted(diff)[:2]], [kx.get(k) for k in sorted(diff)[:2]],
                (y.acc, y.target), (x.acc, x.target)))
    if len(names) >= 2:
        ctx.nontrivial()
    ctx.count('compared', len(names))


def name(p):
    if p['op'] == 'session':
        return 'session %s %s %s' % (p['cfg'].get('hashtable_file_operation', 'default'), p['cfg'].get('const'),
                                     p['cfg'].get('ab_polys_type', ''))
    return p['op'] + (' ' + p['do'] if 'do' in p else '')


def run_interleaved(scn, ctx):
    w = ctx.world('own', scn={'seed': scn['seed'], 'schedules': {}})
    want = []
    for k, c in enumerate(scn['cfgs']):
        def alone(node):
            s = c12.Search(node, {'cfg': c, 'approach': scn['approach']})
            states = [s.state()]
            for st in c12.STAGES[:-1]:
                s.run(st, 'own%d' % k)
                states.append(s.state())
            return states, s.eqns
        n = w.spawn('own%d' % k, alone)
        w.run()
        S.must_finish(n, 'a search through the library')
        want.append(n.result[1])
    b = ctx.world('main')

    def together(node):
        ss = [c12.Search(node, {'cfg': c, 'approach': scn['approach']}) for c in scn['cfgs']]
        at = [0] * len(ss)
        for j, k in enumerate(scn['order']):
            if at[k] >= len(c12.STAGES) - 1:
                continue
            st = c12.STAGES[at[k]]
            if str(j) in scn['cuts']:
                res = node.attempt(lambda: ss[k].run(st, 'out%d' % k), scn['cuts'][str(j)])
                if res[0] == 'exc':
                    raise res[1]
                # (an interrupted one is repeated later; another one goes on now)
                at[k] += res[0] == 'ok'
                continue
            step(ss, at, k, st)
        for k in range(len(ss)):
            while at[k] < len(c12.STAGES) - 1:
                step(ss, at, k, c12.STAGES[at[k]])
        return [s.eqns for s in ss]

    def step(ss, at, k, st):
        ss[k].run(st, 'out%d' % k)
        at[k] += 1
        for q in range(len(ss)):
            now = ss[q].state()
            ref = want[q][0][at[q]]
            if q != k and now != ref:
                # (a stage of it that was interrupted may have built a part)
                if c12.STAGES[at[q]] in ('build', 'reset') and now['rows'] == ref['rows']:
                    continue
            d = c12.differ(ref, now)
            if d:
                raise Violation('results-differ', 'stage %s of search %d changes search %d, or makes another result '
                                'than alone: %s' % (st, k, q, d))
    n = b.spawn('one', together)
    b.run()
    if not n.finished_ok():
        if n.result and n.result[0] == 'exc' and isinstance(n.result[3], Violation):
            raise n.result[3]
        S.must_finish(n, 'a process of several searches')
    for k in range(len(want)):
        if sorted(n.result[1][k] or ()) != sorted(want[k][1] or ()):
            if n.result[1][k] is not None:
                raise Violation('results-differ', 'the equations of search %d are %s instead of %s' % (
                    k, str(n.result[1][k])[:300], str(want[k][1])[:300]))
        x, y = w.snapshot().get('own%d.csv' % k), b.snapshot().get('out%d.csv' % k)
        if x != y and sorted((x or b'').splitlines()) != sorted((y or b'').splitlines()):
            raise Violation('results-differ', 'search %d exports %s instead of %s' % (k, str(y)[:300], str(x)[:300]))
    if any(s['rows'] for s in want[0][0]) and any(s['rows'] for s in want[1][0]):
        ctx.nontrivial()


def run(scn, ctx):
    if scn['kind'] == 'interleaved':
        if len(scn['cfgs']) > 1:
            run_interleaved(scn, ctx)
    else:
        run_sequence(scn, ctx)


def shrink(scn):
    if scn['kind'] == 'interleaved':
        if scn['cuts']:
            yield dict(copy.deepcopy(scn), cuts={})
        yield dict(copy.deepcopy(scn), order=sorted(scn['order']))
        return
    for k in range(len(scn['progs']) - 1, -1, -1):
        p = scn['progs'][k]
        if p['op'] == 'library' and p.get('do') == 'precision' and p.get('dps') == 15:
            continue
        # (numbers of programs are names of directories, so it's replaced and not removed)
        s = copy.deepcopy(scn)
        used = any(q.get('of') == k or ('cfg' in q and q['cfg']['hashtable_file'].startswith('p%d/' % k))
                   for j, q in enumerate(scn['progs']) if j != k)
        if not used:
            s['progs'][k] = {'op': 'library', 'do': 'nothing'}
            if p != s['progs'][k]:
                yield s
    if scn['progs'] and scn['progs'][-1].get('do') == 'nothing':
        s = copy.deepcopy(scn)
        s['progs'].pop()
        yield s
