"""A stage of a search that was interrupted can be repeated."""
import copy
import functools

from sim import model, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C12'
LEVEL = 'fault_enumeration'
TECH = ('interrupts placed in the stages of a search that is driven through the library, every state compared with that '
        'of the uninterrupted search')
NOTE = ('The interrupts are placed at lines drawn from those that the undisturbed stage executes; sampled. Running out '
        'of memory is not simulated in the stage that filters by the type of convergence (it skips what fails there).')
COUNT = {'quick': 160, 'thorough': 12000}
RULE = ('A search is run stage by stage through the library: building, finding, resetting, the refinings and filters, '
        'exporting. Stages are interrupted once or several times (Ctrl-C or no memory at a line of the stage, an error '
        'of the disk in the export) and repeated; in between the search may be exported as it is, or saved and '
        'continued in another process. After every attempt the state is compared with that of the uninterrupted search. '
        'Non-trivial: some stage was interrupted when there were results.')

INDEXED = ('zeta', 'percolation')
STAGES = ['build', 'find', 'reset', 'refine1', 'uniq1', 'fast', 'approach', 'refine2', 'refine3', 'uniq2', 'uniq3',
          'roots', 'csv', 'eqns', 'latex']
SWALLOWS = ('approach',)         # a blanket "except Exception" on each result


def generator(gc, c):
    if c['const'] in INDEXED:
        return functools.partial(getattr(gc, 'gen_%s_consts' % c['const']), i=c['i'])
    return getattr(gc, 'gen_%s_const' % c['const'])


class Search:
    """The real objects of a search, in the process which is run now."""
    def __init__(self, node, scn, mitm=None):
        self.node, self.scn, self.cfg = node, scn, scn['cfg']
        c = self.cfg
        ep, pf, gc = node.mod('enum_params'), node.mod('postprocfuncs'), node.mod('gen_consts')
        self.texts = pf.POSTPROC_FUNCS
        if mitm is None:
            types = node.mod('enum_poly_params').AB_POLYS_TYPES
            mitm = ep.MITM(num_of_iterations=c['hashtable_num_of_iterations'],
                           target_generator=generator(gc, c), target_name=model.const_label(c['const'], c['i']),
                           postproc_funcs_filter=[self.texts.index(t) for t in c['postproc_funcs_filter']],
                           hashtable_prec=c['hashtable_precision'], ab_poly_class=types[c['ab_polys_type']],
                           ab_poly_special_params=c['ab_polys_special_params'], prec=50)
        else:
            # (as a session that loads a table does)
            mitm.redefine_target(target_generator=generator(gc, c), target_name=model.const_label(c['const'], c['i']), prec=50)
        self.mitm = mitm
        self.eqns = None

    def run(self, stage, out='out'):
        m, c, mod = self.mitm, self.cfg, self.node.mod
        loud = self.scn.get('loud', False)
        if stage == 'build':
            m.build_hashtable(range_a=c['a_coeffs_range'], range_b=c['b_coeffs_range'])
        elif stage == 'find':
            m.find_clicks(mod('lhs_evaluators').LHS_TYPES[c['lhs_type']], c['lhs_params'])
        elif stage == 'reset':
            m.reset_hashtable()
        elif stage == 'refine1':
            m.refine_clicks_with_const_num_of_iters(accuracy=c['first_filtering_precision'], print_clicks=loud,
                                                    num_of_iterations=c['first_filtering_num_of_iterations'])
        elif stage in ('uniq1', 'uniq2', 'uniq3'):
            m.filter_uniq_params()
        elif stage == 'fast':
            m.filter_only_exp_convergence(loud)
        elif stage == 'approach':
            how = self.scn.get('approach', 'main')
            if how == 'main':
                m.filter_clicks_by_approach_type(whitelist=['exp', 'super_exp'])
            elif how == 'default':
                m.filter_clicks_by_approach_type()
            else:
                m.filter_clicks_by_approach_type(whitelist=None, blacklist=['mixed', 'undefined', 'poly2sympoly'])
        elif stage in ('refine2', 'refine3'):
            k = 'second' if stage == 'refine2' else 'third'
            m.refine_clicks_with_convergence_info(accuracy=c[k + '_filtering_precision'], print_clicks=loud,
                                                  num_of_iterations=c[k + '_filtering_max_num_of_iterations'])
        elif stage == 'roots':
            m.filter_pos_integer_roots_numerators()
        elif stage == 'csv':
            m.export_to_csv(out + '.csv')
        elif stage == 'eqns':
            self.eqns = m.get_results_as_eqns(self.texts)
        elif stage == 'latex':
            mod('latex').generate_latex(out, m.get_results_as_eqns(self.texts))
        else:
            raise ValueError(stage)

    def state(self):
        """Whatever the search holds: its results, and its table."""
        m = self.mitm
        rows = [(str(ab), type(l).__name__, str(l.get_params()), str(l.get_val()), self.texts[i], str(conv))
                for ab, l, i, conv in m.get_filtered_params()]
        table = sorted((k, sorted(str(x) for x in v)) for k, v in m.dec_hashtable.items()
                       if k != 'parameters')
        return {'rows': sorted(rows), 'table': table}


def can_save(cfg, stage):
    # (sympy's polynomials, as the results of this type have, are not saved rightly; the sessions save no results)
    return cfg['lhs_type'] == 'ulcd' or stage == 'build'


def stages_of(scn):
    return STAGES if not scn.get('light') else STAGES[:-1]


def reference(scn, ctx):
    """The states after each stage of an uninterrupted search, and its outputs."""
    w = ctx.world('uninterrupted', scn={'seed': scn['seed'], 'schedules': {}})
    states = []
    order = stages_of(scn)
    peeked = {order[order.index(x['stage']) - 1] for x in scn['steps'] if x.get('peek')}

    def body(node):
        s = Search(node, scn)
        states.append(s.state())
        for st in stages_of(scn):
            s.run(st)
            states.append(s.state())
            if st in peeked:
                s.run('csv', 'ref_' + st)
        return s.eqns
    n = w.spawn('process', body)
    w.run()
    S.must_finish(n, 'a search through the library', 'search-fails')
    snap = w.snapshot()
    return states, n.result[1], snap, w


def lines_of(scn, ctx):
    """How many lines each stage executes."""
    w = ctx.world('uninterrupted', scn={'seed': scn['seed'], 'schedules': {}})
    big = 10 ** 9
    total = {}
    rows = {}

    def body(node):
        s = Search(node, scn)
        for st in stages_of(scn):
            rows[st] = len(s.mitm.get_filtered_params())
            node.lines_left = big
            r = node.attempt(lambda: s.run(st), {'type': 'ki', 'lines': big})
            if r[0] != 'ok':
                raise r[1]
            total[st] = big - node.lines_left
    n = w.spawn('process', body)
    w.run()
    S.must_finish(n, 'a search through the library', 'search-fails')
    ctx.drop(w)
    return total, rows


def gen(r, ctx, i):
    cfg = G.search_cfg(r, small=r.chance(0.5), miss=0.03, loose=0.06, tiny=True)
    scn = {'kind': 'search', 'cfg': cfg, 'seed': ctx.scn['seed'], 'light': r.chance(0.5), 'loud': r.chance(0.2),
           'approach': r.weighted([(4, 'main'), (1, 'default'), (1, 'blacklist')])}
    total, rows = lines_of(scn, ctx)
    steps = []
    for st in stages_of(scn):
        weight = 0.15 if not rows[st] and st not in ('build', 'find') else 0.45
        while total[st] and r.chance(weight) and sum(s['stage'] == st for s in steps) < 3:
            f = {'type': 'ki' if st in SWALLOWS or r.chance(0.7) else 'mem',
                 'lines': r.weighted([(6, r.randint(1, total[st])), (1, r.loguniform(1, total[st])),
                                      (3, max(1, total[st] + 1 - r.loguniform(1, total[st])))])}
            if st in ('csv', 'latex') and r.chance(0.6):
                f = {'type': r.choice(['enospc', 'eio', 'shortwrite', 'eacces']), 'skip': r.below(6)}
                if f['type'] in ('enospc', 'shortwrite') and r.chance(0.7):
                    f.update(partial=True, frac=r.random())
            s = {'stage': st, 'fault': f}
            if r.chance(0.15) and can_save(cfg, st):
                s['restart'] = True
            if STAGES.index(st) > STAGES.index('approach') and r.chance(0.3):
                s['peek'] = True
            steps.append(s)
        s = {'stage': st}
        if r.chance(0.05) and can_save(cfg, st):
            s['restart'] = True
        steps.append(s)
    scn['steps'] = steps
    return scn


def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            for x in a[k]:
                if x not in b[k]:
                    return '%s: %s is gone, there is %s' % (k, str(x)[:250], str([y for y in b[k] if y not in a[k]])[:250])
            return '%s: %s is new' % (k, str([y for y in b[k] if y not in a[k]] or b[k])[:300])
    return None


def run(scn, ctx):
    states, eqns, ref, rw = reference(scn, ctx)
    w = ctx.world('main')
    todo = list(scn['steps'])
    cur = {'k': 0, 'done': 0, 'cut': False, 'eqns': None}
    order = stages_of(scn)

    def process(node):
        import dill
        s = None
        if cur['k']:
            with open('search.pkl', 'rb') as f:
                s = Search(node, scn, dill.load(f))
            if cur['eqns'] is not None:
                s.eqns = cur['eqns']
        else:
            s = Search(node, scn)
        while cur['k'] < len(todo):
            step = todo[cur['k']]
            st, f = step['stage'], step.get('fault')
            if st not in order or order.index(st) != cur['done']:
                raise Violation('bad-scenario', 'stage %s' % st)
            before = sum(w.fired.values())
            if f is not None and 'skip' in f:
                at = node.npoints + 1 + f['skip']
                node.faults.setdefault(at, []).append(dict(f, at=at))
                res = node.attempt(lambda: s.run(st))
                node.faults.clear()
                node.sticky = None
            else:
                res = node.attempt(lambda: s.run(st), f)
            fired = sum(w.fired.values()) != before
            if res[0] != 'ok' and not fired:
                raise Violation('stage-fails', 'stage %s, %s, fails: %s: %s' % (
                    st, 'repeated' if cur['cut'] else 'not interrupted', type(res[1]).__name__, str(res[1])[:300]))
            if res[0] == 'ok' and f is None:
                cur['done'] += 1
                cur['cut'] = False
            else:
                cur['cut'] = True
                if states[cur['done']]['rows'] and res[0] != 'ok':
                    ctx.nontrivial()
                ctx.count('interrupted-' + st, int(res[0] != 'ok'))
            # (an attempt with a fault that didn't fire was a complete one; it's repeated as well - but building twice,
            # exporting twice and filtering twice make no difference, and refining again keeps the results)
            if res[0] == 'ok' and f is not None:
                cur['done'] += 1
                cur['cut'] = False
                while cur['k'] + 1 < len(todo) and todo[cur['k'] + 1]['stage'] == st:
                    cur['k'] += 1
            now = s.state() if hasattr(s.mitm, 'dec_hashtable') else dict(s_state_without_table(s))
            want = dict(states[cur['done']])
            if cur['cut']:
                # a build that is interrupted holds a part of the table; a reset may have been done
                if st == 'build':
                    part(st, now['table'], states[cur['done'] + 1]['table'])
                    want['table'] = now['table']
                elif st == 'reset' and now['table'] in (None, []):
                    want['table'] = now['table']
            d = differ(want, now)
            if d:
                raise Violation('state-lost' if cur['cut'] else 'wrong-state', '%s stage %s%s, %s' % (
                    'after interrupting' if cur['cut'] else 'after', st,
                    '' if cur['cut'] else ' (interrupted before)' if any(
                        'fault' in x for x in todo[:cur['k']]) else '', d))
            if step.get('peek') and cur['cut']:
                s.run('csv', 'peek%d' % cur['k'])
                with open('peek%d.csv' % cur['k']) as fl:
                    got = fl.read()
                want = ref['ref_%s.csv' % order[cur['done'] - 1]].decode()
                if sorted(got.splitlines()) != sorted(want.replace('\r\n', '\n').splitlines()):
                    raise Violation('wrong-export', 'exporting after interrupting %s gives %s instead of %s' % (
                        st, got[:300], want[:300]))
            cur['k'] += 1
            if step.get('restart') and hasattr(s.mitm, 'dec_hashtable'):
                cur['eqns'] = s.eqns
                with open('search.pkl', 'wb') as fl:
                    dill.dump(s.mitm, fl)
                return None
        return s.eqns

    n = None
    while cur['k'] < len(todo):
        k = cur['k']
        n = w.spawn('process', process)
        w.run()
        if not n.finished_ok():
            if n.result and n.result[0] == 'exc' and isinstance(n.result[3], Violation):
                raise n.result[3]
            S.must_finish(n, 'a process that continues a search', 'search-fails')
        if cur['k'] == k:
            break
    if n is None:
        return
    snap = w.snapshot()
    for name in ('out.csv', 'out.tex', 'out.pdf'):
        if (name in ref) != (name in snap):
            raise Violation('wrong-files', '%s is %s, as in an uninterrupted search it is %s' % (
                name, name in snap, name in ref))
        if name != 'out.pdf' and name in ref and \
                sorted(ref[name].splitlines()) != sorted(snap[name].splitlines()):
            raise Violation('wrong-export', '%s of a search that was interrupted is %s, and else %s' % (
                name, snap[name][:300], ref[name][:300]))
    if n.result[1] is not None and sorted(n.result[1]) != sorted(eqns or []):
        raise Violation('wrong-export', 'the equations of a search that was interrupted are %s instead of %s' % (
            str(n.result[1])[:300], str(eqns)[:300]))


def s_state_without_table(s):
    m = s.mitm
    rows = [(str(ab), type(l).__name__, str(l.get_params()), str(l.get_val()), s.texts[i], str(conv))
            for ab, l, i, conv in m.get_filtered_params()]
    return {'rows': sorted(rows), 'table': None}


def part(st, a, b):
    b = {k: v for k, v in b}
    for k, v in a:
        if any(x not in b.get(k, ()) for x in v):
            raise Violation('wrong-state', 'a %s that was interrupted holds %s under %s' % (st, v, k))


def shrink(scn):
    for k, s in enumerate(scn['steps']):
        if 'fault' in s:
            x = copy.deepcopy(scn)
            del x['steps'][k]
            yield x
        for key in ('restart', 'peek'):
            if key in s:
                x = copy.deepcopy(scn)
                del x['steps'][k][key]
                yield x
    # the stages after the last interrupt
    last = max([k for k, s in enumerate(scn['steps']) if 'fault' in s] or [0])
    if last + 2 < len(scn['steps']):
        x = copy.deepcopy(scn)
        x['steps'] = x['steps'][:last + 2]
        yield x
    if scn.get('loud'):
        yield dict(copy.deepcopy(scn), loud=False)
