"""A continued fraction has the same value however its iterations are run."""
import copy

from sim import model
from sim.harness import Violation

PID = 'C10'
LEVEL = 'exploration'
TECH = ('seeded search over interleaved histories of operations on several objects, with interrupts and failures at '
        'any line, against the exact recurrence')
NOTE = ('Sampled histories of up to 30 operations; the reference is the recurrence in exact integers. The value of an '
        'object that an interrupt hit is claimed again only after it was generated anew.')
COUNT = {'quick': 2000, 'thorough': 60000}
RULE = ('A history of 4-30 operations on 1-3 continued fraction objects in one process: creating, generating, adding '
        'iterations in chunks, replacing the coefficients, copying, pickling, estimating the convergence, changing the '
        'working precision; zero partial denominators are met on the way, and a part of the operations is interrupted '
        '(Ctrl-C or no memory, at a line drawn at random). The depth and the value are compared after every operation. '
        'Non-trivial: some operation failed or was interrupted, or the iterations of an object were run in chunks.')


def poly(r):
    return [r.randint(-4, 5) for _ in range(r.weighted([(1, 1), (4, 2), (4, 3), (2, 4), (1, 5)]))]


def polys(r):
    return [poly(r) for _ in range(r.weighted([(5, 1), (3, 2), (1, 3), (1, 4)]))]


def b_polys(r):
    if r.chance(0.25):                       # with a root that's met on the way
        k = r.choice([1, 2, 3, 5, 8, 13, 40])
        c = r.choice([1, -1, 2])
        return [[-k * c, c]] + ([poly(r)] if r.chance(0.3) else [])
    return polys(r)


def length(r):
    return r.weighted([(2, 0), (2, 1), (6, r.randint(2, 30)), (2, r.randint(30, 200)), (1, r.randint(200, 500))])


def gen(r, ctx, i):
    ops = []
    nobj = 0
    for k in range(r.randint(4, 30)):
        if nobj == 0 or (nobj < 3 and r.chance(0.15)):
            o = {'op': 'new', 'a': polys(r), 'b': b_polys(r), 'avoid': r.chance(0.75), 'log': r.chance(0.25),
                 'flat': r.chance(0.3)}
            if r.chance(0.15):
                o['first'] = [[r.randint(-5, 5), r.randint(-3, 3)], [r.randint(-5, 5), r.randint(-3, 3)]]
            if r.chance(0.5):
                o['target'] = r.randint(-50, 50) / 8.0
            o['obj'] = nobj
            nobj += 1
            ops.append(o)
            continue
        o = {'obj': r.below(nobj)}
        o['op'] = r.weighted([(6, 'gen'), (12, 'add'), (2, 'reinit'), (1, 'copy'), (1, 'pickle'), (1, 'dps'), (1, 'est'),
                              (1, 'fast'), (1, 'acc'), (2, 'eval'), (2, 'compare')])
        if o['op'] in ('gen', 'add'):
            o['n'] = length(r)
            o['fin'] = r.chance(0.9)
        elif o['op'] == 'reinit':
            if r.chance(0.8):
                o['a'] = polys(r)
            if r.chance(0.8):
                o['b'] = b_polys(r)
            o['n'] = length(r)
        elif o['op'] == 'dps':
            o['dps'] = r.choice([15, 30, 50, 80, 120])
        elif o['op'] == 'acc':
            o['n'] = r.randint(1, 300)
            o['info'] = [r.choice(['exp', 'super_exp', 'poly2sympoly', 'fast', 'undefined']), r.randint(9, 80) / 8.0]
            o['digits'] = r.randint(1, 40)
            if r.chance(0.3):
                o['re'] = True
        elif o['op'] == 'eval':
            o['a'], o['b'], o['n'] = polys(r), polys(r), r.randint(1, 60)
        elif o['op'] == 'est' and r.chance(0.6):
            o['how'] = {'iters': r.randint(30, 300), 'initial_cutoff': r.randint(1, 120), 'iters_step': r.randint(1, 12)}
        elif o['op'] == 'compare':
            o['to'] = r.randint(-40, 40) / 4.0
            o['signed'] = r.chance(0.5)
        if o['op'] in ('gen', 'add', 'est', 'fast', 'reinit', 'acc') and r.chance(0.15):
            o['fault'] = {'type': r.choice(['ki', 'ki', 'mem']), 'lines': r.loguniform(1, 3000)}
        ops.append(o)
    return {'kind': 'log' if any(o.get('log') for o in ops) else 'plain', 'seed': ctx.scn['seed'], 'ops': ops}


class Ref:
    """The reference: coefficients, depth, and the depth that the value was last computed at."""
    def __init__(self, a, b, first, avoid, log):
        self.a, self.b, self.first, self.avoid, self.log = a, b, first, avoid, log
        self.depth = 0
        self.valued = None          # (depth, precision), None - not claimed
        self.sound = False          # generated since the coefficients were replaced, or an interrupt
        self.chain = None

    def state(self, n):
        """(p, q) at depth n, or the index at which a zero b stops it."""
        c = self.chain
        if c is None:
            (p1, p0), (q1, q0) = self.first or ((self.a[0][0], 1), (1, 0))
            c = self.chain = [(p1, p0, q1, q0)]
        while len(c) <= n:
            i = len(c)
            a, b = model.subs(self.a[i % len(self.a)], i), model.subs(self.b[i % len(self.b)], i)
            p1, p0, q1, q0 = c[-1]
            c.append((a * p1 + b * p0, p1, a * q1 + b * q0, q1))
        return c[n][0], c[n][2]

    def zero(self, frm, to):
        """The first i in (from, to] of which b_i=0."""
        if self.avoid:
            for i in range(frm + 1, to + 1):
                if model.subs(self.b[i % len(self.b)], i) == 0:
                    return i
        return None

    def replaced(self, a, b, custom):
        self.a, self.b, self.chain, self.sound, self.valued = a, b, None, False, None

    def copy(self):
        c = copy.copy(self)
        return c


def fail(k, o, cls, msg):
    raise Violation(cls, 'operation %d (%s): %s' % (k, ', '.join('%s=%s' % (x, o[x]) for x in o), msg))


def close(v, p, q, dps):
    """Whether the mpf v is p/q to the precision."""
    sign, man, exp, bc = v._mpf_
    vn, vd = (-int(man) if sign else int(man)) << max(exp, 0), 1 << max(-exp, 0)
    # |vn/vd - p/q| <= |p/q| * 10**(3-dps)
    return abs(vn * q - p * vd) * 10 ** (dps - 3) <= abs(p) * vd


def observe(k, o, cf, ref, mp):
    """Compares an object to its reference."""
    n = cf.get_num_of_executed_iters()
    if not ref.sound:
        return
    if n != ref.depth:
        fail(k, o, 'wrong-depth', 'object with %s, %s has %d iterations instead of %d' % (ref.a, ref.b, n, ref.depth))
    if ref.valued is None:
        return
    depth, dps = ref.valued
    p, q = ref.state(depth)
    v = cf.get_result()
    if q == 0:
        if not mp.isnan(v):
            fail(k, o, 'wrong-value', 'the value of %s, %s at depth %d is %s, although its denominator is 0' % (
                ref.a, ref.b, depth, v))
        good = False
    else:
        if mp.isnan(v) or not close(v, p, q, dps):
            fail(k, o, 'wrong-value', 'the value of %s, %s at depth %d is %s instead of %s' % (
                ref.a, ref.b, depth, mp.nstr(v, 20), model.X.nstr(model.X.mpf(p) / q, 20)))
        good = p != 0
    if bool(cf.is_result_valid()) != good:
        fail(k, o, 'wrong-validity', 'the value %s of %s, %s is said to be %svalid' % (
            v, ref.a, ref.b, '' if not good else 'in'))


def lib(node, scn, ctx, seen):
    cfm, gc = node.mod('cont_fracs'), node.mod('gen_consts')
    import mpmath
    mp = mpmath.mp
    mp.dps = 50
    objs, refs, chunks = {}, {}, {}

    def iterate(k, o, cf, ref, n, scratch, fin=True, call=None):
        """Generates or adds iterations, and follows in the reference."""
        start = 0 if scratch else ref.depth
        call = call or (lambda: (cf.gen_iterations if scratch else cf.add_iterations)(n, exec_finalize=fin))
        was_sound = ref.sound
        how, val = node.attempt(call, o.get('fault'))
        zero = ref.zero(start, start + n)
        if how == 'interrupted':
            ref.sound, ref.valued = False, None
            seen['failed'] = True
            ctx.count('interrupted-' + o['op'])
            return how
        if how == 'exc':
            if not isinstance(val, cfm.ZeroB):
                if not scratch and not was_sound:
                    return how
                fail(k, o, 'unexpected-failure', '%s: %s' % (type(val).__name__, str(val)[:200]))
            if zero is None and (scratch or was_sound):
                fail(k, o, 'unexpected-failure', 'says that b vanishes (%s), for a=%s, b=%s' % (val, ref.a, ref.b))
            seen['failed'] = True
            ctx.count('zero-b')
            if scratch:
                # either as before, or with no iterations
                if cf.get_num_of_executed_iters() == 0 or not was_sound:
                    ref.depth, ref.valued, ref.sound = 0, None, cf.get_num_of_executed_iters() == 0
            return how
        if zero is not None and (scratch or was_sound):
            fail(k, o, 'zero-missed', 'b vanishes at %d, but %d iterations from %d succeeded' % (zero, n, start))
        if scratch:
            ref.sound, ref.depth, ref.valued = True, n, None
            chunks[o['obj']] = 1
        elif was_sound:
            ref.depth += n
            chunks[o['obj']] = chunks.get(o['obj'], 0) + 1
            if chunks[o['obj']] > 2:
                seen['chunks'] = True
        if ref.sound:
            if fin:
                ref.valued = (ref.depth, mp.dps)
            elif ref.log:
                ref.valued = None
            elif scratch:
                ref.valued = None
        return how

    for k, o in enumerate(scn['ops']):
        op, x = o['op'], o['obj']
        if op == 'new':
            a, b = copy.deepcopy(o['a']), copy.deepcopy(o['b'])
            if o.get('flat'):
                a = a[0] if len(a) == 1 else tuple(tuple(p) for p in a)
                b = b[0] if len(b) == 1 else tuple(tuple(p) for p in b)
            kw = {}
            if o.get('first'):
                kw['first_iter_matrix'] = tuple(tuple(v) for v in o['first'])
            if 'target' in o:
                kw['target_val'] = mp.mpf(o['target'])
            objs[x] = cfm.ContFrac(a, b, avoid_zero_b=o['avoid'], logging=o['log'], **kw)
            refs[x] = Ref(o['a'], o['b'], o.get('first'), o['avoid'], o['log'])
            refs[x].sound = True
            refs[x].target = o.get('target')
            continue
        if x not in objs:
            continue
        cf, ref = objs[x], refs[x]
        if op in ('gen', 'add'):
            iterate(k, o, cf, ref, o['n'], op == 'gen', o.get('fin', True))
        elif op == 'reinit':
            kw = {'%s_coeffs' % s: copy.deepcopy(o[s]) for s in 'ab' if s in o}
            cf.reinitialize(**kw)
            ref.replaced(o.get('a', ref.a), o.get('b', ref.b), False)
            iterate(k, o, cf, ref, o['n'], True)
        elif op == 'copy':
            objs[x] = cf = copy.deepcopy(cf)
            refs[x] = ref = ref.copy()
        elif op == 'pickle':
            import dill
            objs[x] = cf = dill.loads(dill.dumps(cf))
        elif op == 'dps':
            gc.set_precision(o['dps'])
        elif op in ('est', 'fast'):
            # the same as of a new object with the same coefficients
            new = cfm.ContFrac(copy.deepcopy(ref.a), copy.deepcopy(ref.b), avoid_zero_b=ref.avoid)
            if ref.first:
                continue

            def measure(c):
                if op == 'fast':
                    return repr(c.is_convergence_fast())
                c.estimate_approach_type_and_params(**o.get('how', {}))
                return repr(c.get_approach_type_and_params())
            expect = node.attempt(lambda: measure(new))
            how, val = node.attempt(lambda: measure(cf), o.get('fault'))
            if how == 'interrupted':
                ref.sound, ref.valued = False, None
                seen['failed'] = True
                ctx.count('interrupted-' + op)
                cf.set_approach_type_and_params(('undefined', 0))
                how, val = node.attempt(lambda: measure(cf))
            same = how == expect[0] and (val == expect[1] if how == 'ok' else type(val) is type(expect[1]))
            if not same:
                fail(k, o, 'depends-on-history', 'of %s, %s: %s, and of a new object %s' % (
                    ref.a, ref.b, (how, str(val)[:200]), (expect[0], str(expect[1])[:200])))
            if how == 'ok':
                ref.sound, ref.depth = True, cf.get_num_of_executed_iters()
                ref.valued = (ref.depth, mp.dps) if ref.zero(0, ref.depth) is None else None
            else:
                ref.sound, ref.valued = False, None
        elif op == 'acc':
            base = mp.mpf(o['info'][1])
            cf.set_approach_type_and_params((o['info'][0], (base, mp.mpf(1))))
            n = o['n']
            if o.get('re'):
                # what was known of the old coefficients says nothing of the new ones
                new = [list(p) for p in ref.a[::-1]]
                cf.reinitialize(a_coeffs=copy.deepcopy(new))
                ref.replaced(new, ref.b, False)
            elif o['info'][0] in ('exp', 'super_exp'):
                # as many as needed for the accuracy, by the estimated speed: |ln(accuracy/base)/ln(base)|
                need = float((o['digits'] * model.X.ln(10) + model.X.ln(base)) / model.X.ln(base))
                if abs(need - round(need)) < 1e-9:
                    continue
                n = min(n, int(need) + 1)
            acc = mp.mpf(10) ** -o['digits']
            iterate(k, o, cf, ref, n, True, call=lambda: cf.gen_iterations(o['n'], acc))
            cf.set_approach_type_and_params(('undefined', 0))
        elif op == 'eval':
            how, val = node.attempt(lambda: cfm.eval_dec_contfrac_by_polys(copy.deepcopy(o['a']), copy.deepcopy(o['b']),
                                                                           o['n']))
            v = model.cf_value(tuple(tuple(p) for p in o['a']), tuple(tuple(p) for p in o['b']), o['n'])
            if v.ok and abs(v.v) > 1e-20:
                p, q = model.cf_exact(o['a'], o['b'], o['n'] - 1)
                if how != 'ok':
                    fail(k, o, 'unexpected-failure', 'evaluating raises %s: %s' % (type(val).__name__, val))
                if q == 0 or abs(model.X.mpf(val) - v.v) > (100 * v.err + abs(v.v) * model.X.mpf(10) ** -45) * model.X.mpf(10) ** max(
                            0, model.WORK_DPS + 2 - mp.dps):
                    fail(k, o, 'wrong-value', 'evaluates to %s instead of %s' % (mp.nstr(val, 20), model.X.nstr(v.v, 20)))
        elif op == 'compare':
            if ref.sound and ref.valued is not None:
                p, q = ref.state(ref.valued[0])
                v = cf.get_result()
                kw = {}
                t = ref.target if getattr(ref, 'target', None) is not None else None
                if t is None or k % 2:
                    t = o['to']
                    kw['target_val'] = mp.mpf(t)
                how, d = node.attempt(lambda: cf.compare_result(calc_abs=not o['signed'], **kw))
                if how != 'ok':
                    fail(k, o, 'unexpected-failure', 'comparing raises %s: %s' % (type(d).__name__, d))
                e = v - mp.mpf(t)
                e = e if o['signed'] else abs(e)
                if not (mp.isnan(e) and mp.isnan(d)) and e != d:
                    fail(k, o, 'wrong-comparison', '%s differs from %s by %s, and not by %s' % (v, t, e, d))
        for y in sorted(objs):
            observe(k, o, objs[y], refs[y], mp)


def run(scn, ctx):
    w = ctx.world('main', max_steps=100000)
    seen = {}
    box = {}

    def fn(node):
        try:
            lib(node, scn, ctx, seen)
        except Violation as v:
            box['v'] = v
    n = w.spawn('process', fn)
    w.run()
    if 'v' in box:
        raise box['v']
    if not n.finished_ok():
        e = n.result[3]
        raise Violation('unexpected-failure', '%s: %s' % (type(e).__name__, e)) if n.result[0] == 'exc' else e
    if seen:
        ctx.nontrivial()


def shrink(scn):
    for k, o in enumerate(scn['ops']):
        for key in ('n',):
            if o.get(key, 0) > 1:
                for v in (0, 1, o[key] // 2, o[key] - 1):
                    s = copy.deepcopy(scn)
                    s['ops'][k][key] = v
                    yield s
        for key in ('fault', 'first', 'target'):
            if key in o:
                s = copy.deepcopy(scn)
                del s['ops'][k][key]
                yield s
        for key in ('a', 'b'):
            if key in o:
                if len(o[key]) > 1:
                    s = copy.deepcopy(scn)
                    s['ops'][k][key] = o[key][:1]
                    yield s
                for i, p in enumerate(o[key]):
                    if len(p) > 1:
                        s = copy.deepcopy(scn)
                        s['ops'][k][key][i] = p[:-1]
                        yield s
