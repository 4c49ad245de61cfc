"""Generators of configurations which are shared by the checks."""
from math import comb

from . import ini, model
from .golden import golden

P = model.POSTPROC_TEXTS
CHEAP = P[:12]


def coeff_range(r, lo=-3, hi=4, width=4):
    a = r.randint(lo, hi - 1)
    return [a, min(hi, a + r.randint(1, width))]


def _polys(r, ninter, maxdeg, budget):
    """A range list of ninter polynomials, with at most budget combinations."""
    res, left = [], budget
    for k in range(ninter):
        p = []
        for d in range(r.randint(1, maxdeg + 1)):
            w = max(1, min(4, left))
            rg = coeff_range(r, -3, 4, r.randint(1, w))
            left //= max(1, rg[1] - rg[0])
            p.append(rg)
        res.append(p)
    return res


def size(ranges):
    n = 1
    for p in ranges:
        for a, b in p:
            n *= max(0, b - a)
    return n


def ranges(r, poly_type='normal', budget=40, interlace=0.3):
    """(range a, range b, special params)"""
    while True:
        na = r.weighted([(3, 2), (1, 3)]) if r.chance(interlace) else 1
        nb = r.weighted([(3, 2), (1, 3)]) if r.chance(interlace) else 1
        if poly_type == 'sparse':
            # (all the interlaces have as many coefficients)
            special = [r.randint(1, 4), r.randint(1, 4)]
            if r.chance(0.2):
                # (three interlaces that may have three different masks)
                s = r.below(2)
                na, nb = ((3, 1), (1, 3))[s]
                special[s], special[1 - s] = 3, 1
                rs = [[], []]
                rs[s] = [[[x, x + 1] for x in r.sample(range(-3, 4), r.choice([1, 1, 2]))] for _ in range(3)]
                m = len(rs[s][0])
                rs[s] = [p[:m] if len(p) >= m else p + [[1, 2]] for p in rs[s]]
                rs[1 - s] = [[coeff_range(r, width=2)]]
                return rs[0], rs[1], special
            rs, n = [], 1
            for m, k in zip((na, nb), special):
                c = r.randint(1, min(2, k))
                rs.append([[coeff_range(r) if m == 1 else coeff_range(r, width=r.choice([1, 1, 2])) for _ in range(c)]
                           for _ in range(m)])
                n *= size(rs[-1]) * comb(k, c) ** m
            ra, rb = rs
        else:
            special = None
            ra, rb = _polys(r, na, 2, 8), _polys(r, nb, 2, 8)
            n = size(ra) * size(rb)
        if 1 <= n <= budget:
            return ra, rb, special


def table_cfg(r, budget=40, poly_type=None, **kw):
    t = poly_type or r.weighted([(5, 'normal'), (2, 'indexed'), (2, 'sparse')])
    ra, rb, special = ranges(r, t, budget)
    post = r.sample(P if r.chance(0.4) else CHEAP, r.weighted([(3, 1), (4, 2), (2, 3), (1, 5)]))
    cfg = ini.make(const=r.choice(['phi', 'pi', 'e', 'apery', 'euler_masch', 'zeta', 'percolation']),
                   i=0, ab_polys_type=t, ab_polys_special_params=special, a_coeffs_range=ra, b_coeffs_range=rb,
                   hashtable_num_of_iterations=r.choice([5, 12, 30, 60]), hashtable_precision=r.choice([4, 6, 8, 12]),
                   postproc_funcs_filter=post, hashtable_file_operation='generate')
    if cfg['const'] == 'zeta':
        cfg['i'] = r.choice([2, 3, 5])
    if cfg['const'] == 'percolation':
        cfg['i'] = r.below(2)
    cfg.update(kw)
    return cfg


def has_pairs(cfg):
    return bool(model.enumerate_pairs(cfg['ab_polys_type'], cfg['ab_polys_special_params'], cfg['a_coeffs_range'],
                                      cfg['b_coeffs_range']))


# ---------------------------------------------------------------------------------------------------------------------
# searches that do find something, and are cheap
# ---------------------------------------------------------------------------------------------------------------------

_LHS_OF = {}


def _lhs_hits(const, lhs_type, pair, post):
    """The simplest LHSs that a postproc func of a continued fraction is equal to (up to a sign and an integer)."""
    key = (const, lhs_type)
    x = model.const_value(*const.split())
    if const.startswith('zeta'):
        # (p / (q*x), or its inverse)
        c = model.cf_limit(pair[0], pair[1])[0] * x
        q = next(q for q in range(1, 50) if abs(c * q - model.X.nint(c * q)) < 1e-20)
        p = int(model.X.nint(c * q))
        return [((p, 0), (0, q)), ((p, q), (0, q))] if post == 'lambda x: x' else [((0, q), (p, 0)), ((p, q), (p, 0))]
    if key not in _LHS_OF:
        params = [2, 2, 2, 2] if lhs_type == 'ulcd' else [[[-2, 3], [-2, 3]], [[-2, 3], [-2, 3]], False]
        d = {}
        for p, v in model.lhs_enumerate(lhs_type, params, x):
            f = model.frac_mod(v)
            if f > 1e-12:
                d.setdefault(int(f * 10 ** 25 + model.mpf('0.5')), []).append(p)
        _LHS_OF[key] = d
    lim, how = model.cf_limit(pair[0], pair[1])
    pv = model.postproc(post, lim) if lim is not None else None
    if pv is None:
        return []
    hits = _LHS_OF[key].get(int(model.frac_mod(pv) * 10 ** 25 + model.mpf('0.5')), [])

    def flat(p):
        return [abs(c) for q in p for c in (q if isinstance(q, tuple) else (q,))]
    return sorted(hits, key=lambda p: (sum(flat(p)), p))[:3]


def _around(r, c, wide):
    if not r.chance(wide):
        return [c, c + 1]
    return r.choice([[c - 1, c + 1], [c, c + 2], [c - 1, c + 2]])


def loosen(r, cfg, tiny=False):
    """Makes a search of few digits, with many matches that fail only at some stage, or are accidental."""
    cfg['hashtable_precision'] = 3
    cfg['first_filtering_precision'] = 4
    cfg['second_filtering_precision'] = r.choice([4, 4, 5])
    cfg['third_filtering_precision'] = cfg['second_filtering_precision'] + r.below(2)
    if cfg['lhs_type'] == 'ulcd':
        n = 2 if tiny else r.randint(3, 5)
        cfg['lhs_params'] = [[-n, n + 1], r.choice([4, 5, [-5, 4]]), 3, r.choice([4, [1, 5], [2, 5]])]
        if cfg['const'] == 'phi':
            # (most of which are equal)
            cfg['lhs_params'] = [[r.choice([-2, 0]), 3], r.choice([2, [1, 4]]), 2, [r.choice([1, 2]), r.choice([3, 4])]]
    else:
        n = -2 if tiny else -3
        cfg['lhs_params'] = [[[n, 3 if tiny else 4], [r.choice([-2, 1]), 3 if tiny else 4]],
                             [[r.choice([-1, 1] if tiny else [-2, 1]), 4], [n, 3 if tiny else 4]], r.chance(0.3)]
        if cfg['const'] == 'phi':
            cfg['lhs_params'] = [[[-2, 3], [0, 2]], [[1, 3], [-1, 1]], r.chance(0.3)]
    cfg['postproc_funcs_filter'] = (cfg['postproc_funcs_filter'] + [
        t for t in r.sample(CHEAP, 5) if t not in cfg['postproc_funcs_filter']])[
            :2 if tiny and cfg['const'] == 'phi' and cfg['lhs_type'] != 'ulcd' else 3 if tiny or cfg['const'] == 'phi' else 4]
    while size(cfg['a_coeffs_range']) * size(cfg['b_coeffs_range']) < (4 if cfg['const'] == 'phi' else 8 if tiny else 12):
        rg = r.choice([x for k in 'ab' for p in cfg[k + '_coeffs_range'] for x in p])
        if r.chance(0.5):
            rg[0] -= 1
        else:
            rg[1] += 1
    return cfg


def search_cfg(r, small=True, miss=0.12, loose=0.0, tiny=False, **kw):
    """A config whose search has some results (but for some of them)."""
    loose = bool(loose) and r.chance(loose)
    const = r.weighted([(2, 'phi'), (6, 'e'), (6, 'pi'), (1, 'zeta 2'), (1, 'zeta 3')] if loose else
                       [(25, 'phi'), (15, 'e'), (15, 'pi'), (2, 'zeta 2'), (3, 'zeta 3')])
    lhs_type = r.weighted([(2, 'ulcd'), (1, 'rationalfunc')]) if const == 'phi' else \
        'rationalfunc' if const.startswith('zeta') else r.weighted([(1, 'ulcd'), (4, 'rationalfunc')])
    while True:
        pa, pb, acc, hits = r.choice(golden()[const])
        if not acc or not any(t in CHEAP for t in hits):
            continue
        t = r.choice(hits)
        lhs = _lhs_hits(const, lhs_type, (pa, pb), t)
        if not lhs:
            continue
        l = r.choice(lhs)
        break
    if lhs_type == 'ulcd':
        if r.chance(0.12):
            # (the same, with a negative denominator)
            l = [-c for c in l]
        ps = [_around(r, c, 0.3) for c in l]
        if const == 'phi' and r.chance(0.4):
            ps = r.choice([[1, 1, 1, 1], [1, 1, 1, 2], [0, 1, 1, 2]])
    else:
        ps = [[_around(r, c, 0.25) for c in l[0]], [_around(r, c, 0.25) for c in l[1]], r.chance(0.3)]
        while len(ps[0]) > 1 and ps[0][-1] == [0, 1]:
            ps[0].pop()
        while len(ps[1]) > 1 and ps[1][-1] == [0, 1]:
            ps[1].pop()
    wide = 0.15 if small else 0.4
    ra = [[_around(r, c, wide) for c in p] for p in pa]
    rb = [[_around(r, c, wide) for c in p] for p in pb]
    # (long polynomials make many fractions)
    wider = [(q, k, c) for ps_, qs in ((pa, ra), (pb, rb)) for p, q in zip(ps_, qs) for k, c in enumerate(p)
             if q[k] != [c, c + 1]]
    while wider and size(ra) * size(rb) > (150 if small else 300):
        q, k, c = wider.pop(r.below(len(wider)))
        q[k] = [c, c + 1]
    post = [t] + [q for q in r.sample(P[:4] if r.chance(0.7) else CHEAP, r.below(3)) if q != t]
    if r.chance(miss):
        ra = [[coeff_range(r, -3, 4, 2) for c in p] for p in pa]
    cfg = ini.make(const=const, a_coeffs_range=ra, b_coeffs_range=rb, lhs_type=lhs_type, lhs_params=ps,
                   postproc_funcs_filter=r.shuffle(post), hashtable_precision=r.choice([6, 8, 8]),
                   hashtable_num_of_iterations=r.choice([60, 80]), third_filtering_precision=r.choice([16, 20]))
    if r.chance(0.35):
        # other depths and precisions of the stages (some of which are too small for the slow ones)
        cfg['first_filtering_num_of_iterations'] = r.choice([50, 70, 150])
        cfg['second_filtering_max_num_of_iterations'] = r.choice([60, 110, 250])
        cfg['third_filtering_max_num_of_iterations'] = r.choice([70, 180, 300])
        cfg['second_filtering_precision'] = r.choice([11, 16, 22])
        cfg['third_filtering_precision'] = r.choice([12, 20, 30, 38])
    if const.startswith('zeta'):
        cfg['const'], cfg['i'] = r.choice([('zeta', int(const[-1])), ('apery' if const[-1] == '3' else 'zeta', int(const[-1]))])
    if loose:
        if const in ('e', 'pi') and r.chance(0.4):
            # (for which all the matches are accidental)
            cfg['const'], cfg['i'] = r.choice([('euler_masch', 0), ('percolation', 0), ('percolation', 1), ('apery', 0)] +
                                              [('zeta', 2), ('zeta', 3)])
        loosen(r, cfg, tiny)
    cfg.update(kw)
    return cfg
