"""Reference models, written independently of the repository's code: what a search space contains, what a continued
fraction is worth, what a table and a result have to look like. They use an mpmath context (and precision) of their own.

Whatever a finite-precision implementation is free to do at a digit boundary, or for an ill-conditioned value, is left
free here too (see Val.err and admissible_keys)."""

import itertools
from fractions import Fraction
from math import comb

from mpmath.ctx_mp import MPContext

WORK_DPS = 50           # the precision the real sessions work in
X = MPContext()
X.dps = 110
mpf = X.mpf
EPS = mpf(10) ** -(WORK_DPS - 1)

POSTPROC_TEXTS = ['lambda x: x', 'safe_inverse', 'lambda x: x**2', 'lambda x: safe_inverse(x**2)', 'lambda x: x**3',
                  'lambda x: safe_inverse(x**3)', 'lambda x: x**4', 'lambda x: safe_inverse(x**4)', 'lambda x: x**5',
                  'lambda x: safe_inverse(x**5)', 'safe_sqrt', 'lambda x: safe_inverse(safe_sqrt(x))',
                  'lambda x: dec_sin(x)', 'lambda x: safe_inverse(dec_sin(x))', 'lambda x: dec_cos(x)',
                  'lambda x: safe_inverse(dec_cos(x))', 'lambda x: dec_tan(x)', 'lambda x: safe_inverse(dec_tan(x))',
                  'lambda x: dec_cot(x)', 'lambda x: safe_inverse(dec_cot(x))', 'lambda x: dec_exp(x)',
                  'lambda x: safe_inverse(dec_exp(x))', 'lambda x: dec_ln(x)', 'lambda x: safe_inverse(dec_ln(x))']


def _base_func(name):
    def sqrt(v):
        return X.sqrt(v) if v >= 0 else None

    def ln(v):
        return X.ln(v) if v > 0 else None

    return {'x': lambda v: v, 'x**2': lambda v: v ** 2, 'x**3': lambda v: v ** 3, 'x**4': lambda v: v ** 4,
            'x**5': lambda v: v ** 5, 'sqrt': sqrt, 'sin': X.sin, 'cos': X.cos, 'tan': X.tan,
            'cot': lambda v: 1 / X.tan(v) if X.tan(v) != 0 else None, 'exp': X.exp, 'ln': ln}[name]


def parse_postproc(text):
    """-> (name of the base function, is it inverted)"""
    t = text.strip()
    inv = False
    if t == 'safe_inverse':
        return 'x', True
    if t == 'safe_sqrt':
        return 'sqrt', False
    assert t.startswith('lambda x: '), text
    t = t[len('lambda x: '):]
    if t.startswith('safe_inverse(') and t.endswith(')'):
        t, inv = t[len('safe_inverse('):-1], True
    if t.startswith('dec_') and t.endswith('(x)'):
        t = t[4:-3]
    elif t == 'safe_sqrt(x)':
        t = 'sqrt'
    return t, inv


def postproc(text, v):
    """The value of the post-process function (None if there's none)."""
    name, inv = parse_postproc(text)
    r = _base_func(name)(v)
    if r is None or not X.isfinite(r):
        return None
    if inv:
        if r == 0:
            return None
        r = 1 / r
    return r


# ---------------------------------------------------------------------------------------------------------------------
# constants
# ---------------------------------------------------------------------------------------------------------------------

def const_value(name, i=None):
    if name == 'pi':
        return +X.pi
    if name == 'e':
        return X.exp(1)
    if name == 'phi':
        return (1 + X.sqrt(5)) / 2
    if name == 'euler_masch':
        return +X.euler
    if name == 'apery':
        return X.zeta(3)
    if name == 'zeta':
        return X.zeta(int(i))
    if name == 'percolation':
        s = 2 * X.sin(X.pi / 18)
        return [1 - s, s][i]
    if name == 'feig':
        # Bass and the others aren't given by a formula: the leading digits only
        return [None, None, None, None][i]
    raise KeyError(name)


def const_label(name, i=None):
    return '%s, %d' % (name, i) if name in ('zeta', 'feig', 'percolation') else name


# ---------------------------------------------------------------------------------------------------------------------
# search spaces
# ---------------------------------------------------------------------------------------------------------------------

def _strip_zeros(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def degree(p):
    return len(_strip_zeros(p)) - 1


def int_roots(p):
    """(has a positive integer root, has a negative integer root) of a nonzero polynomial, exactly."""
    p = _strip_zeros(p)
    while p and p[0] == 0:
        p = p[1:]
    if len(p) < 2:
        return False, False
    pos = neg = False
    c = abs(p[0])
    for d in range(1, c + 1):
        if c % d:
            continue
        if sum(k * d ** j for j, k in enumerate(p)) == 0:
            pos = True
        if sum(k * (-d) ** j for j, k in enumerate(p)) == 0:
            neg = True
    return pos, neg


def b_status(p):
    """'out' - has to be excluded (a zero polynomial or one of degree <=2, its powers of x aside, with a positive
    integer root), 'free' - may be excluded, 'in' - has to be enumerated."""
    q = _strip_zeros(p)
    if not q:
        return 'out'
    while q[0] == 0:
        q = q[1:]
    pos, neg = int_roots(q)
    if pos:
        return 'out' if len(q) <= 3 else 'free'
    if neg and len(q) == 3:
        return 'free'
    return 'in'


def _expand(poly_type, special, polys, which):
    if poly_type == 'normal':
        yield tuple(tuple(p) for p in polys)
    elif poly_type == 'indexed':
        res = []
        for p in polys:
            deg = len(p) - 1
            q = [0] * len(p)
            for i, c in enumerate(p):
                # c*(x+i)^deg
                for j in range(deg + 1):
                    q[j] += c * comb(deg, j) * i ** (deg - j)
            res.append(tuple(q))
        yield tuple(res)
    elif poly_type == 'sparse':
        n = special[0] if which == 'a' else special[1]
        k = len(polys[0])
        masks = list(itertools.combinations(range(n), k))
        for choice in itertools.product(masks, repeat=len(polys)):
            res = []
            for p, mask in zip(polys, choice):
                q = [0] * n
                for pos, c in zip(mask, p):
                    q[pos] = c
                res.append(tuple(q))
            yield tuple(res)
    else:
        raise KeyError(poly_type)


def _one_side(poly_type, special, rng, which):
    for polys in itertools.product(*[itertools.product(*[range(r[0], r[1]) for r in interlace]) for interlace in rng]):
        for e in _expand(poly_type, special, polys, which):
            yield e


def sparse_size(special, range_a, range_b):
    """How many sparse pairs there are (repeated ones among them)."""
    n = 1
    for k, rng in zip(special, (range_a, range_b)):
        for p in rng:
            n *= comb(k, len(rng[0]))
            for lo, hi in p:
                n *= max(0, hi - lo)
    return n


def squeeze(p):
    return (p[0],) if len(p) > 1 and all(q == p[0] for q in p) else p


_PAIRS_CACHE = {}


def enumerate_pairs(poly_type, special, range_a, range_b):
    """{(a polys, b polys): must it be enumerated (else it's free)}. The excluded ones aren't there."""
    key = repr((poly_type, special, range_a, range_b))
    if key in _PAIRS_CACHE:
        return _PAIRS_CACHE[key]
    res = {}
    bs = list(_one_side(poly_type, special, range_b, 'b'))
    for pa in _one_side(poly_type, special, range_a, 'a'):
        sa = squeeze(pa)
        for pb in bs:
            stats = [b_status(p) for p in pb]
            if 'out' in stats:
                continue
            sb = squeeze(pb)
            if len(sa) == 1 and len(sb) == 1 and degree(sb[0]) > 2 * degree(sa[0]):
                continue
            must = 'free' not in stats
            res[(sa, sb)] = res.get((sa, sb), False) or must
    if len(_PAIRS_CACHE) > 300:
        _PAIRS_CACHE.clear()
    _PAIRS_CACHE[key] = res
    return res


# ---------------------------------------------------------------------------------------------------------------------
# continued fractions
# ---------------------------------------------------------------------------------------------------------------------

def subs(p, x):
    r = 0
    for c in reversed(p):
        r = r * x + c
    return r


def ab_lists(pa, pb, n):
    """a_0..a_{n-1}, b_1..b_{n-1}"""
    return ([subs(pa[i % len(pa)], i) for i in range(n)], [subs(pb[i % len(pb)], i) for i in range(1, n)])


class Val:
    """v - the value, err - a bound for the error of a computation in the working precision, ok - a well-conditioned
    finite value."""
    __slots__ = ('v', 'err', 'ok', 'zero')

    def __init__(self, v, err, ok, zero=False):
        self.v, self.err, self.ok, self.zero = v, err, ok, zero


_CF_CACHE = {}


def cf_value(pa, pb, depth):
    """The value of the continued fraction which is cut at a_{depth-1} (computed bottom up)."""
    key = (pa, pb, depth)
    r = _CF_CACHE.get(key)
    if r is not None:
        return r
    a, b = ab_lists(pa, pb, depth)
    v, err, ok = mpf(a[-1]), mpf(0), True
    for i in range(depth - 2, -1, -1):
        if abs(v) < mpf(10) ** -25 or err > abs(v) / 1000:
            ok = False
            break
        t = b[i] / v
        err = err * abs(t / v) * mpf('1.01') + EPS * abs(t)
        v = a[i] + t
        err += EPS * abs(v)
    if ok and (abs(v) < mpf(10) ** -25 or err > abs(v) / 1000):
        ok = False
    r = Val(v, err * 4 + mpf(10) ** -WORK_DPS, ok)
    if len(_CF_CACHE) > 5000:
        _CF_CACHE.clear()
    _CF_CACHE[key] = r
    return r


def cf_exact(pa, pb, n):
    """p_n/q_n = a_0 + b_1/(a_1 + ... b_n/a_n), exactly, as (p, q) of the recurrence (not reduced)."""
    p1, p0, q1, q0 = subs(pa[0], 0), 1, 1, 0
    for i in range(1, n + 1):
        a, b = subs(pa[i % len(pa)], i), subs(pb[i % len(pb)], i)
        p1, p0 = a * p1 + b * p0, p1
        q1, q0 = a * q1 + b * q0, q1
    return p1, q1


_LIM_CACHE = {}


def cf_limit(pa, pb, digits=45, max_n=3000):
    """(limit, how the convergents approach it), or (None, 'diverges'/'slow'/'finite'). The approach is the number of
    digits gained in an iteration."""
    key = (pa, pb, digits)
    if key in _LIM_CACHE:
        return _LIM_CACHE[key]
    res = _cf_limit(pa, pb, digits, max_n)
    if len(_LIM_CACHE) > 5000:
        _LIM_CACHE.clear()
    _LIM_CACHE[key] = res
    return res


def _cf_limit(pa, pb, digits, max_n):
    p1, p0, q1, q0 = subs(pa[0], 0), 1, 1, 0
    prev = None
    tol = mpf(10) ** -(digits + 5)
    good = 0
    for i in range(1, max_n + 1):
        a, b = subs(pa[i % len(pa)], i), subs(pb[i % len(pb)], i)
        if b == 0:
            return None, 'finite'
        p1, p0 = a * p1 + b * p0, p1
        q1, q0 = a * q1 + b * q0, q1
        if i % 5 == 0:
            cur = mpf(p1) / mpf(q1) if q1 else None
            if cur is not None and prev is not None and abs(cur - prev) <= tol * max(1, abs(cur)):
                good += 1
                if good >= 3:
                    return cur, digits / float(i)
            else:
                good = 0
            prev = cur
        if i >= 400 and i % 400 == 0 and max_n > 400 and prev is None:
            return None, 'diverges'
    return None, 'slow'


# ---------------------------------------------------------------------------------------------------------------------
# tables
# ---------------------------------------------------------------------------------------------------------------------

def frac_key(v, prec):
    """'0.' and the first prec digits of the fractional part of |v|."""
    v = abs(v)
    f = v - X.floor(v)
    n = int(X.floor(f * mpf(10) ** prec))
    return '0.' + str(n).rjust(prec, '0')


def post_val(text, val):
    """Val of the post-process function of a Val. None if the function has no value there. .ok is False if either that
    or the digits aren't determined by the working precision."""
    if not val.ok:
        return Val(None, None, False)
    v, e = val.v, max(val.err, abs(val.v) * EPS)
    r = postproc(text, v)
    lo, hi = postproc(text, v - e), postproc(text, v + e)
    if r is None:
        return None if lo is None and hi is None else Val(None, None, False)
    if lo is None or hi is None:
        return Val(None, None, False)
    err = 4 * (abs(hi - r) + abs(lo - r)) + abs(r) * EPS * 10
    # the working precision's rounding inside of a transcendental function of a big argument
    err += EPS * 10 * abs(v) * (abs(r) + 1)
    if abs(r) < mpf(10) ** -40:
        return Val(r, err, False)
    return Val(r, err, err < mpf(10) ** -3)


def admissible_keys(val, prec):
    """The keys that a value known up to val.err may have."""
    ks = set()
    e = max(val.err, mpf(10) ** -(WORK_DPS - 2))
    for d in (-e, 0, e):
        ks.add(frac_key(val.v + d, prec))
    if len(ks) > 1 and '0.' + '9' * prec in ks:
        # 0.9999... that is rounded up
        ks.add('1.' + '0' * prec)
    return ks


def expected_table(poly_type, special, range_a, range_b, depth, texts):
    """{(pair, postproc text): Val or 'free'} - 'free' ones may be absent, and if present may have any key."""
    res = {}
    for pair, must in enumerate_pairs(poly_type, special, range_a, range_b).items():
        v = cf_value(pair[0], pair[1], depth)
        for t in texts:
            if not v.ok:
                res[(pair, t)] = (Val(None, None, False), False)
                continue
            pv = post_val(t, v)
            if pv is None:
                continue
            res[(pair, t)] = (pv, must)
    return res


def merge_expected(*tables):
    """The union of several expected tables (an entry that must be in one must be in the union)."""
    res = {}
    for t in tables:
        for k, (v, must) in t.items():
            if k in res:
                res[k] = (res[k][0] if res[k][0].ok else v, res[k][1] or must)
            else:
                res[k] = (v, must)
    return res


def check_table(found, expected, prec, allow_dups=1):
    """found - {key: [(pair, postproc text), ...]} as it's stored, expected - see expected_table.
    Returns None if it's right, else a description of the first difference."""
    seen = {}
    for key, entries in found.items():
        for pair, text in entries:
            seen.setdefault((pair, text), []).append(key)
    for pt, keys in seen.items():
        if pt not in expected:
            return 'unexpected entry %s %s under %s' % (pt[0], pt[1], keys)
        if len(keys) > allow_dups:
            return 'entry %s %s is stored %d times' % (pt[0], pt[1], len(keys))
        v, must = expected[pt]
        precs = list(prec) if isinstance(prec, (list, tuple)) else [prec]
        # (of an ill-conditioned value nothing is claimed about the key)
        if v.ok and v.err < mpf(10) ** -(max(precs) + 1):
            adm = set()
            for p in precs:
                adm |= admissible_keys(v, p)
            for k in keys:
                if k not in adm:
                    return 'entry %s %s is stored under %s instead of %s' % (pt[0], pt[1], k, sorted(adm))
    for pt, (v, must) in expected.items():
        if must and v.ok and pt not in seen:
            return 'entry %s %s (%s) is missing' % (pt[0], pt[1], X.nstr(v.v, 15))
    return None


# ---------------------------------------------------------------------------------------------------------------------
# left hand sides
# ---------------------------------------------------------------------------------------------------------------------

def _ulcd_range(r, is_d=False):
    if isinstance(r, int):
        return range(1 if is_d else -r, r + 1)
    return range(*r)


def lhs_enumerate(lhs_type, params, x):
    """[(params, value)] of all the left hand sides (no degenerate ones, each value up to an integer is kept)."""
    res = []
    if lhs_type == 'ulcd':
        us, ls, cs, ds = [_ulcd_range(r, k == 3) for k, r in enumerate(params)]
        for u, l, c, d in itertools.product(us, ls, cs, ds):
            if d == 0 or l == 0 or abs(c) >= abs(d) or (abs(u) == 1 and u == -l):
                continue
            res.append(((u, l, c, d), (u / x + x / l + c) / d))
    else:
        nums, dens, bigger = params
        for n in itertools.product(*[range(*r) for r in nums]):
            if not any(n):
                continue
            for d in itertools.product(*[range(*r) for r in dens]):
                if not any(d):
                    continue
                dn, dd = degree(n), degree(d)
                if dn < 1 and dd < 1:
                    continue
                if bigger and dn < dd:
                    continue
                if _proportional(n, d):
                    continue
                dv = subs(d, x)
                if dv == 0:
                    continue
                res.append(((n, d), subs(n, x) / dv))
    return res


def _proportional(n, d):
    n, d = _strip_zeros(n), _strip_zeros(d)
    if len(n) != len(d):
        return False
    i = len(n) - 1
    return all(n[k] * d[i] == d[k] * n[i] for k in range(len(n)))


def lhs_value(lhs_type, params, x):
    """The value of exported LHS params."""
    if lhs_type == 'ulcd':
        u, l, c, d = params
        return (mpf(u) / x + x / mpf(l) + c) / d
    n, d, k = params
    return subs([mpf(c) for c in n], x) / subs([mpf(c) for c in d], x) + k


def frac_mod(v):
    """v modulo 1 and up to a sign, in [0, 0.5]."""
    f = v - X.floor(v)
    return f if f <= mpf('0.5') else 1 - f
