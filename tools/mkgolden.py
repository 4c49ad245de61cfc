"""Writes golden.json: for the continued fractions of a few families that equal a simple function of a constant, whether
the repository's convergence filters (a heuristic, which is not under verification here) accept them. It's used only to
know which results are due in an export. Run by hand: PYTHONPATH=/verif python tools/mkgolden.py"""
import sys, json, itertools
sys.path.insert(0, '/verif')
from sim import core, model
from sim.model import X, mpf
core.install()
sys.path.insert(0, core.REPO)
import mpmath
import cont_fracs
mpmath.mp.dps = 50

def fam_phi():
    for a in range(-6, 7):
        for b in range(-6, 7):
            yield ((a,),), ((b,),)
    for a in itertools.product(range(-3, 4), repeat=2):
        for b in range(-3, 4):
            yield ((a[0],), (a[1],)), ((b,),)
    for a in range(-3, 4):
        for b in itertools.product(range(-3, 4), repeat=2):
            yield ((a,),), ((b[0],), (b[1],))
def fam_e():
    for a in itertools.product(range(-4, 5), repeat=2):
        for b in itertools.product(range(-3, 4), repeat=2):
            yield (a,), (b,)
def fam_pi():
    for a in itertools.product(range(-3, 4), repeat=2):
        for b in itertools.product(range(-2, 3), repeat=3):
            yield (a,), (b,)
def fam_zeta2():
    for s in (1, -1, 2):
        yield ((3 * s, 11 * s, 11 * s),), ((0, 0, 0, 0, s * s),)
        yield ((2 * s, 7 * s, 7 * s),), ((0, 0, 0, 0, 8 * s * s),)
def fam_zeta3():
    for s in (1, -1, 2):
        for a, l, c in ((17, 5, 1), (10, 4, 64), (12, 4, 16)):
            yield ((l * s, (a + 2 * l) * s, 3 * a * s, 2 * a * s),), ((0, 0, 0, 0, 0, 0, -c * s * s),)
LHS = {'zeta 2': [], 'zeta 3': [], 'phi': [('ulcd', [3, 3, 3, 3])], 'e': [('ulcd', [2, 2, 2, 2]), ('rationalfunc', [[[-2, 3], [-2, 3]], [[-2, 3], [-2, 3]], False])],
       'pi': [('ulcd', [2, 2, 2, 2]), ('rationalfunc', [[[-2, 3], [-2, 3]], [[-2, 3], [-2, 3]], False])]}
res = {}
for const, fam in (('phi', fam_phi), ('e', fam_e), ('pi', fam_pi), ('zeta 2', fam_zeta2), ('zeta 3', fam_zeta3)):
    x = model.const_value(*const.split())
    vals = set()
    for t, p in LHS[const]:
        for _, v in model.lhs_enumerate(t, p, x):
            vals.add(int(model.frac_mod(v) * mpf(10) ** 25 + mpf('0.5')))
    out = []
    for pa, pb in fam():
        if any(model.b_status(p) == 'out' for p in pb):
            continue
        lim, how = model.cf_limit(pa, pb, max_n=1200)
        if lim is None:
            continue
        hits = [] if LHS[const] else ['lambda x: x', 'safe_inverse']
        for t in () if hits else ('lambda x: x', 'safe_inverse', 'lambda x: x**2', 'safe_sqrt'):
            pv = model.postproc(t, lim)
            if pv is not None and int(model.frac_mod(pv) * mpf(10) ** 25 + mpf('0.5')) in vals and model.frac_mod(pv) > 1e-20:
                hits.append(t)
        if not hits:
            continue
        cf = cont_fracs.ContFrac(a_coeffs=pa, b_coeffs=pb)
        try:
            fast = bool(cf.is_convergence_fast())
            cf = cont_fracs.ContFrac(a_coeffs=pa, b_coeffs=pb)
            cf.estimate_approach_type_and_params()
            typ = cf.get_approach_type_and_params()[0]
        except Exception as e:
            fast, typ = False, type(e).__name__
        out.append([pa, pb, bool(fast and typ in ('exp', 'super_exp')), how, typ, hits])
    print(const, len(out), sum(o[2] for o in out), file=sys.stderr)
    res[const] = out
with open('/tmp/golden_raw.json', 'w') as f:
    json.dump(res, f)
