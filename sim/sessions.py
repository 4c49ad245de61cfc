"""What the checks share: running sessions in a world, and reading what they left on the simulated disk."""

import ast
import csv as _csv
import io
import json
import os
import re
from fractions import Fraction

from . import core, ini, model
from .golden import golden, tup
from .harness import Violation
from .model import X, mpf

# ---------------------------------------------------------------------------------------------------------------------
# running
# ---------------------------------------------------------------------------------------------------------------------

def session(w, name, path, faults=None, cwd=None, guard=None):
    """A session of the main program, with the given config file."""
    def body(node):
        node.arm_guard = guard
        node.mod('main').main(path)
    return w.spawn(name, body, cwd=cwd, faults=faults)


def distribute(w, name, n, path, faults=None, cwd=None):
    return w.spawn(name, lambda node: node.mod('distribute_run').main(n, path), cwd=cwd, faults=faults)


def join(w, name, d, out, faults=None, cwd=None):
    return w.spawn(name, lambda node: node.mod('join_hashtables').main(d, out), cwd=cwd, faults=faults)


def fix(w, name, path, faults=None):
    return w.spawn(name, lambda node: node.mod('fix_hashtable_filter_init_b_root').main(path), faults=faults)


def faults_of(scn, node):
    return [f for f in scn.get('faults', ()) if f.get('node') == node]


def describe(node):
    r = node.result
    if r is None:
        return 'did not run'
    return r[0] if r[0] != 'exc' else '%s: %s' % (r[1], r[2])


def must_finish(node, what, cls='session-fails'):
    if not node.finished_ok():
        raise Violation(cls, '%s fails with no fault: %s' % (what, describe(node)))


# ---------------------------------------------------------------------------------------------------------------------
# reading tables
# ---------------------------------------------------------------------------------------------------------------------

class Table:
    """keys: {key: [(pair, postproc text)]}, acc: digits of new keys"""
    __slots__ = ('keys', 'acc', 'error', 'target', 'depth')

    def entries(self):
        res = {}
        for k, v in self.keys.items():
            for e in v:
                res[(k, e)] = res.get((k, e), 0) + 1
        return res


def _read_table(node, path):
    t = Table()
    t.error = None
    t.keys, t.acc, t.target, t.depth = {}, None, None, None
    try:
        import dill
        funcs = node.mod('postprocfuncs').POSTPROC_FUNCS
        with open(path, 'rb') as f:
            mitm = dill.load(f)
        for k in list(mitm.dec_hashtable.keys()):
            if not re.fullmatch(r'-?\d+\.\d*', k):
                continue
            v = dict.__getitem__(mitm.dec_hashtable, k)
            t.keys[k] = [((tup(ab[0]), tup(ab[1])), funcs[i]) for ab, i in v]
        t.acc = mitm.hashtable_prec
        t.target = mitm.target_name
    except core.SimCrash:
        raise
    except Exception as e:
        t.error = '%s: %s' % (type(e).__name__, str(e)[:300])
    return t


def read_tables(w, rels):
    """{rel: Table}, as a new process reads them."""
    rels = list(rels)
    if not rels:
        return {}
    node = w.spawn('observer', lambda node: {r: _read_table(node, os.path.join(w.root, r)) for r in rels})
    w.run()
    if not node.finished_ok():
        raise core.HarnessError('the observer fails: %s' % describe(node))
    return node.result[1]


def read_table(w, rel):
    return read_tables(w, [rel])[rel]


def pkl_files(w, sub=''):
    return {p: b for p, b in w.snapshot(sub).items() if p.endswith('.pkl')}


def leftovers(snap):
    return sorted(p for p in snap if p.endswith('.tmp'))


def stored_name(node):
    """The file that the session reported as the stored table (or None)."""
    m = re.search(r'Stored hashtable as (.+?)\. Runtime', node.text())
    return os.path.normpath(m.group(1)) if m else None


def loaded_name(node):
    m = re.search(r'Loaded mitm object and hashtable from (.+?)\. Runtime', node.text())
    return os.path.normpath(m.group(1)) if m else None


def expected_of(cfg):
    """The reference content of a table that was generated by the config."""
    return model.expected_table(cfg['ab_polys_type'], cfg['ab_polys_special_params'], cfg['a_coeffs_range'],
                                cfg['b_coeffs_range'], cfg['hashtable_num_of_iterations'],
                                cfg['postproc_funcs_filter'])


# ---------------------------------------------------------------------------------------------------------------------
# results
# ---------------------------------------------------------------------------------------------------------------------

class Row:
    __slots__ = ('pair', 'post', 'lhs_type', 'lhs', 'typ', 'rate', 'val', 'lhs_val', 'raw')


class Results:
    __slots__ = ('dir', 'target', 'rows', 'files', 'tex', 'config')


def parse_csv(text):
    """-> (target name, rows). Raises Violation if it isn't a complete results file."""
    try:
        lines = list(_csv.reader(io.StringIO(text, newline='')))
        assert lines[0][0] == 'target_name' and len(lines[0]) == 2
        target = lines[0][1]
        assert len(lines[1]) == 9
        rows = []
        for ln in lines[2:]:
            r = Row()
            r.raw = tuple(ln)
            pa, pb, r.post, r.lhs_type, lhs, r.typ, r.rate, val, lval = ln
            r.pair = (tup(ast.literal_eval(pa)), tup(ast.literal_eval(pb)))
            r.lhs = tup(ast.literal_eval(lhs))
            r.val, r.lhs_val = mpf(val), mpf(lval)
            rows.append(r)
        return target, rows
    except Violation:
        raise
    except Exception as e:
        raise Violation('unreadable-results', 'the results file cannot be read (%s: %s): %r' % (
            type(e).__name__, e, text[:300]))


def results_dirs(snap):
    """The directories of results ({dir: {file: bytes}}) of a snapshot."""
    res = {}
    for p, b in snap.items():
        parts = p.split('/')
        if 'results' in parts[:-1]:
            i = parts.index('results')
            if i + 1 < len(parts) - 1 or i + 2 == len(parts):
                d = '/'.join(parts[:i + 2]) if i + 2 < len(parts) else '/'.join(parts[:i + 1])
                res.setdefault(d, {})[p[len(d) + 1:]] = b
    return res


def load_results(files, d):
    r = Results()
    r.dir, r.files = d, files
    if 'results.csv' not in files:
        raise Violation('no-results', 'no results.csv in %s (%s)' % (d, sorted(files)))
    r.target, r.rows = parse_csv(files['results.csv'].decode())
    r.tex = files.get('results.tex', b'').decode() or None
    r.config = files.get('config.ini', b'').decode() or None
    return r


def const_of(cfg):
    return cfg['const'], cfg.get('i')


def frac(v):
    v = abs(v)
    return v - X.floor(v)


def _norm_poly(p):
    p = [Fraction(c) for c in p]
    while p and p[-1] == 0:
        p.pop()
    return p


def _polydiv(a, b):
    a = list(a)
    q = [Fraction(0)] * max(len(a) - len(b) + 1, 0)
    while len(a) >= len(b) and a:
        k = a[-1] / b[-1]
        s = len(a) - len(b)
        q[s] += k
        for i, c in enumerate(b):
            a[i + s] -= k * c
        a = _norm_poly(a)
    return _norm_poly(q), a


def _polygcd(a, b):
    while b:
        a, b = b, _polydiv(a, b)[1]
    return a


def lhs_function(lhs_type, params):
    """The function of the constant that the LHS is, in a normal form (two are equal iff the functions are)."""
    if lhs_type == 'ulcd':
        u, l, c, d = params
        return ('ulcd', Fraction(u, d), Fraction(1, l * d), Fraction(c, d))
    n, d, k = params
    n, d = _norm_poly(n), _norm_poly(d)
    g = _polygcd(n, d)
    if len(g) > 1:
        n, d = _polydiv(n, g)[0], _polydiv(d, g)[0]
    n = [(n[i] if i < len(n) else 0) + k * (d[i] if i < len(d) else 0) for i in range(max(len(n), len(d)))]
    n = _norm_poly(n)
    lead = d[-1]
    return ('rat', tuple(c / lead for c in n), tuple(c / lead for c in d))


def lhs_class(lhs_type, params):
    """The same up to a sign and an added integer."""
    if lhs_type == 'ulcd':
        _, a, b, c = lhs_function(lhs_type, params)
        return min((a, b, c - (c.numerator // c.denominator)),
                   (-a, -b, -c - ((-c).numerator // (-c).denominator)))
    res = []
    for s in (1, -1):
        _, n, d = lhs_function(lhs_type, (tuple(s * c for c in params[0]), params[1],
                                          s * (params[2] if len(params) > 2 else 0)))
        if len(n) == len(d):
            k = n[-1] / d[-1]
            k = k.numerator // k.denominator
            n = tuple(_norm_poly([x - k * y for x, y in zip(n, d)]))
        res.append((n, d))
    return min(res)


def neg_pair(pair):
    return tuple(tuple(-c for c in p) for p in pair[0]), pair[1]


def inverse_text(t):
    i = model.POSTPROC_TEXTS.index(t)
    return model.POSTPROC_TEXTS[i ^ 1]


def check_rows(res, cfg, pairs, digits, depth):
    """Each row is true, and is a row that this search can find. pairs - {pair: must} of the search space. digits -
    up to how many digits it has to have been compared, depth - with how many iterations at most."""
    const, i = const_of(cfg)
    x = model.const_value(const, i)
    if res.target != model.const_label(const, i):
        raise Violation('wrong-target', 'the results say of a search of %s that it is of %r' % (
            model.const_label(const, i), res.target))
    seen = set()
    for r in res.rows:
        if r.pair not in pairs:
            raise Violation('foreign-result', 'a result that is not in the search space: %s' % (r.raw,))
        if r.post not in cfg['postproc_funcs_filter']:
            raise Violation('foreign-result', 'a result of a postproc func that is not configured: %s' % (r.raw,))
        if r.lhs_type != cfg['lhs_type']:
            raise Violation('wrong-lhs-type', 'the result says its LHS type is %r instead of %r' % (
                r.lhs_type, cfg['lhs_type']))
        lim, how = model.cf_limit(r.pair[0], r.pair[1])
        if lim is None:
            raise Violation('untrue-result', 'a result of a continued fraction that is %s: %s' % (how, r.raw))
        pv = model.postproc(r.post, lim)
        lv = model.lhs_value(r.lhs_type, r.lhs, x)
        # (how far the compared and the exported depths are from the limit)
        far = [off_limit(r, n, pv) if pv is not None else 0 for n in (depth, 400)]
        tol = mpf(10) ** -digits * mpf('1.001')
        if pv is None or abs(pv - lv) > tol + far[0]:
            raise Violation('untrue-result', 'the two sides of %s are %s and %s' % (
                r.raw[:5], pv if pv is None else X.nstr(pv, 25), X.nstr(lv, 25)))
        for got, right, what, e in ((r.val, pv, 'continued fraction', far[1]), (r.lhs_val, lv, 'LHS', 0)):
            if abs(got - right) > mpf(10) ** -35 * max(1, abs(right)) + 10 * e:
                raise Violation('wrong-value', 'the %s value of %s is %s' % (what, r.raw, X.nstr(right, 40)))
        if r.typ not in ('exp', 'super_exp'):
            raise Violation('untrue-result', 'a result that does not converge exponentially: %s' % (r.raw,))
        key = (r.pair, r.post, r.lhs)
        if key in seen:
            raise Violation('repeated-result', 'the result %s appears twice' % (r.raw,))
        seen.add(key)


def off_limit(r, depth, pv):
    """How far the function of the continued fraction of that depth is from that of the limit."""
    c = model.cf_value(r.pair[0], r.pair[1], depth)
    v = model.post_val(r.post, c) if c.ok else None
    if v is None or not v.ok:
        return mpf(10) ** -20
    return abs(v.v - pv) + v.err


def due_rows(cfg, entries, prec=None, accepted=()):
    """What has to be found: {(pair, post): set of LHS classes} by the table's entries [(pair, post)] that are accepted,
    exponential and are equal to an LHS of the search.
    accepted - pairs that are known to be accepted (as they've results)."""
    const, i = const_of(cfg)
    x = model.const_value(const, i)
    acc = {(pa, pb) for c in golden() for pa, pb, a, _ in golden()[c] if a} | set(accepted)
    prec = prec or cfg['hashtable_precision']
    most = min(30, max(prec, cfg['third_filtering_precision']))
    edge = max(mpf(10) ** -6, mpf(10) ** (1 - min(prec, cfg['first_filtering_precision'])))
    lhs = {}
    for params, v in model.lhs_enumerate(cfg['lhs_type'], cfg['lhs_params'], x):
        f = frac(v)
        if f < edge or 1 - f < edge:
            continue
        lhs.setdefault(int(f * mpf(10) ** most), []).append((params, f))
    res = {}
    depth = min(cfg['hashtable_num_of_iterations'], cfg['first_filtering_num_of_iterations'])
    for pair, post in entries:
        if pair not in acc:
            continue
        lim, how = model.cf_limit(pair[0], pair[1])
        if lim is None:
            continue
        pv = model.postproc(post, lim)
        if pv is None:
            continue
        f = frac(pv)
        hits = [p for d in (-1, 0, 1) for p, g in lhs.get(int(f * mpf(10) ** most) + d, [])
                if not d or abs(f - g) < mpf(10) ** -28]
        if not hits:
            continue
        # the table's depth and precision have to let it be found
        cut = model.cf_value(pair[0], pair[1], cfg['hashtable_num_of_iterations'])
        cv = model.post_val(post, cut) if cut.ok else None
        if cv is None or not cv.ok:
            continue
        ks = model.admissible_keys(cv, prec) | model.admissible_keys(model.Val(pv, mpf(10) ** -40, True), prec)
        if len(ks) != 1:
            continue
        ok = True
        for n, digits in ((cfg['first_filtering_num_of_iterations'], cfg['first_filtering_precision']),
                          (cfg['second_filtering_max_num_of_iterations'], cfg['second_filtering_precision']),
                          (cfg['third_filtering_max_num_of_iterations'], cfg['third_filtering_precision'])):
            v = model.post_val(post, model.cf_value(pair[0], pair[1], min(n, 120)))
            w = model.post_val(post, model.cf_value(pair[0], pair[1], n)) if n > 120 else v
            if v is None or not v.ok or w is None or not w.ok:
                ok = False
                break
            ks = model.admissible_keys(v, digits + 1) | model.admissible_keys(w, digits + 1) | \
                model.admissible_keys(model.Val(pv, mpf(10) ** -40, True), digits + 1)
            if len(ks) != 1:
                ok = False
                break
        if not ok:
            continue
        res[(pair, post)] = {lhs_class(cfg['lhs_type'], p) for p in hits}
    return res


def check_due(res, due, cfg):
    """Everything that's due is there, itself or as an equivalent result."""
    have, have_pairs = set(), set()
    for r in res.rows:
        c = lhs_class(r.lhs_type, r.lhs)
        have.add((r.pair, r.post, c))
        have_pairs.add((r.pair, r.post))
    for (pair, post), classes in due.items():
        if cfg['lhs_type'] == 'ulcd':
            for c in classes:
                if not any((p, post, c) in have for p in (pair, neg_pair(pair))):
                    raise Violation('missing-result', '%s %s = ulcd %s is missing in %s (%d rows)' % (
                        pair, post, tuple(str(f) for f in c), res.dir, len(res.rows)))
        elif not any((p, t) in have_pairs for p in (pair, neg_pair(pair)) for t in (post, inverse_text(post))):
            raise Violation('missing-result', 'no result of %s %s in %s (%d rows)' % (pair, post, res.dir,
                                                                                      len(res.rows)))


def row_key(r):
    return (r.pair, r.post, r.lhs_type, r.lhs, r.typ, r.raw[6], r.raw[7], r.raw[8])


# ---------------------------------------------------------------------------------------------------------------------
# LaTeX
# ---------------------------------------------------------------------------------------------------------------------

class _Tex:
    """Evaluates the LaTeX of an equation's side."""
    def __init__(self, s, consts, dots):
        self.toks = re.findall(r'\\[a-zA-Z]+|\\.|\d+(?:\.\d+)?|[a-zA-Z]|[-+*/^_(){}=|\[\]]', s)
        self.i, self.consts, self.dots = 0, consts, dots

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, t=None):
        c = self.peek()
        if c is None or (t is not None and c != t):
            raise ValueError('%r expected, %r found' % (t, c))
        self.i += 1
        return c

    def expr(self):
        sign = 1
        while self.peek() in ('+', '-'):
            sign *= -1 if self.take() == '-' else 1
        v = sign * self.term()
        while self.peek() in ('+', '-'):
            sign = 1
            while self.peek() in ('+', '-'):
                sign *= -1 if self.take() == '-' else 1
            v = v + sign * self.term()
        return v

    def term(self):
        v = self.power()
        while True:
            t = self.peek()
            if t in ('\\cdot', '\\times', '*'):
                self.take()
                v = v * self.power()
            elif t is None or t in ('+', '-', '}', ')', '\\right', '=', ']', '^'):
                return v
            else:
                v = v * self.power()

    def power(self):
        f = None
        t = self.peek()
        if t in ('\\sin', '\\cos', '\\tan', '\\cot', '\\exp', '\\ln', '\\log'):
            self.take()
            e = 1
            if self.peek() == '^':
                self.take()
                e = self.group_or_tok()
            a = self.power()
            f = {'\\sin': X.sin, '\\cos': X.cos, '\\tan': X.tan, '\\cot': lambda z: 1 / X.tan(z), '\\exp': X.exp,
                 '\\ln': X.ln, '\\log': X.ln}[t]
            return f(a) ** e
        v = self.atom()
        while self.peek() == '^':
            self.take()
            v = v ** self.group_or_tok()
        return v

    def group_or_tok(self):
        if self.peek() == '{':
            return self.group()
        t = self.take()
        # a bare exponent is one character
        if t.isdigit() and len(t) > 1:
            self.i -= 1
            self.toks[self.i] = t[1:]
            return mpf(t[0])
        if t.isdigit():
            return mpf(t)
        if t in self.consts:
            return self.consts[t]
        raise ValueError('exponent %r' % t)

    def group(self):
        self.take('{')
        v = self.expr()
        self.take('}')
        return v

    def atom(self):
        t = self.take()
        if re.fullmatch(r'\d+(?:\.\d+)?', t):
            return mpf(t)
        if t == '\\frac':
            a = self.group()
            return a / self.group()
        if t == '\\sqrt':
            return X.sqrt(self.group())
        if t == '{':
            self.i -= 1
            return self.group()
        if t == '\\left':
            o = self.take()
            v = self.expr()
            self.take('\\right')
            self.take({'(': ')', '[': ']', '|': '|'}[o])
            return v
        if t == '(':
            v = self.expr()
            self.take(')')
            return v
        if t in ('\\dots', '\\ldots', '\\cdots'):
            return self.dots
        if t in self.consts:
            return self.consts[t]
        raise ValueError('unknown token %r' % t)


def tex_equations(tex):
    return [e.strip() for e in re.findall(r'\\begin\{alignat\*?\}\{\d+\}%?\s*(.*?)%?\s*\\end\{alignat\*?\}', tex, re.S)]


def tail_value(pair, depth):
    """t, such that the continued fraction is a_0+b_1/(a_1+...b_{depth-1}/(a_{depth-1}+t))"""
    pa, pb = pair
    n = 260
    v = mpf(model.subs(pa[n % len(pa)], n))
    for i in range(n - 1, depth - 1, -1):
        if v == 0:
            return None
        v = model.subs(pa[i % len(pa)], i) + mpf(model.subs(pb[(i + 1) % len(pb)], i + 1)) / v
    return model.subs(pb[depth % len(pb)], depth) / v if v != 0 else None


def check_tex(res, cfg):
    """The equations are those of the rows, one by one, and are true."""
    if res.tex is None:
        raise Violation('no-tex', 'no results.tex in %s' % res.dir)
    eqs = tex_equations(res.tex)
    if len(eqs) != len(res.rows):
        raise Violation('tex-differs', '%d equations of %d results' % (len(eqs), len(res.rows)))
    const, i = const_of(cfg)
    x = model.const_value(const, i)
    consts = {'pi': ['\\pi'], 'phi': ['\\varphi', '\\phi'], 'e': ['e']}.get(const, ['\\const'])
    consts = {c: x for c in consts}
    for eq, r in zip(eqs, res.rows):
        tail = None
        for depth in (5,):
            tail = tail_value(r.pair, depth)
        if tail is None:
            continue
        if '\\const' in consts:
            eq = eq.replace(model.const_label(const, i), '\\const ')
        try:
            sides = eq.split('=')
            if len(sides) != 2:
                raise ValueError('%d sides' % len(sides))
            vals = []
            for s in sides:
                t = _Tex(s, consts, tail)
                vals.append(t.expr())
                if t.peek() is not None:
                    raise ValueError('trailing %r' % t.peek())
        except ZeroDivisionError:
            continue
        except (ValueError, KeyError) as e:
            raise Violation('tex-unreadable', '%s in the equation of %s: %s' % (e, r.raw[:5], eq))
        tol = mpf(10) ** -30
        if abs(r.val - r.lhs_val) > tol:
            # (a match to the accuracy of the search only; the function may be applied to either of the sides)
            tol = X.sqrt(abs(r.val - r.lhs_val)) * 4
        if abs(vals[0] - vals[1]) > tol * max(1, abs(vals[0])):
            raise Violation('tex-untrue', 'the sides of the equation of %s are %s and %s: %s' % (
                r.raw[:5], X.nstr(vals[0], 20), X.nstr(vals[1], 20), eq))


# ---------------------------------------------------------------------------------------------------------------------
# whole searches
# ---------------------------------------------------------------------------------------------------------------------

def space_of(cfgs):
    """{pair: must} of the union of the search spaces of the configs."""
    res = {}
    for c in cfgs:
        for p, must in model.enumerate_pairs(c['ab_polys_type'], c['ab_polys_special_params'], c['a_coeffs_range'],
                                             c['b_coeffs_range']).items():
            res[p] = res.get(p, False) or must
    return res


def must_entries(cfgs):
    exp = model.merge_expected(*[expected_of(c) for c in cfgs])
    return [k for k, (v, must) in exp.items() if must]


def verify_export(res, cfg, cfgs=None, cancelled=False, complete=True):
    """The export of a search of cfg, of a table which was made of cfgs: true, complete and the LaTeX agrees.
    -> how many results were due"""
    cfgs = cfgs or [cfg]
    posts = dict(cfg, postproc_funcs_filter=sorted({t for c in cfgs for t in c['postproc_funcs_filter']}))
    stage = 'second' if cancelled else 'third'
    check_rows(res, posts, space_of(cfgs), cfg[stage + '_filtering_precision'],
               cfg[stage + '_filtering_max_num_of_iterations'])
    due = {}
    if complete:
        due = due_rows(dict(cfg, hashtable_num_of_iterations=min(c['hashtable_num_of_iterations'] for c in cfgs)),
                       must_entries(cfgs), accepted={r.pair for r in res.rows})
        check_due(res, due, cfg)
    check_tex(res, cfg)
    return len(due)


def canonical_results(res):
    """The results up to what the search calls equivalent."""
    out = set()
    for r in res.rows:
        i = model.POSTPROC_TEXTS.index(r.post)
        if r.lhs_type == 'ulcd':
            out.add((min(r.pair, neg_pair(r.pair)), r.post, lhs_class(r.lhs_type, r.lhs)))
        else:
            out.add((min(r.pair, neg_pair(r.pair)), i // 2))
    return out


def new_results(before, after):
    """[(dir, files)] of the results directories that weren't there before."""
    b, a = results_dirs(before), results_dirs(after)
    return [(d, a[d]) for d in sorted(a) if d not in b]


def reported_results(node):
    """The results directory that the session reported (or None)."""
    m = re.search(r'Finished saving results\. Filename: (.+?)\.csv', node.text())
    return os.path.normpath(os.path.dirname(m.group(1))) if m else None


def results_of(w, node, before):
    """The Results of a session that has finished."""
    new = new_results(before, w.snapshot())
    if len(new) != 1:
        raise Violation('wrong-results-dirs', 'a session that finished created %d results directories: %s' % (
            len(new), [d for d, _ in new]))
    d, files = new[0]
    missing = {'results.csv', 'results.tex', 'results.pdf', 'config.ini'} - set(files)
    if missing:
        raise Violation('missing-files', 'a session that finished did not save %s' % sorted(missing))
    return load_results(files, d)


def run_search(w, name, path, what='a search', faults=None, guard=None):
    """Runs a session alone. -> (node, its Results)"""
    before = w.snapshot()
    n = session(w, name, path, faults, guard=guard)
    w.run()
    must_finish(n, what)
    return n, results_of(w, n, before)


def dividable(cfg, n):
    """Can the ranges be halved log2(n) times? (along the first polynomials of a and b)"""
    def rec(widths, k):
        if k == 0:
            return True
        for i, x in enumerate(widths):
            if x > 1:
                return all(rec(widths[:i] + (h,) + widths[i + 1:], k - 1) for h in {x // 2, x - x // 2})
        return False
    if n < 1 or n & (n - 1):
        return False
    return rec(tuple(hi - lo for hi, lo in [(b, a) for a, b in cfg['a_coeffs_range'][0] + cfg['b_coeffs_range'][0]]),
               n.bit_length() - 1)


# ---------------------------------------------------------------------------------------------------------------------
# configs, as the program itself reads them
# ---------------------------------------------------------------------------------------------------------------------

CONFIG_KEYS = ['const', 'ab_polys_type', 'ab_polys_special_params', 'print_surprising_nonexp_contfracs',
               'gen_hashtable_only', 'a_coeffs_range', 'b_coeffs_range', 'lhs_type', 'lhs_params',
               'postproc_funcs_filter', 'i', 'hashtable_file_operation', 'validate_hashtable_extend_no_replication',
               'hashtable_file', 'hashtable_num_of_iterations', 'hashtable_precision',
               'first_filtering_num_of_iterations', 'first_filtering_precision',
               'second_filtering_max_num_of_iterations', 'second_filtering_precision',
               'third_filtering_max_num_of_iterations', 'third_filtering_precision', 'is_test']


def _plain(v):
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v


def _parse_config(node, path):
    c = node.mod('configfile').ConfigParser(configfile=path).get_config()
    polys = node.mod('enum_poly_params').AB_POLYS_TYPES
    lhs = node.mod('lhs_evaluators').LHS_TYPES
    funcs = node.mod('postprocfuncs').POSTPROC_FUNCS
    res = {}
    for k in CONFIG_KEYS:
        v = c.get(k)
        if k == 'ab_polys_type':
            v = [n for n, x in polys.items() if x is v] or repr(v)
            v = v[0]
        elif k == 'lhs_type':
            v = [n for n, x in lhs.items() if x == v] or [repr(v)]
            v = v[0]
        elif k == 'postproc_funcs_filter' and v is not None:
            v = [funcs[i] for i in v]
        elif k == 'hashtable_file' and v is not None:
            v = os.path.normpath(v)
        res[k] = _plain(v)
    return res


def parse_configs(w, rels, cwd=None):
    """{rel: the config as a session would take it, or the error}"""
    def one(node, r):
        try:
            return _parse_config(node, r)
        except core.SimCrash:
            raise
        except Exception as e:
            return '%s: %s' % (type(e).__name__, str(e)[:300])
    node = w.spawn('observer', lambda node: {r: one(node, r) for r in rels}, cwd=cwd)
    w.run()
    if not node.finished_ok():
        raise core.HarnessError('the observer fails: %s' % describe(node))
    return node.result[1]


def config_of(cfg, table=None):
    """What a config has to be taken as. table - the table's file that's chosen"""
    res = {}
    for k in CONFIG_KEYS:
        res[k] = _plain(cfg[k]) if k in cfg else {'i': 0, 'is_test': False,
                                                  'validate_hashtable_extend_no_replication': True}.get(k)
    if res['gen_hashtable_only'] == 'auto':
        res['gen_hashtable_only'] = cfg['hashtable_file_operation'] != 'use'
    if table is not None:
        res['hashtable_file'] = table
    return res


def config_diff(a, b, ignore=()):
    if isinstance(a, str) or isinstance(b, str):
        return [] if a == b else ['%s / %s' % (a, b)]
    return ['%s: %r / %r' % (k, a.get(k), b.get(k)) for k in CONFIG_KEYS if k not in ignore and
            (a.get(k) != b.get(k) or type(a.get(k)) is not type(b.get(k)))]


def other_content(w, path):
    """Another table under that name: half of the keys, and an entry more."""
    def body(node):
        import dill
        node.mod('enum_params')
        with open(os.path.join(w.root, path), 'rb') as f:
            mitm = dill.load(f)
        t = mitm.dec_hashtable
        for k in sorted(k for k in t.keys() if k != 'parameters')[::2]:
            dict.__delitem__(t, k)
        dict.__setitem__(t, '0.' + '4' * mitm.hashtable_prec, [((((99,),), ((1,),)), 0)])
        with open(os.path.join(w.root, path), 'wb') as f:
            dill.dump(mitm, f, protocol=dill.HIGHEST_PROTOCOL)
    n = w.spawn('earlier version', body)
    w.run()
    must_finish(n, 'writing a table')
