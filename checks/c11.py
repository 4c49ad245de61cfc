"""The table of numbers behaves as a map on the leading digits, at every precision."""
import copy

from sim import core
from sim.harness import Violation

PID = 'C11'
LEVEL = 'exploration'
TECH = ('seeded search over histories of operations on several tables, with crashes and restarts, disk errors and '
        'interrupts, against a reference map of digits')
NOTE = ('Sampled histories of up to 60 operations. Storing in a table of several precisions is not claimed to be atomic '
        'under an interrupt between two lines (the key may then be lost, and no other), nor is merging (the target of '
        'an interrupted merge is not looked at any more).')
COUNT = {'quick': 12000, 'thorough': 250000}
RULE = ('A history of 10-60 operations on 1-4 tables: storing, looking up, testing, deleting, defaults, changing the '
        'precision, merging, saving and loading; the keys are numbers that share some of their leading digits, and '
        'names. Saving is hit by crashes (after which a new process loads what is there) and disk errors, the other '
        'operations by interrupts. All the tables are compared with the reference after each operation. '
        'Non-trivial: a table was loaded, merged, had two precisions, or a fault fired.')
NAMES = ['parameters', 'x', '0.1234567', '', '0.', 'a long name, of more than fifty characters: abcdefghijklmnopqrst']
FS = ['crash', 'crash', 'powerloss', 'eio', 'enospc', 'emfile', 'eacces', 'ki']


def gen(r, ctx, i):
    dps = r.choice([30, 50, 50, 80])
    ntab = r.weighted([(3, 1), (3, 2), (1, 3)])
    merging = r.chance(0.15)
    if merging:
        ntab = r.randint(2, 4)
    accs = [r.choice([3, 5, 7, 8, 10, 12, 20])] * ntab if merging or r.chance(0.7) else [r.choice([3, 6, 8, 12]) for _ in range(ntab)]
    # digits that are shared by several of the numbers
    stems = [''.join(str(r.below(10)) for _ in range(r.randint(1, 20))) for _ in range(r.randint(1, 4))]
    nums = []
    for _ in range(r.randint(2, 10)):
        s = r.choice(stems)[:r.randint(1, 20)]
        tail = r.choice(['', '', '0', '9', '5', '00000', '99999', ''.join(str(r.below(10)) for _ in range(r.randint(1, 12)))])
        d = (s + tail)[:25]
        if r.chance(0.1):
            d = '0' * r.randint(1, 12) + d
        nums.append('0.' + d[:25])
        if r.chance(0.12):
            # (tables whose numbers are not cut to their fractional parts)
            nums[-1] = r.choice(['-', '', '']) + r.choice(['0', '1', '7', '12', '123']) + nums[-1][1:]
            if float(nums[-1]) == 0:
                nums[-1] = '0.0'
    ops, changes = [], 0
    for _ in range(r.randint(10, 60)):
        o = {'t': r.below(ntab), 'op': r.weighted([(10, 'set'), (8, 'get'), (3, 'in'), (4, 'del'), (3, 'getd'),
                                                   (3, 'setd'), (1 if merging else 2, 'acc'),
                                                   (12 if merging else 1, 'append'), (2, 'save'), (2, 'load'),
                                                   (1, 'bad'), (1, 'mut')])}
        if o['op'] == 'acc':
            if changes >= 3:
                continue
            changes += 1
            o['acc'] = r.choice([3, 4, 5, 6, 8, 10, 15, 20])
            o['all'] = merging or r.chance(0.7)
        elif o['op'] == 'append':
            o['from'] = r.below(ntab)
        else:
            o['key'] = r.choice(NAMES) if r.chance(0.12) else r.choice(nums)
        if o['op'] in ('set', 'setd') and r.chance(0.12):
            o['as'] = r.choice(['int', 'dict', 'str', 'tuple', 'none', 'nested'])
        if o['op'] == 'bad':
            o['key'] = r.choice([1, 0.5, None, [1]])
        if o['op'] == 'save' and r.chance(0.5):
            o['fault'] = {'type': r.choice(FS), 'skip': r.below(12), 'lines': r.randint(1, 12), 'seed': r.below(1 << 30),
                          'partial': r.chance(0.5), 'frac': r.random()}
        elif o['op'] in ('set', 'get', 'in', 'del', 'getd', 'setd') and r.chance(0.12):
            o['fault'] = {'type': r.choice(['ki', 'mem']), 'lines': r.randint(1, 14)}
        ops.append(o)
    return {'kind': 'tables-%d' % ntab, 'seed': ctx.scn['seed'], 'dps': dps, 'accs': accs, 'ops': ops}


class Ref:
    """A map of strings, that are the digits of the numbers."""
    def __init__(self, acc):
        self.acc, self.old, self.d = acc, [], {}

    def keys(self, key):
        """The stored keys that the key may be under, the one of the current precision last."""
        if not key.startswith('N'):
            return [key[1:]]
        s = key[1:] + '0' * 60
        return [s[:2 + a] for a in self.old + [self.acc]]

    def find(self, key):
        for k in self.keys(key):
            if k in self.d:
                return k
        return None

    def set(self, key, v):
        ks = self.keys(key)
        for k in ks:
            self.d.pop(k, None)
        self.d[ks[-1]] = v

    def copy(self):
        c = Ref(self.acc)
        c.old, c.d = list(self.old), copy.deepcopy(self.d)
        return c


def as_list(v):
    return v if isinstance(v, list) else [v]


class State:
    def __init__(self, scn):
        self.refs = [Ref(a) for a in scn['accs']]
        self.files = {}                  # table -> the references that its file may be (the first, if it's certain)
        self.saved = {}                  # table -> all that its file has ever been meant to be
        self.k = 0                       # the next operation
        self.value = 0
        self.marks = set()
        self.skip = set()                # of which nothing is claimed


def run(scn, ctx):
    w = ctx.world('main', max_steps=50000)
    st = State(scn)
    while True:
        box = {}

        def fn(node):
            try:
                process(node, scn, st, ctx)
            except Violation as v:
                box['v'] = v
        n = w.spawn('process', fn)
        w.run()
        if 'v' in box:
            raise box['v']
        if n.result[0] == 'crash':
            st.marks.add('crash')
            if any(k.startswith('powerloss') for k in w.fired):
                # (a power loss may undo the last renames, but not tear a file)
                st.files = {x: list(v) for x, v in st.saved.items()}
            continue
        if not n.finished_ok():
            e = n.result[3]
            raise Violation('unexpected-failure', '%s: %s' % (type(e).__name__, str(e)[:300]))
        break
    if st.marks:
        ctx.nontrivial()
    for m in st.marks:
        ctx.count(m)


def process(node, scn, st, ctx):
    import mpmath
    import dill
    ht, utils = node.mod('decimal_hashtable'), node.mod('utils')
    mpmath.mp.dps = scn['dps']
    tabs = {}
    retired = []             # the sources of merges, which may share their lists with the targets, as they were

    def fail(cls, msg):
        o = scn['ops'][min(st.k, len(scn['ops']) - 1)]
        raise Violation(cls, 'operation %d (%s): %s' % (st.k, o, msg))

    def content(t):
        return {k: dict.__getitem__(t, k) for k in dict.keys(t)}

    def load(x):
        """-> the table, and the reference that it is."""
        name = 't%d.pkl' % x
        cands = st.files.get(x)
        if not cands:
            return ht.DecimalHashTable(scn['accs'][x]), Ref(scn['accs'][x])
        try:
            with open(name, 'rb') as f:
                t = dill.load(f)
        except FileNotFoundError:
            if None in cands:
                return ht.DecimalHashTable(scn['accs'][x]), Ref(scn['accs'][x])
            raise
        if not isinstance(t, ht.DecimalHashTable):
            fail('wrong-content', 'loading makes a %s' % type(t).__name__)
        for c in cands:
            if c is not None and content(t) == c.d and probe(t, c):
                st.files[x] = [c.copy()]
                return t, c.copy()
        fail('wrong-content', 'the loaded table has %s instead of %s' % (
            str(content(t))[:200], ' or '.join(str(c and c.d)[:200] for c in cands)))

    def probe(t, ref):
        # in the same precisions
        for s in ('0.' + '123456789' * 3, '0.' + '7' * 25):
            r2, t2 = ref.copy(), copy.deepcopy(t)
            t2[mpmath.mpf(s)] = ['p']
            r2.set('N' + s, ['p'])
            if content(t2) != r2.d:
                return False
        return True

    def key(o):
        k = o['key']
        if isinstance(k, str) and k not in NAMES:
            return mpmath.mpf(k), 'N' + k
        return k, 'S%s' % (k,)

    def fresh():
        for x in range(len(scn['accs'])):
            tabs[x], st.refs[x] = load(x)
        st.skip.clear()
    fresh()
    while st.k < len(scn['ops']):
        o = scn['ops'][st.k]
        x, op, f = o['t'], o['op'], o.get('fault')
        t, ref = tabs[x], st.refs[x]
        if x in st.skip and op != 'load':
            st.k += 1
            continue
        before = ref.copy()
        st.value += 1
        v = {'int': st.value, 'dict': {'a': st.value, 'b': [1]}, 'str': 'value %d' % st.value, 'tuple': (st.value, 2),
             'none': None, 'nested': [[st.value], {}]}.get(o.get('as'), [st.value])
        if op in ('set', 'setd', 'get', 'getd', 'in', 'del'):
            k, rk = key(o)
            found = ref.find(rk)

            def setitem():
                t[k] = copy.deepcopy(v)

            def delitem():
                del t[k]
            call = {'set': setitem, 'setd': lambda: t.setdefault(k, copy.deepcopy(v)), 'get': lambda: t[k],
                    'getd': lambda: t.get(k, copy.deepcopy(v)), 'in': lambda: k in t, 'del': delitem}[op]
            how, val = node.attempt(call, f)
            if how == 'interrupted':
                st.marks.add('interrupted')
                now = content(t)
                after = before.copy()
                if op == 'set' or op == 'setd' and found is None:
                    after.set(rk, v)
                elif op == 'del' and found is not None:
                    del after.d[found]
                ok = [before.d, after.d]
                if op in ('set', 'setd'):
                    gone = before.copy()
                    for kk in gone.keys(rk)[:-1]:
                        gone.d.pop(kk, None)
                        ok.append(dict(gone.d))
                if now not in ok:
                    fail('interrupt-damages', 'after the interrupt it has %s instead of %s' % (
                        str(now)[:200], ' or '.join(str(d)[:200] for d in ok)))
                ref.d = copy.deepcopy(now)
            elif op in ('get', 'del') and found is None:
                if how != 'exc' or not isinstance(val, KeyError):
                    fail('phantom', 'there is no such key, but: %s %r' % (how, val))
            elif how != 'ok':
                fail('unexpected-failure', '%s: %s' % (type(val).__name__, val))
            else:
                want = {'set': None, 'del': None, 'in': found is not None,
                        'get': ref.d.get(found), 'getd': ref.d.get(found, v), 'setd': ref.d.get(found, v)}[op]
                if val != want:
                    fail('wrong-value', 'it is %r instead of %r (the digits are %s)' % (val, want, ref.keys(rk)))
                if op == 'set' or op == 'setd' and found is None:
                    ref.set(rk, copy.deepcopy(v))
                elif op == 'del':
                    del ref.d[found]
        elif op == 'mut':
            # as the building of a table does
            k, rk = key(o)
            found = ref.find(rk)
            if found is not None and isinstance(ref.d[found], list):
                t[k].append(st.value)
                ref.d[found].append(st.value)
                for _, _, d in retired:
                    d.pop(found, None)
        elif op == 'bad':
            how, val = node.attempt(lambda: t.__setitem__(o['key'], v))
            if how != 'exc' or not isinstance(val, TypeError):
                fail('bad-key-taken', 'storing under %r: %s %r' % (o['key'], how, val))
        elif op == 'acc':
            for y in (tabs if o['all'] else [x]):
                if y in st.skip:
                    continue
                tabs[y].update_accuracy(o['acc'])
                st.refs[y].old.append(st.refs[y].acc)
                st.refs[y].acc = o['acc']
            st.marks.add('precision-changed')
        elif op == 'append':
            y = o['from']
            if y != x and y not in st.skip:
                r2 = st.refs[y]
                how, val = node.attempt(lambda: t.append_dict(tabs[y]), f)
                if ref.acc != r2.acc:
                    if how != 'exc' or not isinstance(val, TypeError):
                        fail('bad-merge', 'tables of the precisions %d and %d were merged' % (ref.acc, r2.acc))
                elif how != 'ok':
                    fail('unexpected-failure', 'merging: %s: %s' % (type(val).__name__, val))
                else:
                    for a in r2.old:
                        if a not in ref.old:
                            ref.old.append(a)
                    for kk, vv in r2.d.items():
                        if kk not in ref.d:
                            ref.d[kk] = copy.deepcopy(vv)
                            continue
                        both = ref.d[kk] = copy.deepcopy(as_list(ref.d[kk]) + as_list(vv))
                        got = content(t).get(kk)
                        if isinstance(got, list) and sorted(map(repr, got)) == sorted(map(repr, both)):     # (in any order)
                            ref.d[kk] = copy.deepcopy(got)
                    # (the two may share lists, hence the source goes on as a copy of itself)
                    if content(tabs[y]) != r2.d:
                        fail('source-altered', 'merging altered its source to %s' % str(content(tabs[y]))[:200])
                    retired.append((y, tabs[y], copy.deepcopy(r2.d)))
                    tabs[y] = copy.deepcopy(tabs[y])
                    st.marks.add('merged')
        elif op == 'save':
            name = 't%d.pkl' % x
            old = st.files.get(x) or [None]
            st.files[x] = [ref.copy()] + old
            st.saved.setdefault(x, [None]).append(ref.copy())
            w = node.world
            fired = sum(w.fired.values())
            if f:
                at = node.npoints + f['skip']
                node.faults.setdefault(at, []).append(dict(f, at=at))
            st.k += 1                   # (a process that crashes goes on with the next operation)
            try:
                utils.save_pickle(t, name)
                st.files[x] = [ref.copy()]
                failed = None
            except (OSError, KeyboardInterrupt, MemoryError) as e:
                failed = e
            node.disarm()
            node.faults.clear()
            st.k -= 1
            if failed is not None:
                if sum(w.fired.values()) == fired:
                    fail('unexpected-failure', 'saving: %s: %s' % (type(failed).__name__, failed))
                st.marks.add('save-failed')
        elif op == 'load':
            tabs[x], st.refs[x] = load(x)
            st.skip.discard(x)
            st.marks.add('loaded')
        for y, t, d in retired:
            if any(dict.get(t, kk) != vv for kk, vv in d.items()):
                fail('source-altered', 'table %d, that was merged to another one, is altered by an operation on that '
                     'one: %s instead of %s' % (y, str(content(t))[:200], str(d)[:200]))
        for y in tabs:
            if y in st.skip:
                continue
            if content(tabs[y]) != st.refs[y].d or len(tabs[y]) != len(st.refs[y].d) or \
                    sorted(tabs[y]) != sorted(st.refs[y].d):
                fail('wrong-content', 'table %d has %s instead of %s' % (y, str(content(tabs[y]))[:300],
                                                                        str(st.refs[y].d)[:300]))
        st.k += 1
    return None


def shrink(scn):
    for k, o in enumerate(scn['ops']):
        if 'fault' in o:
            s = copy.deepcopy(scn)
            del s['ops'][k]['fault']
            yield s
    if len(scn['accs']) > 1:
        s = copy.deepcopy(scn)
        s['accs'].pop()
        for o in s['ops']:
            o['t'] %= len(s['accs'])
            if 'from' in o:
                o['from'] %= len(s['accs'])
        yield s
