"""Each search saves its results to a directory of its own, and earlier results are never touched."""
import copy
import os
import re

from checks.c05 import ref_config
from sim import core, ini, sessions as S
from sim import gen as G
from sim.harness import Violation

PID = 'C08'
LEVEL = 'exploration'
TECH = ('seeded search over interleavings of concurrent searches with clock jumps and crashes; ownership and '
        'completeness of each results directory')
NOTE = ('Sampled: 2-5 real sessions, preempted at their operations.')
COUNT = {'quick': 300, 'thorough': 6000}
RULE = ('2-5 searches in groups that run one after the other or concurrently (a scheduler decides at every operation who '
        'runs), within one simulated minute or over several; the clock may jump back or ahead in the middle of a '
        'session, directories of the minutes to come may be there already, and a part of the sessions crashes, is '
        'interrupted or has a disk error. After each group every new directory is attributed to its session and '
        'verified. Non-trivial: two sessions finished in the same minute, or a directory of the minute was there.')
FAULTS = [(5, 'crash'), (2, 'ki'), (2, 'eio'), (2, 'enospc'), (1, 'powerloss'), (1, 'texfail'), (1, 'eacces')]


def gen(r, ctx, i):
    scn = {'kind': 'sequence', 'seed': ctx.scn['seed'], 'groups': [], 'there': []}
    n = 0
    first = G.search_cfg(r, gen_hashtable_only=False)
    for g in range(r.weighted([(3, 1), (4, 2), (2, 3)])):
        group = {'sessions': [], 'preempt': 0.0, 'settle': r.chance(0.15)}
        for k in range(r.weighted([(3, 1), (3, 2), (1, 3)])):
            c = copy.deepcopy(first) if r.chance(0.4) else G.search_cfg(r, gen_hashtable_only=False)
            c['hashtable_file'] = 't%d.pkl' % n
            o = {'cfg': c, 'faults': []}
            if r.chance(0.3):
                o['faults'].append({'at': r.loguniform(1, 1000), 'type': 'jump',
                                    'by': r.choice([-90, -3600, -86400, 30, 61, 3600, 86400 * 31, -20, -60])})
            if r.chance(0.15):
                o['faults'].append({'at': r.loguniform(1, 1000), 'type': 'stall', 'by': r.choice([5, 61, 600])})
            if r.chance(0.25):
                o['bad'] = r.weighted(FAULTS)
                o['late'] = r.chance(0.7)
                o['off'] = r.random()
            group['sessions'].append(o)
            n += 1
        if len(group['sessions']) > 1:
            group['preempt'] = r.choice([0.02, 0.1, 0.5])
        scn['groups'].append(group)
    for k in range(-1, 5):
        if r.chance(0.25):
            scn['there'].append([k, r.weighted([(4, ''), (3, '_2'), (1, '_3'), (1, '_10')]),
                                 r.weighted([(3, 'dir'), (2, 'full'), (1, 'file')])])
    # faults are placed by the operations of the session itself
    for gi, group in enumerate(scn['groups']):
        for o in group['sessions']:
            if not o.get('bad'):
                continue
            w = ctx.world('baseline', like='main', record_points=True, scn={'seed': scn['seed'], 'schedules': {}})
            w.write_file('c.ini', ini.text(o['cfg']))
            s = S.session(w, 's', 'c.ini')
            w.run()
            S.must_finish(s, 'a search')
            pts = s.points
            late = [k for k, (x, d) in enumerate(pts) if 'results' in d and x not in ('print', 'tick')]
            at = late[int(o['off'] * len(late))] if o.pop('late') and late else int(o['off'] * len(pts))
            f = {'at': at, 'type': o.pop('bad')}
            o.pop('off')
            if f['type'] in ('eio', 'enospc', 'crash'):
                f['partial'] = r.chance(0.4)
                f['frac'] = r.random()
            if f['type'] == 'ki':
                f['lines'] = r.loguniform(1, 300)
            if f['type'] == 'texfail':
                ex = [k for k, (x, d) in enumerate(pts) if x == 'exec']
                f['at'] = ex[0] if ex else at
            o['faults'].append(f)
            ctx.drop(w)
    return scn


def minute(t):
    return core.real_time['strftime']('%d%m%y_%H%M', core.real_time['localtime'](t))


def check_config(res, cfg):
    c = ref_config(res.config or '[Setup]\n')
    for key in ('const', 'lhs_type', 'hashtable_precision', 'third_filtering_precision'):
        if c.get(key) != str(cfg[key]):
            raise Violation('mixed-results', 'the config in %s says %s=%s, but its session had %s' % (
                res.dir, key, c.get(key), cfg[key]))
    for key in ('a_coeffs_range', 'b_coeffs_range', 'lhs_params'):
        import json
        try:
            v = json.loads(c.get(key))
        except (TypeError, ValueError) as e:
            v = repr(c.get(key))
        if v != json.loads(json.dumps(cfg[key])):
            raise Violation('mixed-results', 'the config in %s says %s=%s, but its session had %s' % (
                res.dir, key, c.get(key), cfg[key]))


def run(scn, ctx):
    w = ctx.world('main')
    there = []
    for k, suffix, how in scn['there']:
        p = os.path.join('results', minute(w.wall + 60 * k) + suffix)
        if how == 'file':
            if not os.path.exists(os.path.join(w.root, p)):
                w.write_file(p, 'not a directory')
        elif not os.path.isfile(os.path.join(w.root, p)):
            os.makedirs(os.path.join(w.root, p), exist_ok=True)
            if how == 'full':
                w.write_file(os.path.join(p, 'results.csv'), 'the results of an earlier search')
                w.write_file(os.path.join(p, 'config.ini'), 'its config')
        there.append(p)
    w.settle()
    w.wall -= 120
    verified = {}
    minutes = set()
    idx = 0
    for group in scn['groups']:
        before = w.snapshot()
        dirs_before = set(list_dirs(w))
        nodes = []
        for o in group['sessions']:
            w.write_file('c%d.ini' % idx, ini.text(o['cfg']))
            nodes.append((S.session(w, 's%d' % idx, 'c%d.ini' % idx, o['faults']), o))
            idx += 1
        fired0 = dict(w.fired)
        w.preempt = group['preempt']
        w.run()
        w.preempt = 0.0
        fired = sorted(f for f in w.fired if w.fired[f] != fired0.get(f))
        power = any(f.startswith('powerloss') for f in fired)
        jumped = any(f.startswith('clockjump') or f == 'stall' for f in fired)
        if group['settle'] and not power:
            w.settle()
        after = w.snapshot()
        for p, b in before.items():
            if p.endswith('.ini') and '/' not in p:
                continue
            if after.get(p) != b and not (power and p not in after and not p.startswith('results')):
                if power:
                    # (what was written just before the power went off may be lost)
                    continue
                raise Violation('touched', '%s, which was there before, is %s by a later session (%s)' % (
                    p, 'removed' if p not in after else 'changed', fired))
        new = dict(S.new_results(before, after))
        newdirs = [d for d in list_dirs(w) if d not in dirs_before and d != 'results']
        if len([d for d in newdirs if d.count('/') == 1]) > len(nodes):
            raise Violation('wrong-results-dirs', '%d sessions create %s' % (len(nodes), newdirs))
        taken = {}
        for n, o in nodes:
            bad = [f for f in o['faults'] if f['type'] not in ('jump', 'stall')]
            if not bad and not power:
                S.must_finish(n, 'a search')
            if not n.finished_ok() or power:
                continue
            d = S.reported_results(n)
            if d is None:
                raise Violation('no-results', 'a search finishes without saving its results')
            if d in taken:
                raise Violation('mixed-results', 'two sessions say that they saved their results to %s' % d)
            taken[d] = n
            if d in dirs_before or d not in new:
                raise Violation('mixed-results', 'the results were saved to %s, which %s' % (
                    d, 'was there before' if d in dirs_before else 'is not there'))
            missing = {'results.csv', 'results.tex', 'results.pdf', 'config.ini'} - set(new[d])
            if missing:
                raise Violation('missing-files', 'a session that finished did not save %s' % sorted(missing))
            res = S.load_results(new[d], d)
            S.verify_export(res, o['cfg'])
            check_config(res, o['cfg'])
            m = re.match(r'\d{6}_\d{4}', os.path.basename(d))
            if not jumped:
                ok = {minute(t) for t in range(int(n.started_at) - 1, int(n.ended_at) + 2)}
                if m is None or m.group(0) not in ok:
                    raise Violation('wrong-results-dirs', 'the results of a search of %s are saved to %s' % (
                        sorted(ok), d))
            if m is not None:
                if m.group(0) in minutes or os.path.join('results', m.group(0)) in there:
                    ctx.nontrivial()
                    ctx.count('collisions')
                minutes.add(m.group(0))
            verified[d] = True
            ctx.count('results', len(res.rows))
        # what isn't of a finished session belongs to one that failed
        for d in new:
            if d not in taken and not fired:
                raise Violation('wrong-results-dirs', 'a directory that is of no session: %s' % d)


def list_dirs(w):
    res = []
    for d, dirs, files in os.walk(os.path.join(w.root, 'results')):
        dirs.sort()
        res.append(os.path.relpath(d, w.root))
    return res


def shrink(scn):
    for g in range(len(scn['groups'])):
        if len(scn['groups']) > 1:
            s = copy.deepcopy(scn)
            del s['groups'][g]
            yield s
        for k in range(len(scn['groups'][g]['sessions'])):
            if len(scn['groups'][g]['sessions']) > 1:
                s = copy.deepcopy(scn)
                del s['groups'][g]['sessions'][k]
                yield s
            for j in range(len(scn['groups'][g]['sessions'][k]['faults'])):
                s = copy.deepcopy(scn)
                del s['groups'][g]['sessions'][k]['faults'][j]
                yield s
    for k in range(len(scn['there'])):
        s = copy.deepcopy(scn)
        del s['there'][k]
        yield s
