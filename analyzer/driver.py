"""Runs the specifications of one property over the current source and reports the result."""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

import extract
from interp import Crate
import session
import term as T

HERE = extract.HERE
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')
LIMIT = {'quick': 200, 'thorough': 300}
# a scenario with undecided obligations is analysed again with its sizes fixed, which can only refute
INSTANCES = [dict(LIMBS=1, N=3, K=3, n=3, cnt=3, L=4, half=1), dict(LIMBS=1, N=2, K=2, n=4, cnt=4, L=6, half=2),
             dict(LIMBS=1, N=4, K=4, n=2, cnt=2, L=3, half=3), dict(LIMBS=2, N=1, K=1, n=1, cnt=1, L=2, half=1)]
TOTAL = {'quick': 780, 'thorough': 850}
crates = {}

TRUSTED = [
    'the nightly Rust front end (name resolution, type check and THIR of the analysed crate)',
    'the abstract semantics of language constructs in analyzer/interp.py and analyzer/loops.py',
    'the axioms for external functions in analyzer/prims.py and analyzer/groth.py (arkworks field, curve, pairing, MSM, Groth16 and R1CS '
    'gadget functions behave as documented; points are in the prime-order groups; random draws are field elements)',
    'the polynomial normal form and linear arithmetic in analyzer/term.py and analyzer/facts.py',
]


def specs(prop):
    scenes, lints, meta = [], [], {}
    for f in sorted(glob.glob(os.path.join(HERE, 'analyzer', 'specs', '*.py'))):
        m = os.path.basename(f)[:-3]
        if m.startswith('_'):
            continue
        M = importlib.import_module('specs.' + m)
        scenes += getattr(M, 'SCENES', {}).get(prop, [])
        lints += getattr(M, 'LINTS', {}).get(prop, [])
        meta.update(getattr(M, 'META', {}).get(prop, {}))
    return scenes, lints, meta


def task(t):
    kind, mod, fn, args, cfg, gap, limit = t
    f = getattr(importlib.import_module(mod), fn)
    t0 = time.time()
    if kind == 'scene':
        T.set_field(gap)
        obs, an, sites, calls = session.run_scene(f, crates[cfg], args, limit)
        note = {}
        left = limit - (time.time() - t0)
        force = bool(os.environ.get('SMALL_INSTANCES'))
        if force or any(o['status'] == 'undecided' for o in obs) and not any(o['status'] == 'violated' for o in obs):
            for sz in INSTANCES:
                T.SMALL.update(sz)
                T.set_field(gap, sz['LIMBS'])
                extra = session.run_scene(f, crates[cfg], args, 45)[0]
                bad = [o for o in extra if o['status'] == 'violated']
                if force:
                    print(fn, args, sz, [(o['status'], o['obligation'], o['detail'][:300]) for o in extra if o['status'] != 'proved'][:3])
                for o in bad:
                    o['detail'] = 'with %s: %s' % (', '.join('%s = %d' % x for x in sorted(sz.items())), o['detail'])
                if bad:
                    names = {o['obligation'] for o in bad}
                    obs = [o for o in obs if not (o['status'] == 'undecided' and o['obligation'] in names)] + bad
                    break
            T.SMALL.clear()
            T.set_field(gap)
    else:
        import signal
        signal.signal(signal.SIGALRM, session._alarm)
        signal.alarm(limit)
        try:
            obs, an, sites, calls, note = f(crates, *args)
        except session.Timeout:
            obs, an, sites, calls, note = [{'obligation': '%s%r: analysable' % (fn, args), 'status': 'undecided', 'where': '', 'detail': 'time limit', 'key': fn}], [], 0, [], {}
        except (session.Stop, T.Undecided) as x:
            obs, an, sites, calls, note = [{'obligation': '%s%r: analysable' % (fn, args), 'status': 'undecided', 'where': '', 'detail': str(x), 'key': fn}], [], 0, [], {}
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            obs, an, sites, calls, note = [{'obligation': '%s%r: analysable' % (fn, args), 'status': 'undecided', 'where': '',
                                            'detail': 'internal: %r at %s:%d' % (x, tb.filename.split('/')[-1], tb.lineno), 'key': fn}], [], 0, [], {}
        finally:
            signal.alarm(0)
    return t, obs, an, sites, calls, note, time.time() - t0


def known():
    """committed findings: `finding: property=<id> key=<obligation key> || <what fails>`"""
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(.*?) \|\| (.*)$', l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main(prop):
    t0 = time.time()
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scenes, lints, meta = specs(prop)
    if not scenes and not lints:
        print('no specification for', prop)
        return 2
    for cfg in extract.CONFIGS:
        try:
            crates[cfg] = Crate(extract.load(cfg))
        except extract.NotBuilt as x:
            if cfg == 'default':
                print(x)
                return 2
            print('only the default build is analysed:', str(x)[-1500:])
    tasks = []
    for fn, args in lints:
        for a in args:
            tasks.append(('lint', fn.__module__, fn.__name__, tuple(a), None, 1, LIMIT[tier]))
    gaps = (1,) if tier == 'quick' else (0, 1, 2, 3)
    for cfg in crates:
        for gap in gaps:
            for fn, args in scenes:
                for a in args:
                    tasks.append(('scene', fn.__module__, fn.__name__, tuple(a), cfg, gap, LIMIT[tier]))
    results = []
    ctx = mp.get_context('fork')
    n = min(len(os.sched_getaffinity(0)), 8, len(tasks))
    pool = ctx.Pool(n, maxtasksperchild=1)
    late = 0
    total = TOTAL[tier]
    kn = {k for p, k, _ in known() if p == prop}
    try:
        it = pool.imap_unordered(task, tasks)
        for _ in tasks:
            left = total - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(left, 0.1)))
                if any(o['status'] == 'violated' and o['key'] not in kn for o in results[-1][1]):
                    # a violation is established: the remaining scenarios only add detail
                    total = min(total, time.time() - t0 + 60)
            except mp.TimeoutError:
                late = len(tasks) - len(results)
                break
    finally:
        pool.terminate()
        pool.join()
    return report(prop, tier, seed, meta, tasks, results, late, t0)


def label(t):
    return '%s%r%s' % (t[2], t[3], '' if t[4] is None else ' [%s, field of 64*LIMBS-%d bits]' % (t[4], t[5]))


def report(prop, tier, seed, meta, tasks, results, late, t0):
    obs, fns, calls = [], set(), 0
    sites = 0
    notes = {}
    slow = []
    for t, ob, an, st, cl, note, dt in results:
        for o in ob:
            o['scene'] = label(t)
        obs += ob
        fns |= set(an)
        sites += st
        calls += len(cl)
        for k, v in note.items():
            notes.setdefault(k, []).append(v)
        slow.append((round(dt, 2), label(t)))
    for i in range(late):
        obs.append({'obligation': 'scene not reached in time', 'status': 'undecided', 'where': '', 'detail': '', 'key': '', 'scene': ''})
    kn = [(p, k, txt) for p, k, txt in known() if p == prop]
    viol, found = [], {}
    for o in obs:
        if o['status'] != 'violated':
            continue
        hit = [k for p, k, txt in kn if k == o['key']]
        if hit:
            o['status'] = 'known finding'
            found[hit[0]] = o
        else:
            viol.append(o)
    und = [o for o in obs if o['status'] == 'undecided']
    good = [o for o in obs if o['status'] == 'proved']
    os.makedirs(EVID, exist_ok=True)
    level = meta.get('level', 'proof')
    cov = {
        'obligations': len(obs), 'discharged': len(good), 'undecided': len(und), 'known_findings': len(found),
        'distinct_obligations': len({o['obligation'] for o in obs}),
        'checker_cmd': 'VERIF_TIER=%s %s/check %s' % (tier, HERE, prop),
        'trusted_base': TRUSTED if level == 'proof' else TRUSTED[:2],
        'scenarios': len(tasks), 'feature_configurations': sorted(crates),
        'functions_analysed': sorted(fns), 'call_sites_interpreted': sites, 'entry_point_calls': calls,
        'undecided_list': [{k: o[k] for k in ('obligation', 'where', 'detail', 'scene')} for o in und][:40],
        'samples': sample(good), 'slowest': sorted(slow, reverse=True)[:5],
    }
    if level != 'proof':
        cov['explanation'] = meta.get('explanation', '')
    cov.update({k: v if len(v) > 1 else v[0] for k, v in notes.items()})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, o in sorted(found.items()):
        txt = [x for p, kk, x in kn if kk == k][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    print('%s: %d obligations over %d scenarios, %d discharged, %d undecided, %d refuted (%.1f s)' %
          (prop, len(obs), len(tasks), len(good), len(und), len(viol), time.time() - t0))
    for o in und[:12]:
        print('  undecided: %s | %s | %s' % (o['obligation'], o['where'], o['detail'][:300]))
    if viol:
        rp = os.path.join(EVID, 'replay-%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'violations': viol}, f, indent=1)
        seen = set()
        for o in viol:
            if o['obligation'] in seen:
                continue
            seen.add(o['obligation'])
            if len(seen) <= 10:
                print('  refuted: %s | %s | %s' % (o['obligation'], o['where'], o['detail'][:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def sample(good):
    out, seen = [], set()
    for o in good:
        if o['obligation'] not in seen:
            seen.add(o['obligation'])
            out.append('%s | %s' % (o['obligation'], o['where']))
    step = max(1, len(out) // 12)
    return out[::step][:12]
