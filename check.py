#!/usr/bin/env python3
"""python3 check.py <property id>  -- decide one property on /repo's current source."""
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)
threading.stack_size(512 * 1024 * 1024)

from engine.interp import Program            # noqa: E402
from engine.objects import Undecided, PyExc  # noqa: E402
from engine import interp, oblig, terms                      # noqa: E402
from rules import common                      # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')


def load_program(pid):
    P = Program([REPO, REPO + '/lib/python-bitcoinlib', REPO + '/lib/python-proofmarshal', HERE + '/specs'],
                {'sus_tool': REPO + '/sus-tool.py'})
    common.prepare(P)
    specs = []
    if os.path.exists('%s/specs/spec_%s.py' % (HERE, pid.lower())):
        specs.append('spec_' + pid.lower())
    specs += getattr(importlib.import_module('rules.' + pid.lower()), 'SPECS', [])
    rule = importlib.import_module('rules.' + pid.lower())
    if hasattr(rule, 'prepare'):
        rule.prepare(P)
    P.load(getattr(rule, 'FIRST', []) + common.MODULES + specs)
    for x in P.problems:
        if 'spec' in str(x).split(':')[0]:
            raise RuntimeError('reference description: %s' % (x,))
    common.finish(P)
    return P


def run_one(ob, P, tier):
    terms.reset()
    try:
        return ob.run(P, tier)
    except oblig.AnchorMissing as e:
        r = oblig.Result(ob.name)
        r.broken = 'anchor %s is gone' % e
        return r
    except Exception:
        r = oblig.Result(ob.name)
        r.broken = 'internal error: ' + traceback.format_exc()
        return r


_state = {}


def worker(i):
    found, t0 = _state['found'], _state['t0']
    if found.value >= 5 and time.monotonic() - t0 > 90:
        r = oblig.Result(_state['obs'][i].name)
        r.skipped = True                 # the verdict is settled
        return r
    if time.monotonic() > interp.DEADLINE[0]:
        r = oblig.Result(_state['obs'][i].name)
        r.undecided.append('time limit of the whole check')
        return r
    r = _in_thread(lambda: run_one(_state['obs'][i], _state['P'], _state['tier']))
    if r.violations:
        with found.get_lock():
            found.value += 1
    return r


def _in_thread(fn):
    out = []
    t = threading.Thread(target=lambda: out.append(fn()))
    t.start()
    t.join()
    return out[0]


def known_findings():
    out = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = {}
                rest = line[len('finding:'):].strip()
                head, _, text = rest.partition(' :: ')
                for w in head.split():
                    k, _, v = w.partition('=')
                    d[k] = v
                d['text'] = text
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    verbose = '-v' in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith('-k')]
    t0 = time.monotonic()
    try:
        P = load_program(pid)
        P.thorough = tier == 'thorough'
        mod = importlib.import_module('rules.' + pid.lower())
        obs = list(mod.obligations(P))
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: the program could not be loaded' % pid)
        return 2
    if only:
        obs = [o for o in obs if any(k in o.name for k in only)]
    terms.snapshot()
    _state.update(P=P, obs=obs, tier=tier)
    if len(obs) > 1 and not os.environ.get('VERIF_SERIAL'):
        ctx = multiprocessing.get_context('fork')
        _state.update(found=ctx.Value('i', 0), t0=t0)
        interp.DEADLINE[0] = t0 + (600 if tier == 'quick' else 780)
        with ctx.Pool(min(8, len(obs))) as pool:
            results = pool.map(worker, range(len(obs)), chunksize=1)
    else:
        results = [run_one(o, P, tier) for o in obs]
    return report(pid, tier, P, obs, results, time.monotonic() - t0, verbose)


def report(pid, tier, P, obs, results, wall, verbose):
    findings = [f for f in known_findings() if f.get('property') == pid]
    viol, known, und, broken, empty = [], [], [], [], []
    if any(getattr(r, 'skipped', False) for r in results):
        print('%d obligations were not looked at after the first violations' % sum(1 for r in results if getattr(r, 'skipped', False)))
        results = [r for r in results if not getattr(r, 'skipped', False)]
    for r in results:
        if r.broken:
            broken.append('%s: %s' % (r.name, r.broken))
            continue
        for v in r.violations:
            k = next((f for f in findings if f.get('rule') == rule_key(v)), None)
            (known if k else viol).append((k, v))
        for u in r.undecided:
            und.append('%s: %s' % (r.name, u))
        if r.status == 'empty':
            empty.append(r.name)
        if verbose:
            if getattr(r, 'cutmsg', None) and not r.agree:
                print('   cut:', r.cutmsg)
            print('%-60s %-9s paths=%d agree=%d cut=%d %.1fs %s' % (
                r.name[:60], r.status, r.paths, r.agree, r.cut, r.wall, dict(r.outcomes)))
    for f in findings:
        if any(k is f for k, _ in known):
            print('KNOWN-FINDING: property=%s %s' % (pid, f['text']))
    seen = set()
    for u in und:
        if u not in seen:
            print('UNDECIDED property=%s %s' % (pid, u))
        seen.add(u)
    for e in empty:
        print('UNDECIDED property=%s %s: no complete path was analysed' % (pid, e))
    for b in broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
    held = sum(1 for r in results if not r.broken and r.status == 'held')
    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the source under %s (never executed): %s. Each obligation names a '
                           'construct of the repository; "guarded outcomes" counts the cells of the partition the '
                           'abstract interpreter compared with the reference, "cut" the cells beyond the sequence bound.'
                           % (REPO, getattr(sys.modules['rules.' + pid.lower()], 'METHOD', '')),
            'obligations': len(results), 'discharged': held,
            'undecided': sorted(seen)[:40] + empty,
            'guarded_outcomes': sum(r.paths for r in results),
            'cut_outcomes': sum(r.cut for r in results),
            'rule_instances': sum(r.count for r in results),
            'modules': sorted(m for m in P.files if not m.startswith('spec_')),
            'lines_reached': sum(len(r.lines) for r in results),
            'rules': rule_table(results),
            'samples': [s for r in results for s in r.samples[:1]][:12] or ['-'],
        },
        'assumptions': common.ASSUMPTIONS + list(getattr(sys.modules['rules.' + pid.lower()], 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    if viol:
        path = HERE + '/evidence/%s.violations.json' % pid
        with open(path, 'w') as fd:
            json.dump([v for _, v in viol], fd, indent=1)
        ev['coverage']['violating'] = [v for _, v in viol][:5]
        for _, v in viol[:8]:
            print('%s: [%s] %s' % (v['at'], v['rule'], v['what']))
            for c in v['path'][:12]:
                print('      when %s' % c)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    with open(HERE + '/evidence/%s.json' % pid, 'w') as fd:
        json.dump(ev, fd, indent=1)
    print('%s: %d obligations, %d held, %d undecided, %d violations (%.1fs)' % (
        pid, len(results), held, len(seen) + len(empty), len(viol), wall))
    if viol:
        return 1
    if broken or not results or held == 0:
        return 2
    return 0


def rule_table(results):
    def row(r):
        return {'rule': r.name, 'construct': r.site, 'status': r.status if not r.broken else 'broken', 'guarded_outcomes': r.paths,
                'agree': r.agree, 'instances': r.count, 'wall_s': round(r.wall, 2)}
    if len(results) <= 400:
        return [row(r) for r in results]
    rows = {}
    for r in results:
        w = row(r)
        k = (w['construct'], w['status'])
        if k not in rows:
            rows[k] = dict(w, obligations=1)
        else:
            o = rows[k]
            o['obligations'] += 1
            for f in ('guarded_outcomes', 'agree', 'instances', 'wall_s'):
                o[f] = round(o[f] + w[f], 2)
    return list(rows.values())[:400]


def rule_key(v):
    return (v['rule'] + '@' + v.get('key', '')).rstrip('@').replace(' ', '_')


if __name__ == '__main__':
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
