"""Decides one property: explores its specification with TLC, drives the code in
/repo, and lets TLC decide whether what the code did is what the specification
allows.

exit 0   the property held on everything explored
exit 1   VIOLATION lines were printed
exit 2   the machinery failed
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from vf import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
NPROC = 8


def known_findings(pid):
    """{key: line} of the findings that were recorded and not repaired"""
    res = {}
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        for l in f:
            if l.startswith('finding: property=%s ' % pid):
                key = l.split('key=', 1)[1].split()[0]
                res[key] = l.split('key=' + key, 1)[1].strip()
    return res


def shard(cases, n):
    """Spreads the cases by cost"""
    n = max(1, min(n, len(cases)))
    shards, load = [[] for _ in range(n)], [0] * n
    for c in sorted(cases, key=lambda c: -c.get('cost', 1)):
        k = load.index(min(load))
        shards[k].append(c)
        load[k] += c.get('cost', 1)
    for s in shards:
        s.sort(key=lambda c: c['id'])
    return shards


def record(pid, cases, scratch, name):
    """Runs the cases against the code, in processes of their own"""
    src = os.path.join(scratch, name + '.in.json')
    out = os.path.join(scratch, name + '.out.jsonl')
    work = os.path.join(scratch, name + '.cwd')
    os.mkdir(work)
    with open(src, 'w') as f:
        json.dump(cases, f)
    open(out, 'w').close()
    env = dict(os.environ)
    env['PYTHONPATH'] = ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')     # never a stale .pyc of /repo
    env['PYTHONHASHSEED'] = '0'
    env['OPENBLAS_NUM_THREADS'] = env['OMP_NUM_THREADS'] = '1'
    env['VF_SCRATCH'] = work
    recs, first, deaths = {}, 0, 0
    while first < len(cases):
        err = os.path.join(scratch, name + '.err')
        with open(err, 'w') as e:
            p = subprocess.run([sys.executable, '-m', 'vf.worker', pid, src, out, str(first)], cwd=work, env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e)
        started = -1
        with open(out) as f:
            for l in f:
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if 'start' in d:
                    started = max(started, d['start'])
                else:
                    recs[d['end']] = d['rec']
        if p.returncode == 0 and len(recs) == len(cases):
            break
        if started < 0 or started in recs:
            with open(err) as e:
                raise RuntimeError('worker failed: ' + e.read()[-2000:])
        c = cases[started]
        recs[started] = {'id': c['id'], 'k': c['k'], 'ok': False,
                         'why': 'the process died (status %s)' % p.returncode}
        first = started + 1
        deaths += 1
        if deaths > 3:
            break
    return [recs[n] for n in sorted(recs)]


class Outcome(object):
    def __init__(self):
        self.fails = {}        # case id -> [clause]
        self.known = {}        # key -> [case id]
        self.states = self.transitions = 0
        self.records = {}


def validate(prop, recs, scratch, name, outcome):
    """TLC decides whether each record is a behaviour of the specification"""
    recs = [r for r in recs if not r.get('skip')]
    for r in recs:
        outcome.records[r['id']] = r
    for r in [r for r in recs if not r['ok']]:
        outcome.fails.setdefault(r['id'], []).append('Completes: ' + r['why'])
    todo = [{k: v for k, v in r.items() if k not in ('tb', 'tags', 'show')} for r in recs if r['ok']]
    tries = 0
    while todo:
        path = os.path.join(scratch, '%s.%d.trace.json' % (name, tries))
        with open(path, 'w') as f:
            json.dump(todo, f)
        res = tlc.run(prop.SPEC, 'Trace.cfg', scratch, env={'TRACE': path}, heap=getattr(prop, 'HEAP', '2500m'))
        outcome.states += res.distinct
        outcome.transitions += res.generated
        for l in res.lines('VFFAIL|'):
            _, cid, what = l.split('|', 2)
            outcome.fails.setdefault(int(cid), []).append(what)
        for l in res.lines('VFKNOWN|'):
            _, cid, key = l.split('|', 2)
            outcome.known.setdefault(key, []).append(int(cid))
        done = res.lines('VFDONE|')
        if done and int(done[-1].split('|')[1]) == len(todo):
            return
        # The record of some case could not be evaluated: it is outside of what the specification knows of
        at = [l for l in res.out.splitlines() if l.strip().startswith(('/\\ c = ', 'c = '))]
        tries += 1
        if not at or tries > 4:
            if tries > 2:
                raise tlc.TlcFailure(prop.SPEC + ': ' + res.error())
            continue
        n = int(at[-1].split('=')[1]) - 1
        if os.environ.get('VF_DEBUG'):
            sys.stderr.write(res.out[-4000:])
        outcome.fails.setdefault(todo[n]['id'], []).append('InDomain: the observation is outside of the specification')
        todo = todo[n + 1:]


def explore(prop, tier, scratch):
    """The specification itself: every configuration of the tier, exhaustively"""
    res = []
    for m in getattr(prop, 'MC', {}).get(tier, []):
        t = time.time()
        # -coverage takes too much memory where operators nest deeply: there, the actions are those of the dumped graph
        dump = os.path.join(scratch, 'graph.dot')
        how = ['-dump', 'dot,actionlabels', dump] if 'actions' in m else ['-coverage', '1']
        r = tlc.run(m['module'], m['cfg'], scratch, workers=m.get('workers', 2), heap=m.get('heap', '3g'),
                    timeout=m.get('timeout', 700), extra=how + m.get('extra', []))
        if not r.ok:
            raise tlc.TlcFailure("%s/%s: %s" % (m["module"], m["cfg"], r.error()))
        acts = tlc.dumped_actions(dump, m['actions']) if 'actions' in m else r.actions()
        never = sorted(a for a in acts if acts[a][1] == 0)
        if never:
            raise tlc.TlcFailure('%s/%s: actions never taken: %s' % (m['module'], m['cfg'], never))
        res.append({'module': m['module'], 'cfg': m['cfg'], 'states': r.distinct, 'transitions': r.generated,
                    'actions': acts, 'wall_s': round(time.time() - t, 1)})
    return res


def trim(x, n=1500):
    s = json.dumps(x, sort_keys=True)
    return x if len(s) <= n else s[:n] + '...'


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int)
    a.add_argument('--replay')
    a.add_argument('--only', help='only cases of this kind')
    a.add_argument('--corrupt', action='store_true', help='show that the records bind: see vf/selftest.py')
    a = a.parse_args()
    pid = a.prop.upper()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    prop = importlib.import_module('vf.props.' + pid.lower())
    t0 = time.time()
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    os.chmod(scratch, 0o755)
    try:
        return decide(a, prop, pid, tier, seed, scratch, t0)
    except (tlc.TlcFailure, RuntimeError) as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, prop, pid, tier, seed, scratch, t0):
    outcome, mc = Outcome(), []
    with ThreadPoolExecutor(NPROC + 2) as pool:
        if a.replay:
            with open(a.replay) as f:
                cases = [json.load(f)['case']]
            cases[0]['id'] = 1
        else:
            mcf = pool.submit(explore, prop, tier, scratch)
            cases = list(prop.cases(tier, seed, scratch))
            for n, c in enumerate(cases):
                c['id'] = n + 1
            if a.only:
                cases = [c for c in cases if c['k'] == a.only]

        def one(n_s):
            n, s = n_s
            recs = record(pid, s, scratch, 's%d' % n)
            validate(prop, recs, scratch, 's%d' % n, outcome)
            return recs

        shards = shard(cases, getattr(prop, 'SHARDS', {}).get(tier, NPROC)) if cases else []
        list(pool.map(one, enumerate(shards)))
        if not a.replay:
            mc = mcf.result()

    findings = known_findings(pid)
    for key, ids in sorted(outcome.known.items()):
        if key not in findings:
            for i in ids:
                outcome.fails.setdefault(i, []).append(key)
    by_id = {c['id']: c for c in cases}
    violations = 0
    for cid in sorted(outcome.fails):
        violations += 1
        if violations > 8:
            continue
        path = os.path.join(EVIDENCE, 'replay', '%s-%d.json' % (pid, violations))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'clauses': outcome.fails[cid], 'case': by_id[cid],
                       'record': outcome.records.get(cid)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case %d (%s): %s' % (cid, by_id[cid]['k'], '; '.join(sorted(set(outcome.fails[cid])))[:600]))
    if violations > 8:
        print('  ... and %d more cases' % (violations - 8))
    for key, ids in sorted(outcome.known.items()):
        if key in findings:
            print('KNOWN-FINDING: property=%s %s (%d of the cases of this run)' % (pid, findings[key], len(set(ids))))

    if a.replay:
        if not violations:
            print('the case behaves as specified')
        return 1 if violations else 0

    kinds, tags = {}, {}
    for c in cases:
        kinds[c['k']] = kinds.get(c['k'], 0) + 1
    for r in outcome.records.values():
        for t in r.get('tags', []):
            tags[t] = tags.get(t, 0) + 1
    samples = []
    for k in sorted(kinds):
        c = next(c for c in cases if c['k'] == k)
        if len(samples) < 4:
            samples.append({'case': trim(c), 'record': trim(outcome.records.get(c['id'], {}))})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': outcome.states + sum(m['states'] for m in mc),
            'transitions': outcome.transitions + sum(m['transitions'] for m in mc),
            'traces_validated_against_impl': len(outcome.records),
            'samples': samples,
            'specification_runs': mc,
            'trace_states': outcome.states,
            'cases_by_kind': kinds,
            'situations_reached': tags,
            'known_findings_seen': {k: len(v) for k, v in outcome.known.items()},
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d cases, %d+%d states, %.1f s, %s' %
          (pid, tier, len(outcome.records), outcome.states, sum(m['states'] for m in mc), time.time() - t0,
           'VIOLATED' if violations else 'held'))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
