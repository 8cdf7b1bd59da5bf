"""Runs a shard of cases against the code in /repo and records what it did.

usage: python -m vf.worker PROP SHARD.json OUT.jsonl FIRST
One line is written per case as soon as it ends, so that the parent knows which
case took the process down if one does.
"""
import importlib
import json
import os
import resource
import signal
import sys
import traceback

CPU_S = 60          # processor seconds one case may take before it counts as not returning


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def main():
    prop_id, shard, out, first = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    repo = os.environ.get('VF_REPO', '/repo')
    sys.path.insert(0, repo)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGVTALRM, _alarm)
    prop = importlib.import_module('vf.props.' + prop_id.lower())
    with open(shard) as f:
        cases = json.load(f)
    # what the code under test prints is of no interest
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    hung = 0
    with open(out, 'a') as o:
        for n in range(first, len(cases)):
            c = cases[n]
            o.write(json.dumps({'start': n}) + '\n')
            o.flush()
            rec = {'id': c['id'], 'k': c['k'], 'ok': True, 'why': ''}
            if hung >= 2:
                rec = {'id': c['id'], 'k': c['k'], 'skip': True}
                o.write(json.dumps({'end': n, 'rec': rec}) + '\n')
                continue
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S)
            try:
                obs = prop.observe(c)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                rec.update(obs)
                line = json.dumps({'end': n, 'rec': rec})
            except CaseTimeout:
                hung += 1
                rec.update(ok=False, why='did not return within %d s of processor time' % CPU_S)
                line = json.dumps({'end': n, 'rec': rec})
            except BaseException as e:            # the verdict is TLC's: record, do not judge
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                rec = {'id': c['id'], 'k': c['k'], 'ok': False,
                       'why': ('%s: %s' % (type(e).__name__, e))[:200].encode('ascii', 'replace').decode(),
                       'tb': traceback.format_exc()[-1500:].encode('ascii', 'replace').decode()}
                line = json.dumps({'end': n, 'rec': rec})
            o.write(line + '\n')
            o.flush()


if __name__ == '__main__':
    main()
