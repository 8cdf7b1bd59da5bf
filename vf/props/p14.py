"""P14: stored solutions come back, whole or not at all."""
import os
import random

from vf import prog
from vf.util import s32, num

SPEC = 'SolutionTrace'
MC = {'quick': [{'module': 'SolutionFileMC', 'cfg': 'SolutionFileMC_q.cfg'}],
      'thorough': [{'module': 'SolutionFileMC', 'cfg': 'SolutionFileMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Addresses and encodings are 32-bit words']


def cases(tier, seed, scratch):
    r = random.Random('P14 %d' % seed)
    encs = prog.encodings('qsort_small')
    for i in range(200 if tier == 'quick' else 2500):
        n = i if i < 4 else r.randint(1, 14)
        addrs, a = [], r.choice([0, 0x8000, 0x10148, 0xfffff000 - 4 * 600, r.randrange(0, 0xf0000000, 4)])
        if i in (100, 101):
            n = r.choice([257, 300])
        odd = r.random() < .1      # as those of other instruction sets
        for _ in range(n):
            addrs.append(a)
            a += r.choice([4, 4, 4, 4 * r.randint(1, 30)]) if not odd else r.choice([1, 2, 4, r.randint(1, 100)])
        words, orig = [], []
        for _ in range(n):
            o = r.choice(encs) if r.random() < .7 else r.getrandbits(32)
            m = r.choice([1, 1, 2, 3, r.randint(1, 12)]) if i not in (102, 103, 104) else r.choice([1, 260, 300])
            cs = [o ^ r.choice([1 << r.randrange(32), r.getrandbits(32)]) for _ in range(m - 1)]
            cs = [x for x in cs if x != o]
            cs.insert(r.randint(0, len(cs)), o)
            words.append(cs)
            orig.append(o)
        k = 'solution'
        if n and r.random() < .2:
            k = 'without the original'
            j = r.randrange(n)
            words[j] = [x for x in words[j] if x != orig[j]]
            if words[j] and r.random() < .4:
                words[j] = [x ^ 0x10 for x in words[j] if x ^ 0x10 != orig[j]]
        elif n and r.random() < .2:
            j = r.randrange(n)
            words[j] = words[j] + [orig[j]]       # the original twice
        yield {'k': k, 'addrs': addrs, 'words': words, 'orig': orig, 'aslist': r.random() < .5,
               'shuffle': r.random() < .3, 'old': r.random() < .3, 'seed': r.getrandbits(20), 'cost': 5 + sum(map(len, words))}


def observe(c):
    from semantic_codec.solution.solution_io import SolutionReader, SolutionWriter
    path = os.path.join(os.environ['VF_SCRATCH'], 'solution.sol')
    r = random.Random(c['seed'])
    program = prog.build(c['words'], c['addrs'])
    if c['shuffle']:
        keys = list(program)
        r.shuffle(keys)
        program = {k: program[k] for k in keys}
    orig = [prog.caps(e, a) for e, a in zip(c['orig'], c['addrs'])]
    if not c['aslist']:
        orig = {i.address: [i] for i in orig}
    if os.path.exists(path):
        os.remove(path)
    if c['old']:
        with open(path, 'wb') as f:
            f.write(b'\x5a' * 5000)
    rec = {'j': 'solution', 'addrs': [s32(a) for a in sorted(c['addrs'])],
           'cands': [[s32(e) for e in w] for w in c['words']], 'orig': [s32(e) for e in c['orig']],
           'refused': False, 'failed': False, 'read': [], 'readAddrs': [], 'readOrig': [], 'readOrigAddrs': [],
           'where': True, 'cutRead': [], 'otherRead': []}
    try:
        SolutionWriter().write_binary(path, orig, program)
    except Exception:
        rec['refused'] = True
    data = b''
    if os.path.exists(path):
        with open(path, 'rb') as f:
            data = f.read()
    try:
        o, p = SolutionReader().read(path)
        a, rec['read'], w = prog.dump(p)
        ao, rec['readOrig'], wo = prog.dump(o)
        rec['readAddrs'], rec['readOrigAddrs'] = [s32(x) for x in a], [s32(x) for x in ao]
        rec['where'] = all(w) and all(wo)
    except Exception:
        rec['failed'] = True

    def readable(content):
        with open(path, 'wb') as f:
            f.write(content)
        try:
            SolutionReader().read(path)
            return True
        except Exception:
            return False

    if not rec['refused']:
        n = len(data)
        cuts = range(n) if n < 60 else sorted(set(list(range(30)) + list(range(n - 24, n)) + [r.randrange(n) for _ in range(20)]))
        rec['cutRead'] = [readable(data[:k]) for k in cuts]
        # something else is not a solution: the first bytes say so
        for k in range(8):
            rec['otherRead'].append(readable(data[:k] + bytes([data[k] ^ (1 << r.randrange(8))]) + data[k + 1:]))
        rec['otherRead'].append(readable(b''))
        rec['otherRead'].append(readable(bytes(n)))
    return rec
