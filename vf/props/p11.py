"""P11: the forward enumeration keeps the original and numbers it. P12 shares the driver."""
import random

from vf import prog
from vf.util import s32, num

SPEC = 'ForwardTrace'
MC = {'quick': [{'module': 'ForwardMC', 'cfg': 'ForwardMC_q.cfg'}, {'module': 'ForwardMC', 'cfg': 'ForwardMC_a.cfg'}],
      'thorough': [{'module': 'ForwardMC', 'cfg': 'ForwardMC_t.cfg', 'workers': 4}, {'module': 'ForwardMC', 'cfg': 'ForwardMC_a.cfg'}]}
ASSUMPTIONS = ['Every address of the program is one of the original, whose instruction is among the candidates', 'The candidates of an address are different words']
MODS = [9973, 10007, 16381, 19997, 29989, 32749]


def alias(r, o):
    """Another word that reads as the instruction, if it has fields that do not matter, or one of the same kind"""
    kind, op = o >> 25 & 7, o >> 21 & 15
    if kind in (0, 1) and 8 <= op <= 11:
        return o & 0xffff0fff | r.getrandbits(4) << 12
    if kind in (0, 1) and op in (13, 15):
        return o & 0xfff0ffff | r.getrandbits(4) << 16
    return o ^ (1 << 23 if kind == 2 and r.random() < .5 else 1 << r.randrange(12))


def near(r, o, pool):
    """A candidate that is not unlike the original, or one of the others"""
    k = r.random()
    if k < .2:
        return alias(r, o)
    if k < .5:
        x = o
        for _ in range(r.randint(1, 3)):
            x ^= 1 << r.randrange(32)
        return x
    if k < .85:
        return r.choice(pool)
    return o ^ (r.getrandbits(4) << 28)


def program(r, encs, n, top, empties=True):
    pool = [r.choice(encs) for _ in range(max(2, n // 2))] if r.random() < .6 else encs
    dull = [x for x in r.sample(encs, 20) if alias(r, x) >> 12 != x >> 12] if r.random() < .4 else []
    words, orig = [], []
    for _ in range(n):
        o = r.choice(pool) if r.random() < .95 else r.getrandbits(32)
        if dull and r.random() < .5:
            o = r.choice(dull)
        m = r.choice([1, 1, 2, 2, 3, 4, r.randint(1, top)])
        cs = [o]
        for _ in range(m - 1):
            x = near(r, o, pool)
            if x not in cs:
                cs.append(x)
        r.shuffle(cs)
        if empties and r.random() < .04:
            cs = []
        words.append(cs)
        orig.append(o)
    return words, orig


def alike(r, n, top):
    """A program whose candidates differ in an offset only, so that few are dropped: the numbers are large"""
    base = r.choice([0xe51b3000, 0xe50b3000, 0xe59d2000, 0xe2833000, 0xe3a03000])
    words, orig = [], []
    for _ in range(n):
        m = r.randint(2, top)
        cs = [base + x for x in r.sample(range(0, 255 if base >> 24 in (0xe2, 0xe3) else 4095), m)]
        words.append(cs)
        orig.append(cs[-1] if r.random() < .7 else r.choice(cs))
    return words, orig


def many(r):
    """A program with an address of more candidates than a byte counts"""
    n = r.randint(1, 3)
    words, orig = [], []
    for _ in range(n):
        m = r.choice([2, 3, 255, 256, 257, 258, 300, 511, 513, 700])
        cs = [0xe51b3000 + x for x in r.sample(range(4095), m)]
        words.append(cs)
        orig.append(cs[r.choice([-1, -1, -2, 0, m // 2, r.randrange(m), min(m - 1, 256)])])
    return words, orig


def cases(tier, seed, scratch, stream=False):
    r = random.Random('P11 %d %s' % (seed, stream))
    encs = prog.encodings('dijkstra_small') + prog.encodings('crc32')
    for k in range(30 if tier == 'quick' else 300):
        words, orig = many(r) if (stream and k % 2) or k % 10 == 5 else alike(r, r.randint(10, 40) if k % 15 else r.randint(55, 65), 7 if k % 10 else 3)
        if k % 10 in (3, 8):
            n = r.randint(2, 4)
            words, orig = program(r, encs, n, 4, empties=False)
            at, m = r.randrange(n), r.choice([41, 65, 90, 130, 260])
            cs = [orig[at]]
            while len(cs) < m:
                x = r.choice([near(r, orig[at], encs), r.choice(encs), orig[at] ^ r.getrandbits(12)])
                if x not in cs:
                    cs.append(x)
            r.shuffle(cs)
            words[at] = cs
        n = len(words)
        yield {'k': 'stream' if stream else 'enumeration', 'words': words, 'orig': orig,
               'addrs': list(range(0x8000, 0x8000 + 4 * n, 4)),
               'shuffle': r.random() < .4, 'seed': r.getrandbits(20), 'cost': 4 + n * sum(map(len, words)) // 4}
    for k in range(300 if tier == 'quick' else 3000):
        n = r.choice([1, 2, 3, r.randint(2, 8), r.randint(4, 14)]) if k % 15 else r.randint(15, 45)
        words, orig = program(r, encs, n, (20 if stream else 8) if n < 15 else 3)
        addrs = list(range(0x8000, 0x8000 + 4 * n, 4))
        yield {'k': 'stream' if stream else 'enumeration', 'words': words, 'orig': orig, 'addrs': addrs,
               'shuffle': r.random() < .4, 'seed': r.getrandbits(20), 'cost': 4 + n * sum(map(len, words))}


def view(i, names):
    """The words are given numbers, as they come"""
    n = names.setdefault(i.encoding, len(names) + 1)
    if i.ignore:
        return {'cond': -1, 'op': -1, 'regs': [], 'stor': [], 'undef': True, 'word': n}
    return {'cond': num(i.conditional_field), 'op': num(i.opcode_field), 'regs': [num(x) for x in i.registers_used()],
            'stor': [num(x) for x in i.storages_used()], 'undef': False, 'word': n}


def setup(c):
    """The program as the code sees it and as the specification does"""
    names = {}
    program = {}
    addrs = list(c['addrs'])
    rows = list(zip(addrs, c['words'], c['orig']))
    if c['shuffle']:
        random.Random(c['seed']).shuffle(rows)
    recp, reco = [], []
    for a, ws, o in rows:
        oi = prog.caps(o, a)
        ov = view(oi, names)
        cs, seen = [], set()
        for w in ws:
            i = prog.caps(w, a)
            v = view(i, names)
            if v['word'] in seen:
                continue
            seen.add(v['word'])
            cs.append((i, v))
        program[a] = [i for i, _ in cs]
        recp.append([v for _, v in cs])
        reco.append(ov)
    orig = [prog.caps(o, a) for a, o in zip(addrs, c['orig'])]
    return program, orig, recp, reco, names, [a for a, _, _ in rows]


def observe(c):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator, \
        ForwardConstraintSolutionBuilder
    program, orig, recp, reco, names, order = setup(c)
    rec = {'j': c['k'], 'program': recp, 'orig': reco}
    if c['k'] == 'enumeration':
        b = ForwardConstraintSolutionEnumerator(program, orig)
        b.build()
        rec.update(mods=MODS, numbers=[int(b.solution) % m if int(b.solution) == b.solution else -1 for m in MODS],
                   size=num(round(float(b.solution_size) * 1000000)))
        rec['tags'] = ['candidates dropped'] if sum(map(len, program.values())) < sum(map(len, recp)) else []
        rec['tags'] += ['number over 2^53'] if b.solution > 2 ** 53 else []
    else:
        b = ForwardConstraintSolutionBuilder(program, orig)
        b.build()
        rec.update(size=num(b.solution_size), words=[s32(v) for v in b.solution.get_bytes()])
    rec['left'] = [[view(i, names)['word'] for i in program[a]] for a in order]
    return rec
