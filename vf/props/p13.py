"""P13: the solutions of the constraint problem are the programs that match the statistics."""
import random

from vf import prog
from vf.util import num

SPEC = 'CspTrace'
MC = {'quick': [{'module': 'CspMC', 'cfg': 'CspMC_q.cfg'}],
      'thorough': [{'module': 'CspMC', 'cfg': 'CspMC_q.cfg'}, {'module': 'CspMC', 'cfg': 'CspMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Some address has candidates', 'Up to five addresses of up to four candidates, or up to forty of which few have several']
POOL = [0xe1a00001, 0xe1a01000, 0xe2800001, 0xe0801001, 0xe1500001, 0xe5901000, 0xe5801000, 0x03a00001, 0x13a00001, 0xe3a01001,
        0xe92d4010, 0xe8bd8010, 0xeb000010, 0xe320f000, 0xffffffff, 0x01a00001, 0xe0811002]
MANY = [0xe92d1fff, 0xe92d3fff, 0xe92d4fff, 0xe92d5fff, 0xe8911fff, 0xe8915fff, 0xe8914fff, 0xe8bd1fff, 0xe8bd9fff, 0xe8bd8fff]      # of many registers


def cases(tier, seed, scratch):
    r = random.Random('P13 %d' % seed)
    es = prog.encodings('crc32')
    for _ in range(420 if tier == 'quick' else 4000):
        long = r.random() < .15
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5]) if not long else r.randint(6, 40)
        few = r.sample(range(n), min(n, r.randint(1, 5)))
        pool = r.choice([POOL, MANY, POOL[:6], r.sample(POOL, 3), r.sample(POOL, 4), es])
        orig = [r.choice(pool) for _ in range(n)]
        words, kind = [], 'original among the candidates'
        for a, o in enumerate(orig):
            m = r.choice([1, 2, 2, 3, 3, 4] if n < 5 else [1, 2, 2, 3]) if not long or a in few else 1
            x = r.random()
            cs = [o]
            for _ in range(m - 1):
                cs.append(r.choice(pool) if x < .8 else o ^ (1 << r.randrange(32)))
            if r.random() < .8:
                cs = list(dict.fromkeys(cs))
            r.shuffle(cs)
            words.append(cs)
        stats = list(orig)
        if r.random() < .25:
            kind = 'statistics of another program'
            stats[r.randrange(n)] = r.choice(pool)
            if r.random() < .3:
                stats = stats[:-1]
        elif r.random() < .04:
            kind = 'an address of many candidates'
            words = [[o] for o in orig]
            cs = words[r.randrange(n)]
            while len(cs) < r.choice([41, 70, 130]):
                x = r.choice(es) if r.random() < .5 else cs[0] ^ (1 << r.randrange(28)) ^ (1 << r.randrange(28))
                if x not in cs:
                    cs.append(x)
            r.shuffle(cs)
        if r.random() < .1 and n > 1:
            kind = 'an address without candidates'
            words[r.randrange(n)] = []
        yield {'k': kind, 'words': words, 'orig': orig, 'stats': stats, 'shuffle': r.random() < .3, 'seed': r.getrandbits(20),
               'cost': 2 + 2 ** min(n, 6)}


def view(i):
    if i.ignore:
        return {'ignore': True, 'cond': [], 'op': [], 'stor': []}
    return {'ignore': False, 'cond': [num(i.conditional_field)], 'op': [num(i.opcode_field)],
            'stor': [num(x) for x in i.storages_used()]}


def observe(c):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.solution.solution_builders import ProblemBuilder
    addrs = list(range(0x8000, 0x8000 + 4 * len(c['words']), 4))
    program = prog.build(c['words'], addrs)
    if c['shuffle']:
        keys = list(program)
        random.Random(c['seed']).shuffle(keys)
        program = {k: program[k] for k in keys}
    before = prog.dump(program)
    collector = MetadataCollector()
    collector.collect([prog.caps(e, 0x8000 + 4 * i) for i, e in enumerate(c['stats'])])
    stats = [[n, num(k), num(v)] for n, d in ((1, collector.condition_count), (2, collector.instruction_count),
                                              (3, collector.storage_count)) for k, v in d.items()]
    place = {id(i): n + 1 for a in addrs for n, i in enumerate(program[a])}
    problem = ProblemBuilder().build(program, collector)
    solutions = [[place[id(s[a])] if a in s else 0 for a in addrs] for s in problem.getSolutions()]
    original = [[]]
    for ws, o in zip(c['words'], c['orig']):
        original = [p + [k] for p in original for k in ([i + 1 for i, w in enumerate(ws) if w == o] or [0])]
    return {'j': 'csp', 'program': [[view(prog.caps(w, a)) for w in ws] for ws, a in zip(c['words'], addrs)], 'stats': stats,
            'solutions': solutions, 'original': original, 'hasOriginal': c['stats'] == c['orig'] and all(c['words']),
            'same': prog.dump(program) == before,
            'tags': (['several solutions'] if len(solutions) > 1 else []) + ([] if solutions else ['no solution'])}
