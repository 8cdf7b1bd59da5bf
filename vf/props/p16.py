"""P16: the quality of a recovered program."""
import random
from fractions import Fraction

from vf import prog
from vf.props import p11
from vf.util import s32, num

SPEC = 'QualityTrace'
MC = {'quick': [{'module': 'QualityMC', 'cfg': 'QualityMC_q.cfg'}],
      'thorough': [{'module': 'QualityMC', 'cfg': 'QualityMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The candidates of an address are different words']
MODS = [9973, 10007, 16381, 19997, 29989, 32749]


def cases(tier, seed, scratch):
    r = random.Random('P16 %d' % seed)
    encs = prog.encodings('sha')
    for i in range(260 if tier == 'quick' else 3000):
        n = r.choice([1, 2, r.randint(1, 6), r.randint(2, 25)])
        if i % 87 == 80:
            n = r.choice([70, 150, 300, 340]) if i > 100 else 340       # more solutions than floating point tells
        words, scores, orig = [], [], []
        for _ in range(n):
            o = r.choice(encs)
            m = r.choice([1, 1, 2, 3, 4, r.randint(1, 12), r.randint(1, 33)]) if n < 60 else r.choice([2, 3, 8, 12] if n < 300 else [8, 12, 14])
            if n < 60 and r.random() < .04:
                m = 0       # no solution at all
            cs = [o] if m else []
            how = r.choice(['far', 'far', 'near', 'alike'])
            while len(cs) < m:
                if how == 'far':
                    x = o ^ (r.getrandbits(12) << 20) ^ (r.getrandbits(3) << r.randrange(17))
                elif how == 'near':
                    x = o ^ 1 << r.randrange(12)
                else:
                    x = p11.alias(r, o)
                if r.random() < .02:
                    x = r.choice([0, 1, 0xffffffff])
                if x not in cs:
                    cs.append(x)
                elif r.random() < .1:
                    m = len(cs)
            # the original may have been lost
            if m > 1 and r.random() < .03:
                cs = cs[1:]
            r.shuffle(cs)
            top = r.choice([1, 2, 4, 16, 10 ** 6, 10 ** 12])
            few = [1, 2, 3] if top > 16 and r.random() < .5 else range(top + 1)
            words.append(cs)
            scores.append([[r.choice(few), r.choice([1, top, r.choice(few)]), top] for _ in cs])
            orig.append(o if r.random() < .95 else r.choice([0xffffffff, 0x06000010]))
        drop = [[r.randrange(n), r.randrange(100)] for _ in range(r.randint(0, n + 2))] if r.random() < .6 else []
        yield {'drop': drop, 'k': r.choice(['evaluate', 'count first', 'size first', 'bins first', 'depth only']), 'words': words,
               'scores': scores, 'orig': orig, 'cost': 4 + sum(map(len, words))}


def product(scores, inst):
    return scores['pc'] * scores['po']


def observe(c):
    from semantic_codec.metadata.recuperator import probabilistic_rules
    from semantic_codec.solution.solution_quality import SolutionQuality
    addrs = [0x8000 + 4 * i for i in range(len(c['words']))]
    program = prog.build(c['words'], addrs)
    orig = [prog.caps(e, a) for e, a in zip(c['orig'], addrs)]
    for a, ss in zip(addrs, c['scores']):
        for inst, (pc, po, top) in zip(program[a], ss):
            inst.score_function = product if inst.ignore else probabilistic_rules
            inst.scores_by_rule = {'pc': pc / top, 'po': min(po, top) / top}

    def now():
        # of the scores only their order matters
        order = {s: k for k, s in enumerate(sorted({i.score() for v in program.values() for i in v}))}
        return ([[{'s': order[i.score()], 'e': s32(i.encoding)} for i in program[a]] for a in addrs],
                [sorted(i.encoding for i in program[a]) for a in addrs])

    rounds = []
    q = SolutionQuality(program, orig)
    k = c['k']
    for again in range(2 if c['drop'] else 1):
        if again:
            # some candidates are discarded, and the program is evaluated again
            for a, f in c['drop']:
                if program[addrs[a]]:
                    program[addrs[a]].pop(f % len(program[addrs[a]]))
            k = 'evaluate'
        recorded, before = now()
        # Figures may be asked for in any order: the first one asked for is the one that counts
        count = size = bins = unset = object()
        if k == 'evaluate':
            q.evaluate()
        elif k == 'count first':
            count = q.solution_count
        elif k == 'size first':
            size = q.solution_size
        elif k == 'bins first':
            bins = dict(q.solution_count_bins)
        depth = Fraction(q.highest_depth).limit_denominator(200)
        if abs(float(depth) - float(q.highest_depth)) > 1e-9:
            raise ValueError('not a rank: %r' % q.highest_depth)
        count = q.solution_count if count is unset else count
        size = q.solution_size if size is unset else size
        bins = q.solution_count_bins if bins is unset else bins
        rounds.append({'addr': recorded, 'counts': [count % m if type(count) is int else -1 for m in MODS],
                       'size': num(round(float(size) * 1000000)),
                       'bins': sorted([num(a), num(b)] for a, b in bins.items()),
                       'depth': [depth.numerator, depth.denominator],
                       'kept': before == [sorted(i.encoding for i in program[a]) for a in addrs] and sorted(program) == addrs})
    return {'rounds': rounds, 'word': [s32(i.encoding) for i in orig], 'def': [not i.ignore for i in orig], 'mods': MODS}
