"""P07: random corruption stays within what was asked for, and may be anywhere in it."""
import math
import random

from vf import prog
from vf.util import num, s32, u32

SPEC = 'CorruptionTrace'
MC = {'quick': [{'module': 'PredictMC', 'cfg': 'PredictMC_q.cfg'}],
      'thorough': [{'module': 'PredictMC', 'cfg': 'PredictMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['No more bits are asked for than there are in the range, and 7 or less',
               'Whether everything may be hit is decided over hundreds of seeded draws']


def cases(tier, seed, scratch):
    r = random.Random('P07 %d' % seed)
    encs = prog.encodings('fft') + prog.encodings('crc32')
    f = 1 if tier == 'quick' else 8

    def enc():
        return r.choice(encs) if r.random() < .7 else r.choice([0, 0xffffffff, r.getrandbits(32)])

    for _ in range(160 * f):
        lo = r.randint(0, 31)
        hi = r.randint(lo, 31)
        yield {'k': 'corrupt_bits', 'lo': lo, 'hi': hi, 'amount': r.randint(0, min(6, hi - lo + 1)), 'enc': enc(),
               'seed': r.getrandbits(30), 'cost': 3}
    for n in (7, 8, 9) * f:
        lo = r.randint(0, 32 - n)
        yield {'k': 'corrupt_bits', 'lo': lo, 'hi': r.randint(lo + n - 1, 31), 'amount': n, 'enc': enc(), 'seed': r.getrandbits(30), 'cost': 40}
    for n in (150, 300) * f:
        yield {'k': r.choice(['corrupt_program', 'RandomCorruptor']), 'words': [[enc()] for _ in range(n)], 'pct': r.choice([1, 5, 40, 100]),
               'max': r.choice([1, 3]), 'seed': r.getrandbits(30), 'cost': 2 + n}
    for kind in ('corrupt_conditional', 'corrupt_registers', 'corrupt_opcode'):
        for _ in range(25 * f):
            yield {'k': kind, 'amount': r.randint(0, 4), 'enc': enc(), 'seed': r.getrandbits(30)}
    for _ in range(60 * f):
        lo = r.randint(0, 31)
        yield {'k': 'corrupt_all_bits', 'lo': lo, 'hi': min(32, lo + r.randint(0, 7)), 'enc': enc(), 'cost': 4}
    for _ in range(100 * f):
        # ranges apart from each other, up to the last bit
        cuts = sorted(r.sample(range(0, 33), 2 * r.randint(1, 4)))
        ts, left = [], 8
        for i in range(0, len(cuts), 2):
            h = min(cuts[i + 1], cuts[i] + left)
            if h > cuts[i]:
                ts.append([cuts[i], h])
                left -= h - cuts[i]
        if r.random() < .3:
            r.shuffle(ts)
        yield {'k': 'corrupt_all_bits_tuples', 'tuples': ts, 'enc': enc(), 'cost': 6}
    for _ in range(200 * f):
        parts = [r.random() < .6, r.random() < .5, r.random() < .5]
        if not any(parts):
            parts[r.randrange(3)] = True
        yield {'k': 'corrupt_instruction', 'enc': r.choice(encs), 'parts': parts, 'amount': r.randint(0, 4),
               'more': r.random() < .2, 'seed': r.getrandbits(30), 'cost': 4}
    for _ in range(140 * f):
        n = r.choice([1, 2, 3, r.randint(1, 12), r.randint(5, 40)])
        pct = r.choice([0, 1, 5, 10, 20, 33, 50, 75, 99, 100, r.randint(0, 100), r.choice([-1, -50, 101, 250])])
        words, dirty = [], r.random() < .2
        for _ in range(n):
            e = enc()
            words.append([e] + ([e ^ (1 << r.randrange(32))] if dirty and r.random() < .4 else []))
        yield {'k': r.choice(['corrupt_program', 'RandomCorruptor']), 'words': words, 'pct': pct,
               'max': r.choice([0, 1, 2, 3, 5]), 'seed': r.getrandbits(30), 'cost': 2 + n}
    for _ in range(60 * f):
        yield {'k': 'shares', 'amount': r.randint(0, 9), 'bins': r.randint(1, 4), 'seed': r.getrandbits(30)}
    # everything has to be within reach
    for lo, hi in [(0, 31), (28, 31), (0, 3), (10, 20), (20, 27)]:
        yield {'k': 'reach', 'of': 'corrupt_bits', 'lo': lo, 'hi': hi, 'seed': r.getrandbits(30), 'draws': 900, 'cost': 20}
    for kind, lo, hi in [('corrupt_conditional', 28, 31), ('corrupt_registers', 0, 10), ('corrupt_opcode', 20, 27)]:
        yield {'k': 'reach', 'of': kind, 'lo': lo, 'hi': hi, 'seed': r.getrandbits(30), 'draws': 500, 'cost': 20}
    for n, pct in [(1, 10), (2, 1), (6, 10), (10, 30), (25, 10)]:
        yield {'k': 'reach', 'of': 'corrupt_program', 'n': n, 'pct': pct, 'seed': r.getrandbits(30),
               'draws': 60 * n // max(1, n * pct // 100) + 60, 'cost': 60}
    for lo, hi in [(0, 3), (28, 31), (5, 9)]:
        yield {'k': 'reach', 'of': 'pairs of bits', 'lo': lo, 'hi': hi, 'seed': r.getrandbits(30), 'draws': 300, 'cost': 20}
    for n in (3, 4, 6):
        yield {'k': 'reach', 'of': 'pairs of instructions', 'n': n, 'seed': r.getrandbits(30), 'draws': 400, 'cost': 40}
    yield {'k': 'reach', 'of': 'amounts', 'max': 4, 'seed': r.getrandbits(30), 'draws': 200, 'cost': 20}
    yield {'k': 'reach', 'of': 'amounts', 'max': 7, 'seed': r.getrandbits(30), 'draws': 260, 'cost': 20}
    for n, bins in [(3, 2), (4, 3), (6, 2), (6, 3)]:
        yield {'k': 'reach', 'of': 'shares', 'amount': n, 'bins': bins, 'seed': r.getrandbits(30), 'draws': 700, 'cost': 20}
    yield {'k': 'reach', 'of': 'program bits', 'seed': r.getrandbits(30), 'draws': 700, 'cost': 60}


PARTS = [range(28, 32), range(0, 11), range(20, 28)]


def bits_rec(c, result, allowed, amount):
    return {'j': 'bits', 'enc': s32(c['enc']), 'result': [s32(v) for v in result], 'allowed': list(allowed), 'amount': amount}


def rounding(n, pct):
    """Whether floating point numbers may take n pct / 100, which is whole, for a bit more"""
    return n * pct % 100 == 0 and any(math.ceil(x) > n * pct // 100 for x in (n * (pct / 100), n * pct / 100, pct * (n / 100)))


def observe(c):
    from semantic_codec.corruption import corruption as m
    from semantic_codec.corruption.corruptors import RandomCorruptor
    random.seed(c.get('seed', 0))
    k = c['k']
    if k == 'corrupt_bits':
        # the callers give the higher bit first and it does not matter which comes first
        lo, hi = c['lo'], c['hi']
        return bits_rec(c, call_bits(m, lo, hi, c['amount'], c['enc']), range(lo, hi + 1), c['amount'])
    if k in ('corrupt_conditional', 'corrupt_registers', 'corrupt_opcode'):
        rng = PARTS[['corrupt_conditional', 'corrupt_registers', 'corrupt_opcode'].index(k)]
        return bits_rec(c, getattr(m, k)(c['amount'], c['enc']), rng, c['amount'])
    if k == 'corrupt_all_bits':
        return bits_rec(c, m.corrupt_all_bits(c['lo'], c['hi'], c['enc']), range(c['lo'], c['hi']), c['hi'] - c['lo'])
    if k == 'corrupt_all_bits_tuples':
        al = [b for lo, hi in c['tuples'] for b in range(lo, hi)]
        return bits_rec(c, m.corrupt_all_bits_tuples([tuple(t) for t in c['tuples']], c['enc']), al, len(al))
    if k == 'shares':
        return {'j': 'shares', 'shares': [num(x) for x in m.distribute_random_amount(c['amount'], c['bins'])],
                'amount': c['amount'], 'bins': c['bins']}
    if k == 'corrupt_instruction':
        return instruction(c, m)
    if k in ('corrupt_program', 'RandomCorruptor'):
        program = prog.build(c['words'], [0x8000 + 4 * i for i in range(len(c['words']))])
        a0, before, _ = prog.dump(program)
        rec = {'j': 'program', 'pct': c['pct'], 'rounding': rounding(len(c['words']), c['pct']), 'max': c['max'], 'raised': False,
               'pristine': all(len(x) == 1 for x in before)}
        try:
            if k == 'corrupt_program':
                m.corrupt_program(program, c['pct'], c['max'])
            else:
                program = RandomCorruptor(c['pct'], c['max'], False).corrupt(program)
        except Exception:
            rec['raised'] = True
        a1, after, where = prog.dump(program)
        rec.update(addrsBefore=a0, addrsAfter=a1, before=before, after=after, where=where)
        return rec
    return reach(c, m)


def call_bits(m, lo, hi, amount, enc):
    # as the code does itself: corrupt_bits(31, 28, amount, instruction)
    try:
        return m.corrupt_bits(lo, hi, amount, enc)
    except ValueError:
        return m.corrupt_bits(hi, lo, amount, enc)


def instruction(c, m):
    orig = prog.caps(c['enc'], 0x9000)
    program = prog.build([[c['enc']], [0xe1a00000]], [0x9000, 0x9004])
    if c['more']:
        program[0x9000].append(prog.caps(c['enc'] ^ (1 << 12), 0x9000))
    before = [s32(i.encoding) for i in program[0x9000]]
    got = m.corrupt_instruction(program, orig, 0x9000, conditional=c['parts'][0], registers=c['parts'][1],
                                opcode=c['parts'][2], amount=c['amount'])
    after = [i.encoding for i in program[0x9000]]
    new = after[len(before):]
    f = set()
    for v in new:
        f |= {b for b in range(32) if (v ^ c['enc']) >> b & 1}
    undefined = []
    if len(f) <= 8:
        span = {c['enc']}
        for b in f:
            span |= {v ^ (1 << b) for v in span}
        undefined = [s32(v) for v in span if prog.caps(v, 0x9000).ignore]
    return {'j': 'instruction', 'enc': s32(c['enc']), 'before': before, 'after': [s32(v) for v in after],
            'allowed': [b for on, rng in zip(c['parts'], PARTS) if on for b in rng], 'amount': c['amount'],
            'undefined': undefined, 'parts': sum(c['parts']),
            'othersSame': [i.encoding for i in program[0x9004]] == [0xe1a00000] and sorted(program) == [0x9000, 0x9004]
            and [i.encoding for i in got] == after and all(i.address == 0x9000 for i in program[0x9000])}


def reach(c, m):
    hit = set()
    if c['of'] in ('corrupt_bits', 'corrupt_conditional', 'corrupt_registers', 'corrupt_opcode'):
        for _ in range(c['draws']):
            if c['of'] == 'corrupt_bits':
                res = call_bits(m, c['lo'], c['hi'], 1, 0)
            else:
                res = getattr(m, c['of'])(1, 0)
            for v in res:
                hit |= {b for b in range(32) if v >> b & 1}
        every = list(range(c['lo'], c['hi'] + 1))
    elif c['of'] == 'corrupt_program':
        for _ in range(c['draws']):
            program = prog.build([[0xe1a00000 + i] for i in range(c['n'])], [0x8000 + 4 * i for i in range(c['n'])])
            m.corrupt_program(program, c['pct'], 1)
            hit |= {(a - 0x8000) // 4 for a in program if len(program[a]) > 1}
        every = list(range(c['n']))
    elif c['of'] == 'pairs of bits':
        for _ in range(c['draws']):
            v = 0
            for x in call_bits(m, c['lo'], c['hi'], 2, 0):
                v |= x
            hit.add(v)
        every = [(1 << a) + (1 << b) for a in range(c['lo'], c['hi'] + 1) for b in range(c['lo'], a)]
        every, hit = [s32(v) for v in every], {s32(v) for v in hit}
    elif c['of'] == 'pairs of instructions':
        for _ in range(c['draws']):
            program = prog.build([[0xe1a00000 + i] for i in range(c['n'])], [0x8000 + 4 * i for i in range(c['n'])])
            m.corrupt_program(program, 200 / c['n'], 1)
            # one more is tolerated when floating point numbers may take the percentage for a bit more
            some = [i for i, a in enumerate(sorted(program)) if len(program[a]) > 1]
            hit |= {(1 << a) + (1 << b) for a in some for b in some if b < a}
        every = [(1 << a) + (1 << b) for a in range(c['n']) for b in range(a)]
    elif c['of'] == 'shares':
        # any part may get any of the amount
        for _ in range(c['draws']):
            for i, x in enumerate(m.distribute_random_amount(c['amount'], c['bins'])):
                hit.add(100 * i + num(x))
        every = [100 * i + x for i in range(c['bins']) for x in range(c['amount'] + 1)]
    elif c['of'] == 'amounts':
        for _ in range(c['draws']):
            program = prog.build([[0xe1a00000]], [0x8000])
            m.corrupt_program(program, 100, c['max'])
            hit.add(len(program[0x8000]))
        every = [2 ** a for a in range(1, c['max'] + 1)]
    else:
        for _ in range(c['draws']):
            program = prog.build([[0]], [0x8000])
            m.corrupt_program(program, 100, 1)
            for i in program[0x8000]:
                hit |= {b for b in range(32) if i.encoding >> b & 1}
        every = list(range(32))
    return {'j': 'reach', 'hit': sorted(hit), 'all': every}
