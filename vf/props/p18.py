"""P18: what the instructions say about themselves."""
import random

from vf import prog
from vf.util import num, raised, s32

SPEC = 'ArmTrace'
ACTIONS = ['Condition', 'Register', 'ToList', 'Ahead']
MC = {'quick': [{'module': 'ArmMC', 'cfg': 'ArmMC_q.cfg', 'actions': ACTIONS}],
      'thorough': [{'module': 'ArmMC', 'cfg': 'ArmMC_t.cfg', 'workers': 4, 'actions': ACTIONS}]}
ASSUMPTIONS = ['Well formed ARMv5/v7 words of the integer, media, exclusive, status and coprocessor classes, single loads and stores and moves of the floating point unit, and loads and stores of vectors (not their arithmetic, nor vldm and the like, nor the ones of the system: rfe, srs, eret, cps, smc, udf): no reserved bits, nothing the manual calls unpredictable, nor ldr r, [sp], #-4, which Capstone misreads',
               'PC is not an operand of data processing, but the destination of a register move or operation']


def cond(r):
    return r.choice([14, 14, 14, r.randint(0, 14)]) << 28


def reg(r, top=14):
    return r.choice([r.randint(0, top), r.randint(0, min(top, 3)), 0])


def data(r):
    op, s = r.randrange(16), r.getrandbits(1)
    rd, rn = reg(r), reg(r)
    if 8 <= op <= 11:
        s, rd = 1, 0
    if op in (13, 15):
        rn = 0
    w = op << 21 | s << 20 | rn << 16 | rd << 12
    how = r.choice(['imm', 'reg', 'reg', 'shift', 'byreg'])
    if how == 'imm':
        return w | 1 << 25 | r.getrandbits(12)
    if rd == 0 and not 8 <= op <= 11 and r.random() < .1 and how != 'byreg':
        w = (w | 15 << 12) & ~(1 << 20)
    w |= reg(r)
    if how == 'shift':
        if op == 13:
            w &= ~(15 << 12)
            w |= reg(r) << 12
        w |= r.randint(0, 31) << 7 | r.randrange(4) << 5
    if how == 'byreg':
        w |= reg(r) << 8 | r.randrange(4) << 5 | 16
    return w


def multiply(r):
    op = r.choice([0, 1, 4, 5, 6, 7, r.randrange(8)])
    a, b, c, d = r.sample(range(15), 4)
    if r.random() < .3:
        c = d
    return op << 21 | (0 if op in (2, 3) else r.getrandbits(1) << 20) | a << 16 | (b if op else 0) << 12 | c << 8 | 0x90 | d


def index(r, t):
    """P, U, W and the base"""
    rt = reg(r, t)
    how = r.choice([(1, 0), (1, 0), (1, 1), (0, 0)])
    rn = r.choice([x for x in (0, 1, 2, 13, 14, r.randrange(15)) if x != rt])
    if how == (1, 0) and r.random() < .2:
        rn = 15
    if how == (1, 0) and rn != 15 and r.random() < .2:
        rn = rt if rt < 15 else rn
    return how[0] << 24 | r.getrandbits(1) << 23 | how[1] << 21 | rn << 16, rt


def memory(r):
    byte, load = r.getrandbits(1), r.getrandbits(1)
    w, rt = index(r, 14)
    if load and not byte and r.random() < .1 and w >> 16 & 15 != 15:
        rt = 15
    w |= 1 << 26 | byte << 22 | load << 20 | rt << 12
    if r.random() < .1 and rt < 15 and not w >> 24 & 1 and w >> 16 & 15 != 15:
        w |= 1 << 21        # as an user
    rn = w >> 16 & 15
    if r.random() < .6 or rn == 15 or rt == 15:
        if rn == 13:
            w |= 1 << 23    # Capstone takes ldr rd, [sp], #-4 as a pop
        return w | r.choice([4, 0, r.getrandbits(12)])
    rm = r.choice([x for x in range(15) if x != rn])
    return w | 1 << 25 | (r.choice([0, 0, r.getrandbits(7)]) << 5) | rm


def extra(r):
    kind = r.choice(['strh', 'ldrh', 'ldrsb', 'ldrsh', 'ldrd', 'strd'])
    w, rt = index(r, 14)
    if kind in ('ldrd', 'strd'):
        rt = rt // 2 * 2 % 12
        if (w >> 16 & 15) in (rt, rt + 1, 15):
            w = w & ~(15 << 16) | 13 << 16
    rn = w >> 16 & 15
    if rn == 15 and kind in ('strh', 'strd'):
        w, rn = w & ~(15 << 16) | 12 << 16, 12
        if rt == 12:
            rt = 3
    if kind not in ('ldrd', 'strd') and not w >> 24 & 1 and rn not in (15, rt) and r.random() < .2:
        w |= 1 << 21        # as an user
    w |= rt << 12 | 0x90 | {'strh': 0x20, 'ldrh': 0x100020, 'ldrsb': 0x100040, 'ldrsh': 0x100060, 'ldrd': 0x40, 'strd': 0x60}[kind]
    if r.random() < .5 or rn == 15:
        return w | 1 << 22 | r.randrange(16) << 8 | r.randrange(16)
    return w | r.choice([x for x in range(15) if x not in (rn, rt, rt + 1)])


def multiple(r):
    if r.random() < .4:
        return r.choice([0x92d0000, 0x8bd0000]) | (r.getrandbits(16) or 16) & ~(1 << 13) | r.choice([0, 1 << 14, 16])
    load = r.getrandbits(1)
    rn, wb = reg(r), r.getrandbits(1)
    regs = r.choice([r.getrandbits(16), 1 << r.randrange(15), 3, r.getrandbits(15), 0x30])
    if wb or not load:
        regs &= ~(1 << rn)
    if rn != 13:
        regs &= ~(1 << 13)
    if not load:
        regs &= ~(1 << 15)
    regs = regs or (2 if rn != 1 else 4)
    return 1 << 27 | r.randrange(4) << 23 | wb << 21 | load << 20 | rn << 16 | regs


def branch(r):
    off = r.choice([r.randint(-40, 40), r.getrandbits(24), 0, -1, -2, 0x7fffff, 0x800000]) & 0xffffff
    return 0xa000000 | r.getrandbits(1) << 24 | off


def swap(r):
    rd, rm, rn = r.sample(range(15), 3)
    if r.random() < .2:
        rd = rm
    return 0x1000090 | r.getrandbits(1) << 22 | rn << 16 | rd << 12 | rm


def exclusive(r):
    size = r.randrange(4)
    a, b, n = r.sample(range(13), 3)
    if r.getrandbits(1):
        if size == 1:
            a = a & 14
        return 0x1900f9f | size << 21 | n << 16 | a << 12
    if size == 1:
        b = r.choice([x for x in range(0, 12, 2) if a not in (x, x + 1)])
        n = r.choice([x for x in range(13) if x not in (a, b, b + 1)])
    return 0x1800f90 | size << 21 | n << 16 | a << 12 | b


def status(r):
    k = r.choice(['from', 'to', 'immediate'])
    if k == 'from':
        return 0x10f0000 | r.getrandbits(1) << 22 | reg(r) << 12
    w = 0x120f000 | r.getrandbits(1) << 22 | r.randint(1, 15) << 16
    return w | reg(r) if k == 'to' else w | 1 << 25 | r.getrandbits(12)


def halves(r):
    a, b, c, d = r.sample(range(15), 4)
    op, x = r.randrange(4), r.getrandbits(2)
    acc = 0 if op == 3 or op == 1 and x & 1 else b
    return 0x1000080 | op << 21 | a << 16 | acc << 12 | c << 8 | x << 5 | d


def saturate(r):
    return 0x1000050 | r.randrange(4) << 21 | reg(r) << 16 | reg(r) << 12 | reg(r)


def media(r):
    d, n, m, a = [reg(r) for _ in range(4)]
    k = r.choice(['parallel', 'pack', 'sel', 'extend', 'extend', 'saturate', 'saturate16', 'reverse', 'dual', 'dual', 'long', 'top', 'divide', 'usad',
                  'field', 'insert'])
    top = r.choice([15, a])
    if k == 'parallel':
        return 0x6000f10 | r.choice([1, 2, 3, 5, 6, 7]) << 20 | n << 16 | d << 12 | r.choice([0, 1, 2, 3, 4, 7]) << 5 | m
    if k == 'pack':
        return 0x6800010 | n << 16 | d << 12 | r.randint(0, 31) << 7 | r.getrandbits(1) << 6 | m
    if k == 'sel':
        return 0x6800fb0 | n << 16 | d << 12 | m
    if k == 'extend':
        return 0x6800070 | r.choice([0, 2, 3, 4, 6, 7]) << 20 | r.choice([15, n]) << 16 | d << 12 | r.randrange(4) << 10 | m
    if k == 'saturate':
        return 0x6a00010 | r.getrandbits(1) << 22 | r.randint(0, 31) << 16 | d << 12 | r.randint(0, 31) << 7 | r.getrandbits(1) << 6 | m
    if k == 'saturate16':
        return 0x6a00f30 | r.getrandbits(1) << 22 | r.randint(0, 15) << 16 | d << 12 | m
    if k == 'reverse':
        return 0x6bf0f30 | r.getrandbits(1) << 22 | r.getrandbits(1) << 7 | d << 12 | m
    if k == 'dual':
        return 0x7000010 | n << 16 | top << 12 | a << 8 | r.randrange(4) << 5 | m
    if k == 'long':
        d, n = r.sample(range(15), 2)
        return 0x7400010 | n << 16 | d << 12 | a << 8 | r.randrange(4) << 5 | m
    if k == 'top':
        x = r.choice([0, 0, 6])
        return 0x7500010 | n << 16 | (d if x else top) << 12 | a << 8 | (x | r.getrandbits(1)) << 5 | m
    if k == 'divide':
        return 0x710f010 | r.getrandbits(1) << 21 | n << 16 | a << 8 | m
    if k == 'usad':
        return 0x7800010 | n << 16 | top << 12 | a << 8 | m
    lo = r.randint(0, 31)
    if k == 'field':
        return 0x7a00050 | r.getrandbits(1) << 22 | r.randint(0, 31 - lo) << 16 | d << 12 | lo << 7 | m
    return 0x7c00010 | r.randint(lo, 31) << 16 | d << 12 | lo << 7 | r.choice([15, m])


def coprocessor(r):
    cp = r.choice([0, 1, 5, 7, 8, 12, 14, 15]) << 8
    k = r.choice(['cdp', 'mcr', 'mrc', 'two', 'memory', 'memory', 'float'])
    if k == 'cdp':
        return 0xe000000 | r.getrandbits(4) << 20 | r.getrandbits(8) << 12 | cp | r.getrandbits(3) << 5 | r.getrandbits(4)
    if k in ('mcr', 'mrc'):
        rd = reg(r) if k == 'mcr' or r.random() < .7 else 15
        return 0xe000010 | r.getrandbits(3) << 21 | (k == 'mrc') << 20 | r.getrandbits(4) << 16 | rd << 12 | cp | r.getrandbits(3) << 5 | r.getrandbits(4)
    if k == 'two':
        d, n = r.sample(range(13), 2)
        return 0xc400000 | r.getrandbits(1) << 20 | n << 16 | d << 12 | cp | r.getrandbits(8)
    if k == 'float':
        return 0xd000a00 | r.getrandbits(2) << 22 | r.getrandbits(1) << 20 | reg(r) << 16 | r.getrandbits(4) << 12 | r.getrandbits(1) << 8 | r.getrandbits(8)
    how = r.choice([8, 9, 12, 13, 1, 5, 4])        # P, U, W
    return 0xc000000 | how << 21 | r.getrandbits(1) << 22 | r.getrandbits(1) << 20 | reg(r) << 16 | r.getrandbits(4) << 12 | cp | r.getrandbits(8)


def transfer(r):
    d, n = r.sample(range(13), 2)
    k = r.choice(['one', 'two', 'status'])
    if k == 'one':
        return 0xe000a10 | r.getrandbits(1) << 20 | r.getrandbits(4) << 16 | d << 12 | r.getrandbits(1) << 7
    if k == 'two':
        return 0xc400b10 | r.getrandbits(1) << 20 | n << 16 | d << 12 | r.getrandbits(1) << 5 | r.getrandbits(4)
    to = r.getrandbits(1)
    return 0xee10a10 | to << 20 | (r.choice([d, 15]) if to else d) << 12


def vector(r):
    """Whole word: it has no condition"""
    w = 0xf4000000 | r.getrandbits(1) << 22 | r.getrandbits(1) << 21 | r.randrange(15) << 16 | r.randrange(8) << 12 | r.choice([15, 13, reg(r, 13)])
    k = r.choice(['whole', 'lane', 'all'])
    if k == 'whole':
        t = r.randrange(11)
        return w | t << 8 | r.randrange(3) << 6 | r.getrandbits(1) << 4
    if k == 'lane':
        s = r.randrange(3)
        return w | 1 << 23 | s << 10 | r.randrange(4) << 8 | r.randrange(8 >> s) << 5 + s
    n = r.randrange(4)
    return w | 1 << 23 | 1 << 21 | 3 << 10 | n << 8 | r.randrange(3) << 6 | r.getrandbits(1) << 5


def one(r):
    how = r.choice(['data', 'data', 'data', 'memory', 'memory', 'multiply', 'extra', 'multiple', 'multiple', 'branch', 'branch', 'rest',
                    'swap', 'exclusive', 'status', 'halves', 'saturate', 'media', 'media', 'coprocessor', 'transfer', 'vector'])
    if how == 'vector':
        return vector(r)
    if how == 'rest':
        k = r.choice(['bx', 'bxj', 'blx', 'svc', 'nop', 'bkpt', 'clz', 'movw', 'movt', 'blxi', 'popone', 'pushlike'])
        if k == 'bkpt':
            return 0xe1200070 | r.getrandbits(12) << 8 | r.getrandbits(4)
        if k == 'blxi':
            return 0xfa000000 | r.getrandbits(25)
        w = {'bx': 0x12fff10 | reg(r), 'bxj': 0x12fff20 | reg(r), 'blx': 0x12fff30 | reg(r), 'svc': 0xf000000 | r.getrandbits(24), 'nop': 0x320f000 | r.randint(0, 4),
             'clz': 0x16f0f10 | reg(r) << 12 | reg(r), 'movw': 0x3000000 | r.getrandbits(4) << 16 | reg(r) << 12 | r.getrandbits(12),
             'movt': 0x3400000 | r.getrandbits(4) << 16 | reg(r) << 12 | r.getrandbits(12),
             'popone': 0x49d0004 | reg(r, 12) << 12, 'pushlike': 0x52d0004 | reg(r, 12) << 12}[k]
        return cond(r) | w
    return cond(r) | globals()[how](r)


def cases(tier, seed, scratch):
    r = random.Random('P18 %d' % seed)
    f = 1 if tier == 'quick' else 10
    # every data processing operation, in each form, with and without flags
    grid = [op << 21 | s << 20 | form | (0 if op in (13, 15) else 0x20000) | (0 if 8 <= op <= 11 else 0x1000)
            for op in range(16) for s in (0, 1) for form in (0x2000005, 3, 0x103, 0x123, 0x143, 0x163, 0x413, 0x433, 0x453, 0x473)
            if s or not 8 <= op <= 11]
    r.shuffle(grid)
    for i in range(0, len(grid), 8):
        yield {'k': 'data processing', 'words': [0xe0000000 | w for w in grid[i:i + 8]], 'addrs': [0x8000 + 4 * n for n in range(len(grid[i:i + 8]))]}
    for how in ('swap', 'exclusive', 'status', 'halves', 'saturate', 'media', 'media', 'media', 'media', 'coprocessor', 'coprocessor', 'multiply', 'extra', 'transfer', 'vector'):
        for _ in range(6 * f):
            yield {'k': 'one class', 'words': [(cond(r) if how != 'vector' else 0) | globals()[how](r) for _ in range(8)], 'addrs': [4 * i for i in range(8)]}
    for _ in range(300 * f):
        n = r.randint(2, 8)
        ws = [one(r) for _ in range(n)]
        x = r.random()
        if x < .3:      # others like the first
            ws[1] = (ws[0] & 0x0fffffff | cond(r)) if ws[0] >> 28 != 15 and ws[0] & 0xfff000f0 != 0xe1200070 else ws[0]
        yield {'k': 'any', 'words': ws, 'addrs': [4 * r.getrandbits(r.choice([4, 14, 24])) for _ in ws]}
    for _ in range(12 * f):
        w = [r.choice([cond(r) | branch(r), cond(r) | memory(r)]) for _ in range(2)]
        at, step = 4 * r.getrandbits(12), r.choice([2 ** 8, 2 ** 12, 2 ** 16, 2 ** 20, 2 ** 24])
        yield {'k': 'far apart', 'words': [x for x in w for _ in range(3)], 'addrs': [at + step * r.randrange(i, i + 5) for i in (0, 5, 10)] * 2}
    for _ in range(12 * f):
        ws = [0x92d5fff, 0x8bd9fff, 0x92d1fff, 0x8bd5fff, 0x88d5fff, 0x89cdfff, 0x8909fff, 0x88b9ffe, 0x8ac5ffe]
        yield {'k': 'all the registers', 'words': [cond(r) | w & ~(0 if r.random() < .5 else 1 << r.randint(1, 11)) for w in ws],
               'addrs': [4 * i for i in range(len(ws))]}
    for _ in range(60 * f):
        n = r.randint(1, 12)
        at = 4 * r.getrandbits(12)
        addrs = [at + 4 * i for i in range(n)]
        if r.random() < .3:
            addrs = sorted(addrs + [r.choice(addrs)])
        a = r.choice(addrs)
        w = branch(r) & 0xff000000 | ((r.choice(addrs + [at - 4, at + 4 * n]) - a - 8) // 4) & 0xffffff
        w |= cond(r)
        if r.random() < .2:
            w = 0xe12fff1e
        yield {'k': 'branch to', 'word': w, 'addr': a, 'addrs': addrs}
    for _ in range(60 * f):
        yield {'k': 'object', 'word': r.choice([0, 0xffffffff, r.getrandbits(32), r.choice(prog.encodings(prog.DISAM[0]))]),
               'addr': 4 * r.getrandbits(14), 'ignore': r.random() < .5, 'scores': [r.randint(0, 64) for _ in range(r.randint(0, 5))],
               'seed': r.getrandbits(16)}


def regs(x):
    """The storages. Those of coprocessors, floating point and status are all alike"""
    res = []
    for v in x:
        v = 100 if num(v) >= 20 else num(v)
        if v != 100 or 100 not in res:
            res.append(v)
    return res


def observe(c):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.architecture.instruction import Instruction
    if c['k'] == 'branch to':
        i = prog.caps(c['word'], c['addr'])
        others = [prog.caps(0xe1a00000, a) for a in c['addrs']]
        t = i.branch_to(others)
        return {'j': c['k'], 'word': s32(c['word']), 'addr': c['addr'], 'addrs': c['addrs'],
                'to': 0 if t is None else 1 + [id(o) for o in others].index(id(t))}
    if c['k'] == 'object':
        r = random.Random(c['seed'])
        w = c['word']
        text = r.choice(['%08x', '%08X', '%x', '0x%08x']) % w
        spaced = ' '.join(text[n:n + 2] for n in range(0, len(text), 2)) if not text.startswith('0x') else ' %s\n' % text
        i = CAPSInstruction(w, c['addr'])
        j, k = CAPSInstruction(text, c['addr']), CAPSInstruction(spaced, c['addr'])
        i.ignore = c['ignore']
        for n, s in enumerate(c['scores']):
            i.scores_by_rule['rule %d' % n] = s / 64
        d = Instruction(str(w), c['addr'], Instruction.DEC_STR)
        return {'j': 'object', 'word': s32(w), 'addr': c['addr'], 'encoding': s32(i.encoding), 'address': num(i.address),
                'sameText': j.encoding == w and k.encoding == w and (i.is_undefined or str(j) == str(i)) and d.encoding == w,
                'refused': all(raised(CAPSInstruction, x, 0)[1] for x in (None, 1.5, [w], 'hello')),
                'undef': bool(i.is_undefined), 'ignore': c['ignore'], 'ignored': bool(i.ignore),
                'score': num(i.score() * 64), 'sum': sum(c['scores'])}
    views = []
    for w, a in zip(c['words'], c['addrs']):
        i = prog.caps(w, a)
        if i.is_undefined:
            views.append({'word': s32(w), 'addr': a, 'undef': True, 'op': 0})
            continue
        to = i.jumping_address
        v = {'word': s32(w), 'addr': a, 'undef': False, 'cond': num(i.conditional_field), 'op': num(i.opcode_field),
             'used': regs(i.registers_used()), 'written': regs(i.registers_written()), 'read': regs(i.registers_read()),
             'sUsed': regs(i.storages_used()), 'sWritten': regs(i.storages_written()), 'sRead': regs(i.storages_read()),
             'branch': bool(i.is_branch), 'link': bool(i.is_branch_with_link), 'pushpop': bool(i.is_push_pop),
             'flags': bool(i.modifies_flags()), 'known': to is not None, 'target': num(to or 0)}
        # asking again gives the same
        v['same'] = [v['sUsed'], v['sWritten'], v['sRead'], v['used']] == \
            [regs(x) for x in (i.storages_used(), i.storages_written(), i.storages_read(), i.registers_used())] and i.jumping_address == to
        views.append(v)
    return {'j': 'views', 'views': views, 'show': ' ; '.join('%08x' % w for w in c['words'])}
