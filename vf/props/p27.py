"""P27: bits are copied where they are told and nowhere else."""
import random

from vf.util import raised, s32

SPEC = 'BitsTrace'
MC = {'quick': [{'module': 'BitsMC', 'cfg': 'BitsMC_q.cfg'}], 'thorough': [{'module': 'BitsMC', 'cfg': 'BitsMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['libs.darm, which the repository does not have and none of this calls, is replaced with an empty module',
               'New values of a field fit in it, or their higher bits are left out']


def cases(tier, seed, scratch):
    r = random.Random('P27 %d' % seed)
    f = 1 if tier == 'quick' else 6

    def word():
        return r.choice([0, 0xffffffff, 0x80000000, 1, r.getrandbits(32), r.getrandbits(32), r.getrandbits(32)])

    # every range and place of each size, from a few words to others
    for n in range(1, 33):
        for lo in range(0, 33 - n):
            for dest in sorted({0, lo, 32 - n, r.randint(0, 32 - n)}):
                yield {'k': 'copy', 'lo': lo, 'hi': lo + n - 1, 'dest': dest, 'from': word(), 'to': word()}
    for _ in range(120 * f):
        yield {'k': 'copy', 'lo': r.randint(-2, 33), 'hi': r.randint(-2, 33), 'dest': r.randint(-2, 33), 'from': word(), 'to': word()}
    for lo in range(-1, 34):
        for hi in range(-1, 34):
            if r.random() < .5 * f:
                yield {'k': 'range', 'lo': lo, 'hi': hi, 'value': r.choice([word(), 1 << r.randrange(32)])}
    for b in range(32):
        for _ in range(2 * f):
            yield {'k': 'bit', 'bit': b, 'value': word()}
    for of in ('modify_cond', 'modify_opcode', 'modify_rn', 'modify_rd', 'modify_rs', 'modify_rm'):
        for v in range(16):
            for _ in range(2 * f):
                yield {'k': 'field', 'of': of, 'new': v, 'value': word()}
    for _ in range(150 * f):
        v = word()
        yield {'k': 'immediate', 'new': r.choice([r.getrandbits(8), r.getrandbits(12), 0, 0xff, 0xfff]),
               'value': (v & ~0xe000000) | 0x4000000 if r.random() < .5 else v}
    for _ in range(80 * f):
        yield {'k': 'endian', 'value': word()}


def observe(c):
    from semantic_codec.architecture.bits import Bits
    k = c['k']
    if k == 'copy':
        v, bad = raised(Bits.copy_bits, c['from'], c['to'], c['lo'], c['hi'], c['dest'])
        return {'j': k, 'from': s32(c['from']), 'to': s32(c['to']), 'lo': c['lo'], 'hi': c['hi'], 'dest': c['dest'],
                'result': 0 if bad else s32(v), 'raised': bad}
    if k == 'range':
        m, bad = raised(Bits.set, c['hi'], c['lo'])
        a, bad2 = raised(Bits.are_on, c['value'], c['hi'], c['lo'])
        _, bad3 = raised(Bits.check_range, c['lo'], c['hi'])
        if not bad == bad2 == bad3:
            raise ValueError('do not agree on what a range is')
        return {'j': k, 'lo': c['lo'], 'hi': c['hi'], 'value': s32(c['value']), 'mask': 0 if bad else s32(m), 'any': bool(a),
                'raised': bad}
    if k == 'bit':
        on = Bits.on(c['bit'])
        return {'j': k, 'bit': c['bit'] if c['bit'] < 31 else 30, 'value': s32(c['value']) if c['bit'] < 31 else s32((c['value'] >> 1) & 0xffffffff),
                'on': on if c['bit'] < 31 else on // 2, 'is': bool(Bits.is_on(c['value'], c['bit']))}
    if k in ('field', 'immediate'):
        from vf.props.p23 import module
        module()
        from semantic_codec.architecture.instruction_modifier import InstructionModifier
        of = c.get('of', 'modify_immediate')
        return {'j': k, 'of': of, 'new': c['new'], 'value': s32(c['value']), 'result': s32(getattr(InstructionModifier(), of)(c['value'], c['new']))}
    from semantic_codec.architecture.instruction import Instruction
    v = Instruction.reverse_endianess(c['value'])
    t = Instruction.reverse_endianess('%08x' % c['value'])
    t2 = Instruction.reverse_endianess(' '.join('%08x' % c['value']))
    return {'j': k, 'value': s32(c['value']), 'result': s32(v), 'text': t == '%08x' % v == t2}
