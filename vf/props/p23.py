"""P23: the codes of the parts of the instructions."""
import random
import sys
import types

from vf import prog
from vf.util import num

SPEC = 'HuffmanTrace'
MC = {'quick': [{'module': 'HuffmanMC', 'cfg': 'HuffmanMC_q.cfg'}], 'thorough': [{'module': 'HuffmanMC', 'cfg': 'HuffmanMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Symbols that can be compared with each other (registers, operations, conditions, characters)',
               'Instructions are defined',
               'libs.darm, which the repository does not have and none of this calls, is replaced with an empty module']


def cases(tier, seed, scratch):
    r = random.Random('P23 %d' % seed)
    f = 1 if tier == 'quick' else 8
    for n in range(1, 5):
        for _ in range(30 * f):
            yield {'k': 'code, few symbols', 'ws': [r.randint(0, 4) for _ in range(n)], 'chars': r.random() < .5, 'seed': r.getrandbits(20)}
    for k in range(180 * f):
        n = r.randint(2, 28) if k % 60 else r.choice([70, 150, 300])
        how = r.choice(['same', 'few', 'any', 'fib', 'pow'])
        a, b, ws, top = 1, 1, [], 2 ** 20 if n < 29 else 2 ** 14
        for i in range(n):
            ws.append({'same': 3, 'few': r.randint(1, 3), 'any': r.randint(0, 500), 'fib': min(a, top), 'pow': min(2 ** i, top)}[how])
            a, b = b, a + b
        r.shuffle(ws)
        yield {'k': 'code, ' + how, 'ws': ws, 'chars': r.random() < .5, 'seed': r.getrandbits(20), 'cost': n}
    for _ in range(20 * f):
        n = r.randint(2, 6)
        ws = [r.choice([r.getrandbits(25), 2 ** 20 + r.randrange(3), 2 ** 24 + i, r.randint(2 ** 21, 2 ** 24)]) for i in range(n)]
        yield {'k': 'code, large weights', 'ws': ws, 'chars': r.random() < .5, 'seed': r.getrandbits(20)}
    for k in range(60 * f):
        es = prog.encodings(r.choice(prog.DISAM))
        n = r.randint(0, 40) if k % 20 else min(300, len(es) - 1)
        at = r.randrange(0, len(es) - n)
        yield {'k': r.choice(['registers', 'operations', 'conditions']), 'words': es[at:at + n], 'twice': r.random() < .3,
               'seed': r.getrandbits(20), 'cost': 10 + n}


def module():
    if 'libs.darm' not in sys.modules:
        m = types.ModuleType('libs.darm')
        m.darm = types.ModuleType('libs.darm.darm')
        import libs
        libs.darm = m
        sys.modules['libs.darm'] = m
        sys.modules['libs.darm.darm'] = m.darm
    from semantic_codec.compressor import huffman
    return huffman


def observe(c):
    h = module()
    r = random.Random(c['seed'])
    if 'ws' in c:
        syms = [chr(97 + i) if c['chars'] else 3 * i for i in range(len(c['ws']))]
        r.shuffle(syms)
        weights = dict(zip(syms, c['ws']))
        before = dict(weights)
        res = h.encode(weights)
        return {'j': 'code', 'weights': c['ws'], 'coded': [syms.index(s) + 1 for s, _ in res],
                'codes': [[int(x) for x in code] for _, code in res], 'size': num(h.huffman_size(weights)),
                'sizeOfGiven': num(h.huffman_size(weights, res)), 'same': weights == before}
    p = [prog.caps(w, 4 * i) for i, w in enumerate(c['words'])]
    p = [i for i in p if not i.is_undefined]
    if c['twice'] and p:
        p += [r.choice(p) for _ in range(3)]
    fc = h.InstructionPartFrequencyCounter()
    fc.count(p)
    get, freq, has = {'registers': (lambda i: i.registers_used(), fc.reg_frequency, fc.reg_with),
                      'operations': (lambda i: [i.opcode_field], fc.opcode_frequency, fc.opcode_with),
                      'conditions': (lambda i: [i.conditional_field], fc.cond_frequency, fc.cond_with)}[c['k']]
    place = {}
    for n, i in enumerate(p):
        place.setdefault(id(i), n + 1)
    return {'j': 'frequency', 'prog': [[num(x) for x in get(i)] for i in p], 'first': [place[id(i)] for i in p],
            'freq': [[num(k), num(v)] for k, v in freq.items()],
            'with': [[num(k), [place[id(i)] for i in v]] for k, v in has.items()]}
