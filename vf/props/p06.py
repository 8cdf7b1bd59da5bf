"""P06: the candidates of the instructions damaged by lost packets."""
import random

from vf import prog
from vf.util import num, s32

SPEC = 'CorruptionTrace'
MC = {'quick': [{'module': 'PredictMC', 'cfg': 'PredictMC_q.cfg'}],
      'thorough': [{'module': 'PredictMC', 'cfg': 'PredictMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The packets lost are packets of the order',
               'No more than 9 bits of a word are lost in the cases that are tried (a candidate per combination)']


def sp_order(n):
    """The order that is built by default (only used to know the size of a case beforehand)"""
    def sp(m, i, j):
        if m == 0:
            return 0
        h = 2 ** (m - 1)
        return 4 * sp(m - 1, i % h, j % h) + {(0, 0): 0, (0, 1): 2, (1, 0): 3, (1, 1): 1}[(i >= h, j >= h)]
    tiles, first, m = [], 0, 10
    while n:
        while 4 ** m > n:
            m -= 1
        tiles.append((m, first))
        n, first = n - 4 ** m, first + 4 ** m
    return [f + sp(m, r, j) for r in range(2 ** tiles[0][0]) for m, f in tiles if r < 2 ** m for j in range(2 ** m)]


def per_word(order, w, size, lost):
    """Bits lost of each word (with the deviation of P04), to keep the cases small"""
    res = [set() for _ in range(size + 2)]
    for k in range(size * 32 // w):
        if order[k % len(order)] in lost:
            for b in range(k * w, k * w + w + 1):
                res[b // 32].add(b % 32)
    return [len(x) for x in res]


def cases(tier, seed, scratch):
    r = random.Random('P06 %d' % seed)
    encs = prog.encodings('dijkstra_small') + prog.encodings('sha')
    # half of an instruction is lost
    for k in range(1 if tier == 'quick' else 6):
        n, size = r.choice([(4, 2), (6, 3), (5, 2)])
        words = [[r.choice(encs)] for _ in range(size)]
        o = list(range(n))
        r.shuffle(o)
        yield {'k': 'half of an instruction', 'n': n, 'width': 16, 'data_size': size, 'lost': [o[2 * r.randrange(size)]], 'words': words,
               'addrs': [0x8000 + 4 * i for i in range(size)], 'order': o, 'default': False, 'shuffle': False, 'again': False,
               'seed': 1, 'cost': 40000}
    # a long program
    for n, size in ((40, 70), (64, 140), (130, 270)):
        yield {'k': 'long program', 'n': n, 'width': 2, 'data_size': size, 'lost': [r.randrange(n)], 'words': [[r.choice(encs)] for _ in range(size)],
               'addrs': [0x8000 + 4 * i for i in range(size)], 'order': None, 'default': True, 'shuffle': False, 'again': False,
               'seed': 1, 'cost': 20 + 6 * size}
    made, want = 0, 420 if tier == 'quick' else 3500
    while made < want:
        w = r.choice([1, 2, 2, 2, 2, 4, 8])
        n = r.choice([r.randint(2, 9), r.randint(4, 40), r.randint(16, 70), 4 ** r.randint(1, 3)])
        size = r.randint(1, r.choice([4, 9, 20]))
        sp = r.random() < .5
        o = sp_order(n)
        if not sp:
            r.shuffle(o)
        lost = r.sample(range(n), r.randint(1, max(1, min(n, n // 6 + 1)))) if r.random() < .9 else r.sample(range(n), min(n, 3))
        if max(per_word(o, w, size + 3, lost)) > 9:
            continue
        multi = r.random() < .25
        words = []
        for _ in range(size):
            es = [r.choice(encs) if r.random() < .8 else r.getrandbits(32)]
            while multi and r.random() < .4 and len(es) < 4:
                e = es[0] ^ (1 << r.randrange(32))
                if e not in es:
                    es.append(e)
            words.append(es)
        base = r.randrange(0x8000, 0x20000, 4)
        addrs, a = [], base
        for _ in range(size):
            addrs.append(a)
            a += 4 if r.random() < .9 else 4 * r.randint(2, 50)
        # now and then the transmission has more, or less, data than the program
        data_size = size if r.random() < .85 else max(1, size + r.randint(-2, 3))
        made += 1
        order = r.choice(['given', 'default']) if sp else 'given'
        yield {'k': ('%s order%s' % (order if sp else 'permuted', ', several candidates' if multi else '')),
               'n': n, 'width': w, 'data_size': data_size, 'lost': lost, 'words': words, 'addrs': addrs,
               'order': None if sp else o, 'default': order == 'default', 'shuffle': r.random() < .3,
               'again': r.random() < .25,
               'seed': r.getrandbits(20), 'cost': 20 + sum(2 ** x for x in per_word(o, w, size, lost))}


def observe(c):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    program = prog.build(c['words'], c['addrs'])
    if c['shuffle']:
        keys = list(program)
        random.Random(c['seed']).shuffle(keys)
        program = {k: program[k] for k in keys}
    order = c['order'] if c['order'] is not None else build_2d_interleave_sp(c['n'], True)
    a0, before, _ = prog.dump(program)
    corruptor = PacketCorruptor(packet_count=c['n'], data_size=c['data_size'], packets_lost=list(c['lost']),
                                interleave=None if c['default'] else order, bits_per_interleave=c['width'])
    if c['again']:
        # the corruptor is used for other programs before
        r = random.Random(c['seed'])
        for _ in range(r.randint(1, 2)):
            n = r.randint(1, len(c['addrs']) + 3)
            if r.random() < .6:     # with other losses, or data, too
                corruptor.packet_lost, corruptor.data_size = [r.randrange(c['n'])], r.randint(1, min(n, 6))
            corruptor.corrupt(prog.build([[r.getrandbits(32)] for _ in range(n)], [0x40 + 4 * k for k in range(n)]))
        corruptor.packet_lost, corruptor.data_size = list(c['lost']), c['data_size']
    out = corruptor.corrupt(program)
    a1, after, where = prog.dump(out)
    return {'j': 'candidates', 'order': [num(x) for x in order], 'width': c['width'], 'size': c['data_size'],
            'lost': c['lost'], 'addrsBefore': a0, 'addrsAfter': a1, 'before': before, 'after': after, 'where': where}
