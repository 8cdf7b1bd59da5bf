"""P03: the interleaving order is the successive packing, for any number of packets."""
import random

from vf.util import num, spoil

SPEC = 'OrderTrace'
MC = {'quick': [{'module': 'InterleaveMC', 'cfg': 'InterleaveMC_s.cfg'}],
      'thorough': [{'module': 'InterleaveMC', 'cfg': 'InterleaveMC_q.cfg'}]}
ASSUMPTIONS = ['The number of packets is a whole number, 1 or more']


def cases(tier, seed, scratch):
    r = random.Random('P03 %d' % seed)
    ns = list(range(1, 341)) + [511, 512, 513, 767, 1023, 1024, 1025, 1280]
    ns += [r.randint(341, 1500) for _ in range(12)] + [2049, 2560, 3072, 4096 + 320]
    if tier == 'thorough':
        ns += list(range(341, 1300)) + [4095, 4096, 4097, 5000]
    for n in sorted(set(ns)):
        yield {'k': 'order', 'n': n, 'cost': n + 20}
    for m in range(0, 7):
        yield {'k': 'square', 'm': m, 'cost': 4 ** m * 2 + 20}


def observe(c):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, sucesive_packing
    if c['k'] == 'order':
        # asked for twice, as what was given first may have been altered
        flats, rows = [], []
        for _ in range(2):
            f, m = build_2d_interleave_sp(c['n'], flat=True), build_2d_interleave_sp(c['n'])
            flats.append([num(x) for x in f])
            rows.append([[num(x) for x in row] for row in m])
            spoil(f)
            spoil(m)
        return {'n': c['n'], 'flat': flats[0], 'rows': rows[0], 'flatAgain': flats[1], 'rowsAgain': rows[1]}
    matrices = []
    for _ in range(2):
        m = sucesive_packing(c['m'])
        matrices.append([[num(x) for x in row] for row in m])
        spoil(m)
    return {'m': c['m'], 'matrix': matrices[0], 'matrixAgain': matrices[1]}
