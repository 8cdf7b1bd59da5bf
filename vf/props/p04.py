"""P04: the predicted loss is the actual loss."""
import random

from vf.props.p01 import pick_n
from vf.util import num, spoil

SPEC = 'CorruptionTrace'
MC = {'quick': [{'module': 'PredictMC', 'cfg': 'PredictMC_q.cfg'}],
      'thorough': [{'module': 'PredictMC', 'cfg': 'PredictMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The packets lost are packets of the order']
WIDTHS = [1, 2, 4, 8, 16, 32]


def order_of(r, n):
    o = list(range(n))
    r.shuffle(o)
    return o


def cases(tier, seed, scratch):
    r = random.Random('P04 %d' % seed)
    ks = [(n, w) for n in range(1, 14) for w in WIDTHS]
    ks += [(pick_n(r, 130), r.choice(WIDTHS + [1, 2, 2, 3, 5, 6, 7, 12])) for _ in range(700 if tier == 'quick' else 6000)]
    many = [(n, w) for n in (200, 257, 300, 600) for w in (1, 2)] + [(n, 8) for n in (5, 60, 300)]
    for n, w in ks + many:
        size = r.randint(1, max(2, min(30, 3 * n * w // 32 + 2)))
        if n > 130:
            size = n * w // 32 + r.randint(1, 30)
        elif w == 8 and (n, w) in many:
            size = 300
        p = r.random()
        if size > 60:
            lost = r.sample(range(n), max(1, n // 20))
        elif p < .06:
            lost = []
        elif p < .12:
            lost = list(range(n))
        elif p < .4:
            lost = [r.randrange(n)]
        else:
            lost = r.sample(range(n), r.randint(1, n))
        if lost and r.random() < .1:
            lost = lost + [lost[0]]
        sp = r.random() < .5
        yield {'k': 'sp' if sp else 'permutation', 'n': n, 'width': w, 'size': size, 'lost': lost,
               'order': None if sp else order_of(r, n), 'floats': r.random() < .5,
               'cost': 10 + size * 32 // w}


def observe(c):
    from semantic_codec.corruption.corruption import predict_corruption
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    order = c['order']
    if order is None:
        order = build_2d_interleave_sp(c['n'], True)
        if not c['floats']:
            order = [int(x) for x in order]
    given, before, lost = [], list(order), list(c['lost'])
    for _ in range(2):
        entries = predict_corruption(c['n'], c['width'], c['size'], order, lost)
        given.append([[num(x) for x in e] for e in entries])
        spoil(entries)
    return {'j': 'prediction', 'order': [num(x) for x in order], 'width': c['width'], 'size': c['size'],
            'lost': c['lost'], 'entries': given[0], 'again': given[1],
            'kept': order == before and lost == c['lost'],
            'tags': ['multiword entry'] if any(len(e) == 3 for e in given[0]) else []}
