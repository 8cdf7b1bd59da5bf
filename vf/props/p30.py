"""P30: interleaving data in two dimensions."""
import random

from vf.util import num, raised, spoil

SPEC = 'BlaumTrace'
MC = {'quick': [{'module': 'BlaumMC', 'cfg': 'BlaumMC_q.cfg'}], 'thorough': [{'module': 'BlaumMC', 'cfg': 'BlaumMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The message has a packet at least']


def cases(tier, seed, scratch):
    r = random.Random('P30 %d' % seed)
    f = 1 if tier == 'quick' else 6
    for t in range(1, 12 if f == 1 else 20, 2):
        for _ in range(3):
            m, size = (t * t + 1) // 2, r.choice([1, 2, 16, 32, .5])
            w = r.choice([t, 2 * t, r.randint(1, 14)])
            yield {'k': 'as many packets as to separate bursts', 'message': m * size, 'packet': size, 'width': w, 'height': r.choice([w, r.randint(1, 14)])}
    for _ in range(200 * f):
        size = r.choice([1, 1, 2, 16, 3.5])
        m = r.choice([1, 2, r.randint(1, 20), r.randint(1, 150), r.choice([r.randint(150, 600), r.randint(600, 5000)])])
        extra = r.choice([0, 0, .3, -.3]) if m > 1 else 0
        w, h = r.randint(1, 14), r.randint(1, 14)
        if r.random() < .04:
            w, h = r.choice([(70, 3), (3, 70), (300, 2), (2, 300), (40, 35)])
        yield {'k': 'any', 'message': (m + extra) * size, 'packet': size, 'width': w, 'height': h}
    for _ in range(60 * f):
        size = r.choice([1, 2, 4])
        w, h = r.randint(1, 12), r.randint(1, 12)
        message = w * h
        if message % size:
            size = 1
        give = r.choice(['width', 'height'])
        if r.random() < .5:
            # to the nearest whole number
            k = {'width': w, 'height': h}[give]
            message += r.randint(-((k - 1) // 2), (k - 1) // 2)
            if message < size:
                message = w * h
            if message % size:
                size = 1
        yield {'k': 'one of the sizes', 'message': message, 'packet': size, 'width': w, 'height': h, 'give': give}
    for _ in range(3):
        yield {'k': 'none of the sizes', 'message': r.randint(4, 40), 'packet': 2, 'width': 1, 'height': 1, 'give': 'none'}


def observe(c):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum as build
    give = c.get('give', 'both')
    args = {'data_' + k: c[k] for k in ('width', 'height') if give in (k, 'both')}
    given = []
    for _ in range(2):
        rows, refused = raised(build, c['message'], c['packet'], **args)
        given.append([] if refused else [[num(x) for x in row] for row in rows])
        spoil(rows)
    return {'refused': refused, 'unknown': give == 'none', 'packets': round(c['message'] / c['packet']), 'width': c['width'], 'height': c['height'],
            'rows': given[0], 'again': given[1]}
