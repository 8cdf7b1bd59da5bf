"""P22: unions and intersections of independent events."""
import itertools
import random

from vf.util import num, raised

SPEC = 'UnionTrace'
MC = {'quick': [{'module': 'UnionMC', 'cfg': 'UnionMC_q.cfg'}], 'thorough': [{'module': 'UnionMC', 'cfg': 'UnionMC_t.cfg'}]}
ASSUMPTIONS = ['Probabilities with few bits, whose products floating point numbers have exactly; for others a millionth of difference or so is tolerated']


def cases(tier, seed, scratch):
    r = random.Random('P22 %d' % seed)
    for n in (1, 2, 3):
        for ps in itertools.product(range(5), repeat=n):
            for j in ('union', 'intersection'):
                yield {'k': j + ', all of a few', 'm': 4, 'ps': list(ps), 'exact': True}
    for _ in range(400 if tier == 'quick' else 4000):
        m, top = r.choice([(2, 12), (4, 11), (8, 9), (16, 7), (32, 5), (1024, 2)])
        n = r.randint(1, top)
        yield {'k': r.choice(['union', 'intersection']) + ', binary fractions', 'm': m, 'ps': [r.randint(0, m) for _ in range(n)],
               'exact': True, 'cost': 2 ** (n / 2)}
    for n in (10, 11, 12, 13, 14) if tier == 'quick' else range(10, 18):
        yield {'k': 'union, many', 'm': 2, 'ps': [r.choice([0, 1, 1, 1]) for _ in range(n - 2)] + [r.randint(0, 2), 1], 'exact': True, 'cost': 2 ** (n / 2)}
        yield {'k': 'union, many', 'm': 2, 'ps': [0] * (n - 1) + [r.randint(1, 2)], 'exact': True, 'cost': 2 ** (n / 2)}
        yield {'k': 'intersection, many', 'm': 2, 'ps': [2] * (n - 1) + [r.randint(0, 1)], 'exact': True}
    # rare and nearly certain events
    for _ in range(300 if tier == 'quick' else 3000):
        m, n = r.choice([(30, 1), (15, 2), (15, 2), (10, 3), (7, 4), (6, 5)])
        m = 1 << m
        yield {'k': r.choice(['union', 'intersection']) + ', extremes', 'm': m,
               'ps': [r.choice([0, 1, 1, 2, 3, r.randint(0, m), m - 1, m - 2, m]) for _ in range(n)], 'exact': True}
    for _ in range(200 if tier == 'quick' else 2000):
        n = r.randint(1, 4)
        yield {'k': r.choice(['union', 'intersection']) + ', hundredths', 'm': 100, 'ps': [r.randint(0, 100) for _ in range(n)],
               'exact': False}
    for _ in range(40):
        a = r.randint(-20, 20)
        yield {'k': 'uniform', 'a': a, 'b': a + r.randint(1, 50)}
    yield {'k': 'empty union'}


def observe(c):
    from semantic_codec.probability import probabilities as m
    if c['k'] == 'uniform':
        return {'j': 'uniform', 'result': num(round(m.uniform(c['a'], c['b']) * (c['b'] - c['a']) * 1000000))}
    if c['k'] == 'empty union':
        return {'j': 'empty', 'raised': raised(m.indep_events_union, [])[1]}
    ps = [p / c['m'] for p in c['ps']]
    given = list(ps)
    j = 'union' if c['k'].startswith('union') else 'intersection'
    v = (m.indep_events_union if j == 'union' else m.indep_intersection)(given)
    v *= c['m'] ** len(ps)
    return {'j': j, 'm': c['m'], 'ps': c['ps'], 'exact': c['exact'], 'result': num(v if c['exact'] else round(v)), 'same': given == ps}
