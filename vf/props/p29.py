"""P29: how candidates are weighed by what is around them."""
import random

from vf import prog
from vf.props import p09
from vf.util import num

SPEC = 'NeighboursTrace'
MC = {'quick': [{'module': 'NeighboursMC', 'cfg': 'NeighboursMC_q.cfg'}],
      'thorough': [{'module': 'NeighboursMC', 'cfg': 'NeighboursMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Instructions are at multiples of four', 'What each instruction reads, writes and is, is what it says (P18)',
               'For instructions that read several storages, the distance of any of them may count']
FLAGS = [0xe1500001, 0xe3530000, 0xe2522001, 0x01510002, 0xe3110001, 0xe0933004]
CONDITIONAL = [0x03a00001, 0x13a00000, 0xb1a01002, 0xc2822001, 0x0a000001, 0x1afffffe, 0x05901000, 0x11500001, 0x08bd8010, 0x12555001]
STACK = [0xe92d4010, 0xe8bd8010, 0xe92d4070, 0xe8bd8070, 0xe8bd4010, 0xe92d0030, 0xe8bd0030, 0xe92d4008, 0xe8bd8008, 0xe52de004,
         0xe49df004, 0xe8bd4070, 0xe92d4ff0, 0xe8bd8ff0]
BRANCHES = [0xe12fff1e, 0xea000001, 0x1afffffe, 0xebfffffe]
PLAIN = [0xe1a00001, 0xe0810002, 0xe5901000, 0xe5801000, 0xe3a03005, 0xe12fff1e, 0xebfffffe, 0xea000001, 0xe320f000, 0xe0020391,
         0xe1a01312, 0xe8910006, 0xe7921003, 0]


def cases(tier, seed, scratch):
    r = random.Random('P29 %d' % seed)
    f = 1 if tier == 'quick' else 8
    for _ in range(4 * f):
        yield extend(r, p09.long(r, 'programs'))
    n = 0
    for c in p09.cases(tier, seed + 2900, scratch, 'programs'):
        n += 1
        if n > 120 * f:
            break
        yield extend(r, c)
    for _ in range(240 * f):
        n = r.randint(2, 12)
        pools = r.choice([[FLAGS, CONDITIONAL, PLAIN], [STACK, PLAIN], [FLAGS, CONDITIONAL, STACK, PLAIN], [CONDITIONAL, FLAGS], [STACK]])
        few = [r.choice(r.choice(pools)) for _ in range(r.choice([3, 6, 12]))]
        words = []
        for k in range(n):
            w = r.choice(few)
            x = r.random()
            if x < .3:
                ws = [w]
            elif x < .6:
                ws = p09.lost(r, w, r.sample(r.choice([range(32), range(16), range(28, 32)]), r.randint(1, 3)))
            else:
                ws = list(dict.fromkeys([w] + [r.choice(few) for _ in range(r.randint(1, 4))]))
                r.shuffle(ws)
            words.append(ws)
        addrs, a = [], r.choice([0, 0x8000])
        for _ in range(n):
            addrs.append(a)
            a += 4 if r.random() < .95 else 4 * r.randint(2, 5)
        yield extend(r, {'k': 'neighbours', 'orig': [r.choice(ws) for ws in words], 'words': words, 'addrs': addrs,
                         'fns': [[k, v[0], v[1]] for k, v in p09.functions(r, addrs).items()],
                         'shuffle': r.random() < .3, 'seed': r.getrandbits(20), 'cost': 5 + sum(map(len, words))})
    # Many candidates
    for _ in range(30 * f):
        n = r.randint(2, 5)
        words = []
        for k in range(n):
            w = r.choice(r.choice([FLAGS, CONDITIONAL, PLAIN]))
            ws = p09.lost(r, w, r.sample(r.choice([range(12, 20), range(0, 24), range(12, 32), range(28, 32)]), 4)) if r.random() < .8 else [w]
            ws += [r.choice(r.choice([FLAGS, CONDITIONAL, PLAIN, STACK])) for _ in range(r.choice([0, 4, 12]))]
            r.shuffle(ws)
            words.append(list(dict.fromkeys(ws)))
        addrs = list(range(0x8000, 0x8000 + 4 * n, 4))
        yield extend(r, {'k': 'many candidates', 'orig': [r.choice(ws) for ws in words], 'words': words, 'addrs': addrs,
                         'fns': [[0x8000, 0x8000, addrs[-1]]], 'shuffle': False, 'seed': 1, 'cost': 5 + sum(map(len, words))})
    # Functions that push at the beginning, with few branches and pops at a few places
    pushes, pops = [w for w in STACK if (w >> 16) in (0xe92d, 0xe52d)], [w for w in STACK if (w >> 16) in (0xe8bd, 0xe49d)]
    for t in range(80 * f):
        n = r.randint(2, 7) if t % 8 else r.choice([12, 25, 40])
        words = [r.sample(pushes, r.randint(2, 4))] + [[r.choice(PLAIN[:5])] for _ in range(n - 1)]
        for k in (n - 1, r.randrange(1, n), r.randrange(1, n)):
            words[k] = [r.choice(r.choice([pops, BRANCHES, PLAIN[:5]])) for _ in range(r.randint(1, 2))]
        if r.random() < .4:
            words.append([r.choice(BRANCHES)])        # of the next function
        if r.random() < .4:
            words.insert(0, [r.choice(pops + PLAIN)])       # of the one before
        at = next(k for k, ws in enumerate(words) if ws[0] in pushes)
        addrs = [0x100 + 4 * k for k in range(len(words))]
        fns = [[addrs[at], addrs[at], addrs[at + n - 1]]]
        if at + n < len(words):
            fns.append([addrs[at + n], addrs[at + n], addrs[-1]])
        yield extend(r, {'k': 'functions', 'orig': [ws[0] for ws in words], 'words': words, 'addrs': addrs, 'fns': fns,
                         'shuffle': False, 'seed': 1, 'cost': 5 + sum(map(len, words))})


    # What is read was written long before
    for _ in range(10 * f):
        n = r.choice([20, 45, 70])
        words = []
        for k in range(n):
            # storages that are written at a few places
            words.append([r.choice([0xe1530004, 0xe5843000, 0xe320f000, 0xea000001])] + ([0xe1540003] if r.random() < .1 else []))
        for _ in range(r.randint(1, 4)):
            k = r.randrange(n // 2)
            words[k] = [0xe3a00001 | r.choice([3, 4]) << 12] + r.choice([[], [0xe3a00001 | r.choice([3, 4, 5]) << 12], [0xe320f000]])
            words[k] = list(dict.fromkeys(words[k]))
        addrs = list(range(0x8000, 0x8000 + 4 * n, 4))
        c = extend(r, {'k': 'written long before', 'orig': [ws[0] for ws in words], 'words': words, 'addrs': addrs,
                       'fns': [[0x8000, 0x8000, addrs[-1]]], 'shuffle': False, 'seed': 1, 'cost': 5 + 3 * sum(map(len, words))})
        c['dist'] = [[s, lo, lo + r.choice([0, 3, 20, n])] for s in (3, 4, 16) for lo in [r.choice([0, 1, 8, 20, n // 2])]]
        yield c
    # Functions that push at their beginning and pop at the end about the same registers
    for _ in range(100 * f):
        s = sum(1 << x for x in r.sample(range(4, 12), r.randint(2, 3)))
        push = [0xe92d0000 | s | r.choice([0, 0, 1 << 14, 1 << r.randrange(4, 12), 1 << 3]) for _ in range(r.choice([1, 1, 2]))]
        pop = [0xe8bd0000 | s | r.choice([0, 1 << 14, 1 << 15, 3 << 14, 1 << r.randrange(4, 12)]) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .3:
            push.append(r.choice(PLAIN))
        if r.random() < .3:
            pop.append(r.choice(PLAIN))
        words = [list(dict.fromkeys(push)), [r.choice(PLAIN)]] + ([list(dict.fromkeys(pop)), [r.choice(BRANCHES)]]
                                                                 if r.random() < .4 else []) + [list(dict.fromkeys(pop))]
        addrs = [0x40 + 4 * k for k in range(len(words))]
        yield extend(r, {'k': 'matching', 'orig': [ws[0] for ws in words], 'words': words, 'addrs': addrs,
                         'fns': [[addrs[0], addrs[0], addrs[-1]]], 'shuffle': False, 'seed': 1, 'cost': 5 + sum(map(len, words))})


def extend(r, c):
    c['ignored'] = []
    if r.random() < .3:
        c['ignored'] = [[a, i] for a, ws in enumerate(c['words']) for i, _ in enumerate(ws) if r.random() < .15]
    c['dist'] = None
    if r.random() < .6:
        c['dist'] = []
        for s in range(17):
            if r.random() < .8:
                lo = r.choice([0, 0, 1, 2])
                c['dist'].append([s, lo, lo + r.choice([0, 0, 1, 2, 5])])
    return c


def view(i):
    v = {'undef': bool(i.ignore), 'cond': -1, 'flags': False, 'branch': False, 'push': False, 'pop': False, 'written': [], 'readregs': [],
         'swritten': [], 'sread': [], 'pcfg': -1, 'pupo': -1, 'prd': -1}
    if not i.ignore:
        v.update(cond=num(i.conditional_field), flags=bool(i.modifies_flags()), branch=bool(i.is_branch), push=bool(i.is_a('push')),
                 pop=bool(i.is_a('pop')), written=[num(x) for x in i.registers_written()], readregs=[num(x) for x in i.registers_read()],
                 swritten=[num(x) for x in i.storages_written()], sread=[num(x) for x in i.storages_read()])
    return v


def observe(c):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    original = [prog.caps(o, a) for o, a in zip(c['orig'], c['addrs'])]
    program = prog.build(c['words'], c['addrs'])
    views = [[view(prog.caps(w, a)) for w in ws] for a, ws in zip(c['addrs'], c['words'])]
    for a, i in c['ignored']:
        program[c['addrs'][a]][i].ignore = True
        views[a][i] = dict(view(program[c['addrs'][a]][i]))
    if c['shuffle']:
        keys = list(program)
        random.Random(c['seed']).shuffle(keys)
        program = {k: program[k] for k in keys}
    collector = MetadataCollector()
    collector.collect(original)
    if c['dist'] is not None:
        # as the statistics of another program
        for d, k in ((collector.storage_min_dist, 1), (collector.storage_max_dist, 2)):
            d.clear()
            d.update({x[0]: x[k] for x in c['dist']})
    dist = [[num(s), num(v), num(collector.storage_max_dist[s])] for s, v in sorted(collector.storage_min_dist.items())]
    rec = {'j': 'weights', 'addrs': c['addrs'], 'fns': [[k, e] for k, s, e in c['fns']], 'program': views, 'raised': False, 'dist': dist}
    try:
        r = ProbabilisticRecuperator(collector, program, functions={k: (s, e) for k, s, e in c['fns']})
        r.passes = 1
        r.recover()
        for a, vs in zip(c['addrs'], views):
            for i, v in zip(program[a], vs):
                for k in ('pcfg', 'pupo', 'prd'):
                    if k in i.scores_by_rule:
                        v[k] = num(round(i.scores_by_rule[k] * 1000000))
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:200])
    rec['tags'] = ['%s %s' % (k, 'set') for k in ('pcfg', 'pupo', 'prd') if any(v[k] >= 0 for vs in views for v in vs)]
    return rec
