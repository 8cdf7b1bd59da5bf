"""P19: the control flow graph has the flow of the program."""
import itertools
import random

from vf import prog
from vf.props import p18
from vf.util import num, s32

SPEC = 'FlowTrace'
MC = {'quick': [{'module': 'FlowMC', 'cfg': 'FlowMC_q.cfg'}, {'module': 'FlowMC', 'cfg': 'FlowMC_s.cfg'}],
      'thorough': [{'module': 'FlowMC', 'cfg': 'FlowMC_t.cfg', 'workers': 4}, {'module': 'FlowMC', 'cfg': 'FlowMC_l.cfg', 'workers': 4, 'heap': '6g'}]}
ASSUMPTIONS = ['Jumps do not go to undefined words', 'A run of instructions of the same condition is executed or skipped as a whole',
               'A branch with link comes back']
BASE = 0x1000


def b(cond, at, to, link):
    """A branch, by places in the program"""
    return (cond << 28) | (0xb000000 if link else 0xa000000) | ((to - at - 2) & 0xffffff)


def small(n):
    """What an instruction of a small program may be"""
    for cond in (14, 0, 1):
        yield ('plain', cond)
        yield ('return', cond)
        for link in (False, True):
            for to in range(n):
                yield (to, cond, link)
            yield (1000, cond, link)


def word(x, at):
    if x[0] == 'plain':
        return x[1] << 28 | 0x3a00000 | (at % 4) << 12
    if x[0] == 'return':
        return x[1] << 28 | 0x12fff1e
    return b(x[1], at, x[0], x[2])


def instruction(r, n, at, how):
    cond = r.choice([14, 14, 0, 1, 0, 10] if how != 'runs' else [0, 1])
    x = r.random()
    if x < .55:
        return cond << 28 | r.choice([0x3a00000, 0x3500000, 0x5900000, 0x0800000, 0x5800004]) | r.randint(0, 3) << 12
    if x < .80:
        return b(cond, at, r.randrange(n), False)
    if x < .88:
        return b(cond, at, r.randrange(n), True)
    if x < .92:
        return b(cond, at, r.choice([n, n + 1, -1, -5, 1000]), r.random() < .5)
    if how == 'undefined' and x < .96:
        return 0xffffffff
    return cond << 28 | r.choice([0x12fff1e, 0x12fff33, 0x8bd8000, 0x8bd8010, 0x1a0f00e, 0x891a800, 0x59ff004, 0x49df004, 0x08ff102])


def cases(tier, seed, scratch):
    r = random.Random('P19 %d' % seed)
    f = 1 if tier == 'quick' else 10
    for x in small(1):
        yield {'k': 'one instruction', 'words': [word(x, 0)], 'base': BASE}
    for xs in itertools.product(small(2), repeat=2):
        if r.random() < (.5 if tier == 'quick' else 1):
            yield {'k': 'two instructions', 'words': [word(x, i) for i, x in enumerate(xs)], 'base': BASE}
    three = list(small(3))
    for _ in range(400 * f):
        yield {'k': 'three instructions', 'words': [word(r.choice(three), i) for i in range(3)], 'base': BASE}
    for _ in range(300 * f):
        n = r.choice([4, 5, r.randint(4, 12), r.randint(8, 30)])
        how = r.choice(['any', 'any', 'runs', 'undefined'])
        ws = [instruction(r, n, i, how) for i in range(n)]
        if how == 'undefined':
            bad = {i for i, w in enumerate(ws) if w == 0xffffffff}
            for i, w in enumerate(ws):      # none goes to an undefined one
                if w != 0xffffffff and w >> 25 & 7 == 5 and (w + i + 2) & 0xffffff in bad:
                    ws[i] = w & 0xf0000000 | 0x3a00000
        c = {'k': 'more, ' + how, 'words': ws, 'base': r.choice([0, BASE, 0x8000]), 'before': r.random() < .2, 'cost': 1 + n * n / 50}
        yield c
        if how != 'undefined' and r.random() < .25:
            # only the first instructions of a program, none of them going to the others
            k = r.choice([1, 2, r.randint(1, 6)])
            ws = [w & 0xf0000000 | 0x3a00000 if w >> 25 & 7 == 5 and n <= (w + i + 2) & 0xffffff < n + k else w for i, w in enumerate(ws)]
            yield dict(c, k='the first of a program', words=ws, after=[instruction(r, n + k, n + i, 'any') for i in range(k)])
    for n in (70, 130) * f:
        how = r.choice(['any', 'runs'])
        yield {'k': 'many instructions', 'words': [instruction(r, n, i, how) for i in range(n)], 'base': BASE, 'cost': 1 + n * n / 50}
    for _ in range(60 * f):
        # many branches, to a few places
        n = r.randint(4, 14)
        to = [r.randrange(n) for _ in range(r.choice([1, 2, 2, 3]))]
        ws = [b(r.choice([14, 0, 1, 2, 3]), i, r.choice(to), False) if r.random() < .6 else instruction(r, n, i, 'any') for i in range(n)]
        yield {'k': 'few places to go to', 'words': ws, 'base': r.choice([0, BASE]), 'cost': 1 + n * n / 50}
    for _ in range(40 * f):
        # come to from several places, and then from further, to the middle
        before, t, after = r.randint(1, 5), r.randint(2, 5), r.randint(1, 4)
        n = before + t + after
        cond = r.choice([14, 14, 14, 0])
        ws = [b(r.choice([14, 0, 1, 2, 3]), i, before, False) if r.random() < .8 else instruction(r, n, i, 'any') for i in range(before)]
        ws += [word(('plain', cond), before + i) for i in range(t)]
        ws += [b(r.choice([14, 0, 1, 2]), before + t + i, before + r.randrange(t), r.random() < .2) for i in range(after)]
        yield {'k': 'to the middle', 'words': ws, 'base': r.choice([0, BASE]), 'cost': 1 + n * n / 50}
    for _ in range(50 * f):
        n = r.randint(2, 12)
        yield {'k': 'any words', 'words': [p18.one(r) for _ in range(n)], 'base': BASE, 'cost': 1 + n * n / 50}
    for _ in range(40 * f):
        es = prog.encodings(r.choice(prog.DISAM))
        n = r.randint(2, 40)
        at = r.randrange(len(es) - n)
        yield {'k': 'part of a program', 'words': es[at:at + n], 'base': r.choice([0, 0x8000]), 'cost': 1 + n * n / 50}


def graph(g, index):
    from semantic_codec.static_analysis.cfg import CFGBlock
    kinds = {CFGBlock.BLOCK: 'block', CFGBlock.ROOT: 'root', CFGBlock.COND: 'cond', CFGBlock.UNKNOWN_BRANCH: 'unknown', CFGBlock.END: 'end'}
    nodes = list(g)
    name = {id(n): k + 1 for k, n in enumerate(nodes)}
    return {'nodes': [{'kind': kinds[n.kind], 'insts': [index[id(i)] for i in n.instructions]} for n in nodes],
            'edges': sorted([name[id(a)], name[id(z)]] for a, z in g.edges())}


def observe(c):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    p = [prog.caps(w, c['base'] + 4 * i) for i, w in enumerate(c['words'])]
    defined = [i for i in p if not i.is_undefined]
    index = {id(i): n + 1 for n, i in enumerate(defined)}
    views = []
    for i in defined:
        to = i.jumping_address
        views.append({'word': s32(i.encoding), 'addr': i.address, 'cond': num(i.conditional_field), 'branch': bool(i.is_branch),
                      'link': bool(i.is_branch_with_link), 'known': to is not None, 'target': num(to or 0)})
    rec = {'j': 'cfg', 'program': views, 'raised': False, 'graph': {'nodes': [], 'edges': []}, 'without': {'nodes': [], 'edges': []},
           'same': True, 'show': ' ; '.join(str(i).replace('\t', ' ') for i in p)[:700]}
    count = len(p)
    p = p + [prog.caps(w, c['base'] + 4 * (count + i)) for i, w in enumerate(c.get('after', []))]
    given = list(p)
    try:
        if c.get('before'):
            ARMControlFlowGraph(p).build()
        g = ARMControlFlowGraph(p)
        if len(p) > count:
            g.build(count=count)
        else:
            g.build()
        rec['graph'] = graph(g, index)
        g.remove_conditionals()
        rec['without'] = graph(g, index)
        rec['same'] = len(p) == len(given) and all(x is y for x, y in zip(p, given)) and all(i.encoding == w for i, w in zip(p, c['words']))
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:100] + ' ' + rec['show'])
    return rec
