"""P21: static single assignment and the dependencies of values."""
import random

from vf import prog
from vf.props import p18, p19
from vf.util import num

SPEC = 'SsaTrace'
MC = {'quick': [{'module': 'SsaMC', 'cfg': 'SsaMC_q.cfg'}],
      'thorough': [{'module': 'SsaMC', 'cfg': 'SsaMC_q.cfg'}, {'module': 'SsaMC', 'cfg': 'SsaMC_t.cfg', 'workers': 4, 'heap': '6g'}]}
ASSUMPTIONS = ['Nothing comes back to the root', 'Which storages an instruction reads and writes is what it says (P18)']


def instruction(r, n, at, few):
    cond = r.choice([14, 14, 14, 0, 1]) << 28
    x = r.random()
    top = 1 if few else 3
    a, b, c = (r.randint(0, top) for _ in range(3))
    if x < .42:
        return cond | 0x0800000 | a << 16 | b << 12 | c
    if x < .52:
        return cond | 0x3a00000 | a << 12
    if x < .62:
        return cond | r.choice([0x5900000, 0x5800000]) | a << 16 | b << 12
    if x < .68:
        return cond | r.choice([0x92d0003, 0x8bd0003, 0x891000c, 0x1500000 | a << 16 | b, 0x92d4010])
    if x < .92:
        return p19.b(cond >> 28, at, r.randrange(n), r.random() < .15)
    return cond | r.choice([0x12fff1e, 0x8bd8010, 0xafffff0])


def cases(tier, seed, scratch):
    r = random.Random('P21 %d' % seed)
    f = 1 if tier == 'quick' else 10
    for k in range(330 * f):
        n = r.choice([1, 2, 3, 4, r.randint(3, 8), r.randint(5, 22)]) if k % 110 else r.choice([40, 60])
        few = r.random() < .6
        yield {'k': 'program', 'words': [instruction(r, n, i, few) for i in range(n)], 'plain': r.random() < .3, 'before': r.choice([0, 0, 0, 1, 2, 3]),
               'cost': 1 + n * n / 10}
    for _ in range(40 * f):
        n = r.randint(2, 12)
        yield {'k': 'any words', 'words': [p18.one(r) for _ in range(n)], 'plain': r.random() < .3, 'cost': 1 + n * n / 10}
    for _ in range(30 * f):
        es = prog.encodings(r.choice(prog.DISAM))
        n = r.randint(2, 22)
        at = r.randrange(len(es) - n)
        yield {'k': 'part of a program', 'words': es[at:at + n], 'plain': r.random() < .3, 'cost': 1 + n * n / 10}
    for _ in range(12 * f):      # many variables, in a block and from several to another
        ways = r.randint(2, 3)
        regs = r.sample(list(range(13)) + [14], r.choice([10, 13, 14, 14, 14]))
        wide = r.choice([0xe8900000, 0xe8900000, 0xe8b00000, 0xe8bd0000, 0xe92d0000, 0xe8800000])
        def all_of():
            return [wide | r.randrange(13) << 16 | r.choice([0x5ffe, 0x1fff, 0x5fff, 0x5fff])] if r.random() < .4 else [0xe3a00000 | x << 12 for x in r.sample(regs, len(regs))]
        blocks = [[]] + [all_of() for _ in range(ways)] + [[0xe0800000 | r.choice(regs) << 16 | x << 12 | r.choice(regs) for x in r.sample(regs, len(regs))], all_of()]
        if r.random() < .6:      # all are written again before they are read
            blocks.insert(-1, blocks[-2])
            blocks[-3] = [0xe3a00000 | x << 12 for x in r.sample(regs, len(regs) - r.choice([0, 0, 1, 2]))]
            blocks.pop()
        n = len(blocks)
        edges = [[1, i] for i in range(2, ways + 2)] + [[i, n - 1] for i in range(2, ways + 2)] + [[n - 1, n]] + ([[n - 1, 2]] if r.random() < .4 else [])
        yield {'k': 'many variables', 'before': 0, 'n': n, 'edges': edges, 'blocks': blocks, 'ends': [], 'shuffle': r.getrandbits(16), 'cost': 20}
    for _ in range(6 * f):       # a block that goes to many, which others go to as well
        m = r.choice([8, 18, 24])
        n = m + 3
        edges = [[1, 2], [1, 3]] + [[x, z] for x in (2, 3) for z in range(4, n + 1)] + [[z, r.randint(2, n)] for z in range(4, n + 1) if r.random() < .1]
        blocks = [[]] + [[instruction(r, 4, 0, True) & 0x0fffffff | 0xe0000000 for _ in range(2)] for _ in range(2)]
        blocks += [[0xe0800000 | r.randrange(2) << 16 | r.randint(0, 3) << 12 | r.randrange(2)] for _ in range(m)]
        yield {'k': 'wide graph', 'before': 0, 'n': n, 'edges': [list(e) for e in dict.fromkeys(map(tuple, edges))], 'blocks': blocks, 'ends': [], 'shuffle': r.getrandbits(16), 'cost': 1 + n * n / 3}
    for k in range(220 * f):
        n = r.choice([2, 3, 4, 5, r.randint(3, 10)]) if k % 73 else r.choice([18, 30])
        names = list(range(2, n + 1))
        edges = set()
        if r.random() < .7:
            edges = {(i, i + 1) for i in range(1, n) if r.random() < .8}
        for _ in range(r.randint(1, 2 * n)):
            edges.add((r.randint(1, n), r.choice(names)))
        few = r.random() < .7
        blocks = [[instruction(r, 4, 0, few) & 0x0fffffff | 0xe0000000 for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(n)]
        blocks[0] = []
        edges = [list(e) for e in edges]
        r.shuffle(edges)
        ends = [x for x in (r.choice(names),) if r.random() < .3 and not any(e[0] == x for e in edges)]
        for x in ends:
            blocks[x - 1] = []
        yield {'k': 'graph', 'before': r.choice([0, 0, 1]), 'n': n, 'edges': edges, 'blocks': blocks, 'ends': ends, 'shuffle': r.getrandbits(16), 'cost': 1 + n * n / 3}


def observe(c):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    if 'words' in c:
        p = [prog.caps(w, p19.BASE + 4 * i) for i, w in enumerate(c['words'])]
        if c.get('before') == 2:     # the same instructions, in another graph
            g = ARMControlFlowGraph(p)
            g.build()
            SSAFormBuilder(p, g, g.root_node).build()
        g = ARMControlFlowGraph(p)
        g.build()
        if c.get('before') == 3:     # before the conditionals are removed, if they are
            SSAFormBuilder(p, g, g.root_node).build()
        if c['plain']:
            g.remove_conditionals()
        root = g.root_node
    else:
        p, nodes = [], []
        g = ARMControlFlowGraph([])
        for i, ws in enumerate(c['blocks']):
            insts = [x for x in (prog.caps(w, 0x1000 + 64 * i + 4 * k) for k, w in enumerate(ws)) if not x.is_undefined]
            p += insts
            kind = CFGBlock.ROOT if i == 0 else CFGBlock.END if i + 1 in c['ends'] else CFGBlock.BLOCK if insts else CFGBlock.COND
            nodes.append(CFGBlock(insts, kind=kind))
            nodes[-1].idx = i + 1
        order = list(nodes)
        random.Random(c['shuffle']).shuffle(order)
        for n in order:
            g.add_node(n)
        for a, z in c['edges']:
            g.add_edge((nodes[a - 1], nodes[z - 1]))
        root = nodes[0]
    if c.get('before') == 1:
        SSAFormBuilder(p, g, root).build()
    nodes = list(g)
    name = {id(n): i + 1 for i, n in enumerate(nodes)}
    edges = [[name[id(a)], name[id(z)]] for a, z in g.edges()]
    blocks = [[i for i in n.instructions] for n in nodes]
    rec = {'j': 'ssa', 'n': len(nodes), 'edges': edges, 'root': name[id(root)], 'raised': False,
           'ends': [name[id(n)] for n in nodes if n.kind == CFGBlock.END], 'blocks': [[] for _ in nodes], 'phis': [[] for _ in nodes],
           'depNodes': [], 'depEdges': [], 'same': True, 'show': ' ; '.join('%08x' % i.encoding for i in p)[:500]}

    def names(xs):
        return [[num(v), num(i)] for v, i in xs]
    try:
        d = SSAFormBuilder(p, g, root).build()
        rec['blocks'] = [[{'reads': [num(x) for x in i.storages_read()], 'writes': [num(x) for x in i.storages_written()],
                           'ssaRead': names(i.ssa_read), 'ssaWritten': names(i.ssa_written)} for i in n.instructions] for n in nodes]
        rec['phis'] = [[{'name': names([k])[0], 'args': names(v)} for k, v in n.phi_functions.items()] for n in nodes]
        rec['depNodes'] = names(d.nodes())
        rec['depEdges'] = [[names([a])[0], names([z])[0]] for a, z in d.edges()]
        rec['same'] = sorted(edges) == sorted([name[id(a)], name[id(z)]] for a, z in g.edges()) and \
            all(len(n.instructions) == len(b) and all(x is y for x, y in zip(n.instructions, b)) for n, b in zip(nodes, blocks))
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:100] + ' ' + rec['show'])
    return rec
