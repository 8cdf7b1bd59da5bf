"""P20: dominators and their frontiers."""
import random

from vf import prog
from vf.props import p19
from vf.util import raised

SPEC = 'DominanceTrace'
MC = {'quick': [{'module': 'DominanceMC', 'cfg': 'DominanceMC_q.cfg'}],
      'thorough': [{'module': 'DominanceMC', 'cfg': 'DominanceMC_q.cfg'}, {'module': 'DominanceMC', 'cfg': 'DominanceMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Graphs whose search does not exceed the recursion limit of Python']


def cases(tier, seed, scratch):
    r = random.Random('P20 %d' % seed)
    f = 1 if tier == 'quick' else 10
    # every graph of up to three nodes, from the first one
    batch = []
    for n in (1, 2, 3):
        for bits in range(1 << n * n):
            edges = [[i // n + 1, i % n + 1] for i in range(n * n) if bits >> i & 1]
            r.shuffle(edges)
            batch.append({'n': n, 'edges': edges, 'root': 1, 'shuffle': 0})
    r.shuffle(batch)
    for i in range(0, len(batch), 8):
        yield {'k': 'small graphs', 'graphs': batch[i:i + 8], 'cost': 2}
    for _ in range(150 * f):
        gs = []
        for _ in range(4):
            edges = [[a, z] for a in range(1, 5) for z in range(1, 5) if r.random() < r.choice([.3, .5])]
            r.shuffle(edges)
            gs.append({'n': 4, 'edges': edges, 'root': r.randint(1, 4), 'shuffle': r.getrandbits(16)})
        yield {'k': 'graphs of four', 'graphs': gs, 'cost': 2}
    for k in range(250 * f):
        n = r.choice([5, 6, 7, r.randint(5, 14), r.randint(10, 24)]) if k % 125 else r.choice([40, 70])
        edges = set()
        how = r.choice(['any', 'spine', 'spine', 'dag', 'sparse', 'ladder'])
        if how in ('spine', 'ladder'):
            edges = {(i, i + 1) for i in range(1, n)}
        for _ in range(r.randint(0, n) if how != 'any' else r.randint(n - 1, 2 * n)):
            a, z = r.randint(1, n), r.randint(1, n)
            if how == 'dag' and a > z:
                a, z = z, a
            if how == 'ladder':
                z = min(n, max(1, a + r.randint(-4, 4)))
            edges.add((a, z))
        names = list(range(1, n + 1))
        if r.random() < .6:
            r.shuffle(names)
        edges = [[names[a - 1], names[z - 1]] for a, z in sorted(edges)]
        r.shuffle(edges)
        yield {'k': 'graphs, ' + how, 'graphs': [{'n': n, 'edges': edges, 'root': names[0], 'shuffle': r.getrandbits(16)}], 'cost': 1 + n * n / 30}
    for _ in range(100 * f):
        # graphs whose dominators were computed before: from other roots, with other edges
        n = r.choice([2, 3, 4, 5, r.randint(3, 10)])
        edges = {(r.randint(1, n), r.randint(1, n)) for _ in range(r.randint(1, 2 * n))}
        if r.random() < .5:
            edges |= {(i, i + 1) for i in range(1, n)}
        before = []
        for _ in range(r.choice([1, 1, 2])):
            gone = [list(e) for e in edges if r.random() < r.choice([0, .2])]
            more = [[r.randint(1, n), r.randint(1, n)] for _ in range(r.choice([0, 0, 1, 2]))]
            before.append({'root': r.randint(1, n), 'gone': gone, 'more': [e for e in more if tuple(e) not in edges], 'frontier': r.random() < .7})
        edges = [list(e) for e in edges]
        r.shuffle(edges)
        yield {'k': 'computed before', 'graphs': [{'n': n, 'edges': edges, 'root': r.choice([before[-1]['root'], r.randint(1, n)]), 'shuffle': r.getrandbits(16),
                                                   'before': before}], 'cost': 1 + n * n / 20}
    for k in range(12 * f):
        # long ways with few branches, far from where they come together
        n = r.choice([20, 35, 50, 70, 90])
        way, edges = [[i, i + 1] for i in range(1, n)], []
        for _ in range(r.choice([1, 1, 2])):
            w = r.randint(3, n // 3)
            edges += [[r.randint(1, w - 2), r.randint(w + 1, n // 2)], [r.randint(n * 3 // 4, n), w]]
        for _ in range(r.choice([0, 0, 1, 3])):
            edges.append([r.randint(1, n), r.randint(1, n)])
        edges = [e for k, e in enumerate(edges) if e not in edges[:k] and e not in way]
        r.shuffle(edges)
        edges = way + edges if r.random() < .7 else edges + way
        names = list(range(1, n + 1))
        if r.random() < .5:
            r.shuffle(names)
        edges = [[names[a - 1], names[z - 1]] for a, z in edges]
        yield {'k': 'graphs, long', 'graphs': [{'n': n, 'edges': edges, 'root': names[0], 'shuffle': r.getrandbits(16)}], 'cost': 1 + n * n / 30}
    for k in range(8 * f):
        # a node that goes to many, or that many go to
        m = r.choice([10, 20, 34])
        n = m + r.choice([3, 4, 5])
        rest = list(range(m + 1, n + 1))
        edges = {(n, x) for x in rest[:-1]} | {(x, z) for x in rest[:-1] for z in range(1, m + 1) if r.random() < .9}
        edges |= {(n, z) for z in range(1, m + 1) if r.random() < .4} | {(z, r.choice(rest)) for z in range(1, m + 1) if r.random() < .3}
        names = list(range(1, n + 1))
        r.shuffle(names)
        edges = [[names[a - 1], names[z - 1]] for a, z in sorted(edges)]
        yield {'k': 'graphs, wide', 'graphs': [{'n': n, 'edges': edges, 'root': names[n - 1], 'shuffle': r.getrandbits(16)}], 'cost': 1 + n * n / 20}
    for i in range(80 * f):
        n = r.randint(2, 22) if i % 80 else 60
        yield {'k': 'control flow graph', 'words': [p19.instruction(r, n, j, 'any') for j in range(n)], 'before': r.choice([0, 0, 1, 2]), 'cost': 1 + n * n / 20}


def judge(nodes, g, root, build, name, refused):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    e = [[name[id(a)], name[id(z)]] for a, z in g.edges()]
    rec = {'n': len(nodes), 'edges': e, 'root': name[id(root)], 'raised': False, 'idom': [], 'tree': [], 'treeNodes': 0, 'children': [],
           'frontier': [], 'after': [], 'refused': refused, 'show': ''}
    try:
        t = build_dominator_tree(g, root)
        build(g)
        rec['idom'] = [0 if n.idom is None else name[id(n.idom)] for n in nodes]
        rec['tree'] = [[name[id(a)], name[id(z)]] for a, z in t.edges()]
        rec['treeNodes'] = len(t.nodes())
        rec['children'] = [[name[id(x)] for x in n.dom_successors] for n in nodes]
        rec['frontier'] = [[name[id(x)] for x in n.dom_frontier] for n in nodes]
        rec['after'] = [[name[id(a)], name[id(z)]] for a, z in g.edges()]
    except Exception as x:
        rec.update(raised=True, show=repr(x)[:200])
    return rec


def observe(c):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    out = []
    if 'words' in c:
        g = ARMControlFlowGraph([prog.caps(w, p19.BASE + 4 * i) for i, w in enumerate(c['words'])])
        g.build()
        nodes = list(g)
        refused = raised(build_dominance_frontier, g)[1]
        if c['before']:
            build_dominator_tree(g, g.root_node)
            build_dominance_frontier(g)
        if c['before'] == 2:
            g.remove_conditionals()
            nodes = list(g)
        out.append(judge(nodes, g, g.root_node, build_dominance_frontier, {id(n): i + 1 for i, n in enumerate(nodes)}, refused))
    for x in c.get('graphs', []):
        g = ARMControlFlowGraph([])
        nodes = [CFGBlock([], kind=CFGBlock.COND) for _ in range(x['n'])]
        order = list(nodes)
        if x['shuffle']:
            random.Random(x['shuffle']).shuffle(order)
        for n in order:
            g.add_node(n)
        for a, z in x['edges']:
            g.add_edge((nodes[a - 1], nodes[z - 1]))
        refused = raised(build_dominance_frontier, g)[1]
        for y in x.get('before', []):
            gone = [(nodes[a - 1], nodes[z - 1]) for a, z in y['gone']]
            more = [e for e in [(nodes[a - 1], nodes[z - 1]) for a, z in y['more']] if not g.has_edge(e)]
            for e in gone:
                g.del_edge(e)
            for k, e in enumerate(more):
                if e not in more[:k]:
                    g.add_edge(e)
            build_dominator_tree(g, nodes[y['root'] - 1])
            if y['frontier']:
                build_dominance_frontier(g)
            for k, e in enumerate(more):
                if e not in more[:k]:
                    g.del_edge(e)
            for e in gone:
                g.add_edge(e)
        out.append(judge(nodes, g, nodes[x['root'] - 1], build_dominance_frontier, {id(n): i + 1 for i, n in enumerate(nodes)}, refused))
    return {'j': 'dominance', 'graphs': out, 'show': ' '.join(x['show'] for x in out)[:300]}
