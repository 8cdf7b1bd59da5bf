"""P33: graphs drawn in the dot language."""
import random
import re

from vf import prog
from vf.props import p18, p21

SPEC = 'DrawTrace'
MC = {'quick': [{'module': 'DrawMC', 'cfg': 'DrawMC_q.cfg', 'workers': 2}], 'thorough': [{'module': 'DrawMC', 'cfg': 'DrawMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The texts of nodes are theirs only, with no backslashes or ends of line', 'Hypergraphs have no hyperedge named as a node',
               'Attributes, labels and weights are words, numbers or texts with no backslashes']
KINDS = ['block', 'root', 'cond', 'unknown', 'end']
TEXTS = ['a', 'b', 'c', 'a-b', 'b-c', 'a-b-c', 'b-', '-c', '1', '2', '1-2', '2-1', '12', 'x:y', 'x:z', 'x', ':', 'node', 'edge', 'graph', 'subgraph', 'strict', 'digraph',
         'say "hi"', '"a"', ' ', ' a', 'a b', '<5>', '<b>', 'a;b', 'a,b', '{a}', 'a->b', 'a--b', '[r0]', '[r0:0x40]', '#1', '//', '/*', '1a', '1.5', '-3', '-', '--', '->', '{', '}',
         'a->c', 'mov r0, #1', "'", '=', '(1, 0)', '(1', ' 0)', 'tab\there', 'Node', 'é', '5-vld1.32\t{d16}, [r0:0x40]', '']
VALUES = ['red', 'box', '1', '2.5', '-3', 'a b', 'say "hi"', 'a:b', 'a-b', 'x,y', 'x;y', '#ff0000', '[', '=', '->', 'a b "c" d']


def cases(tier, seed, scratch):
    r = random.Random('P33 %d' % seed)
    f = 1 if tier == 'quick' else 8

    def attrs(p):
        return [[k, r.choice(VALUES)] for k in r.sample(['color', 'shape', 'tooltip', 'style'], r.randint(1, 3))] if r.random() < p else []
    for n in range(260 * f):
        few = r.random() < .5
        names = r.sample(TEXTS[:12] if few else TEXTS, r.randint(1, 8)) if n % 65 else r.sample(TEXTS, 30) + ['n%d' % i for i in range(r.choice([10, 80, 130]))]
        if r.random() < .2:
            names += [r.choice([7, 8, 99]), [1, 0], [1, 1], [16, 2]]
            names = list({str(named(x)): x for x in names}.values())
        directed = r.random() < .6
        m = r.choice([0, 1, 3, r.randint(0, 14), r.randint(0, 30)]) if n % 65 else 200
        edges = {}
        for _ in range(m):
            a, b = r.randrange(len(names)), r.randrange(len(names))
            if directed or (b, a) not in edges:
                edges[a, b] = {'label': r.choice(['', '', r.choice(VALUES)]), 'weight': r.choice([1, 1, 2, 10, 0]), 'attrs': attrs(.2)}
        yield {'k': 'directed' if directed else 'undirected', 'names': names, 'nattrs': [attrs(.2) for _ in names], 'edges': [[a, b, e] for (a, b), e in edges.items()],
               'weighted': r.random() < .4, 'cost': 2}
    for n in range(60 * f):
        names = r.sample(TEXTS, r.randint(2, 12) if n % 30 else 35)
        k = r.randint(1, len(names) - 1) if r.random() < .8 else len(names)
        links = [[h, v] for h in range(k, len(names)) for v in range(k) if r.random() < .5]
        yield {'k': 'hyper', 'names': names, 'first': k, 'links': links, 'colored': r.random() < .5, 'cost': 2}
    for n in range(2 * f):       # more hyperedges than colors
        names = r.sample(TEXTS, 40)
        k = r.randint(2, 8)
        yield {'k': 'hyper', 'names': names, 'first': k, 'links': [[h, v] for h in range(k, len(names)) for v in range(k) if r.random() < .3], 'colored': True, 'cost': 4}
    for n in range(140 * f):
        m = r.choice([1, 2, 3, r.randint(3, 10), r.randint(5, 25)]) if n % 70 else 50
        few = r.random() < .6
        words = [p21.instruction(r, m, i, few) for i in range(m)]
        if r.random() < .3:
            words[r.randrange(m)] = r.choice([0xf460079f, 0xf421070d, p18.one(r), words[0]])
        yield {'k': 'flow', 'words': words, 'plain': r.random() < .3, 'printed': r.random() < .2, 'base': r.choice([0, 0x8000, 0x10400]), 'weighted': r.random() < .1, 'cost': 2 + m / 5}
        yield {'k': 'values', 'words': words, 'plain': r.random() < .5, 'weighted': r.random() < .1, 'cost': 2 + m / 5}


TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(->|--|[{}\[\];,=:])|([A-Za-z_\u0080-\uffff][\w\u0080-\uffff]*|-?(?:\.\d+|\d+(?:\.\d*)?))|(<))', re.S)
WORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')


class NotDot(Exception):
    pass


def tokens(text):
    """Tokens of the language: ('id', text), ('word', ...) for its keywords, or its symbols"""
    at, res = 0, []
    text = text.rstrip()
    while at < len(text):
        m = TOKEN.match(text, at)
        if not m:
            raise NotDot('cannot read %r' % text[at:at + 30])
        at = m.end()
        if m.group(1) is not None:
            res.append(('id', m.group(1)[1:-1].replace('\\"', '"')))
        elif m.group(2):
            res.append((m.group(2), ''))
        elif m.group(3):
            w = m.group(3)
            res.append(('word', w.lower()) if w.lower() in WORDS else ('id', w))
        else:                                # a text in HTML, up to its end
            depth, start = 1, at
            while depth:
                if at == len(text):
                    raise NotDot('html does not end')
                depth += {'<': 1, '>': -1}.get(text[at], 0)
                at += 1
            res.append(('html', text[start - 1:at]))
    return res


def read(text):
    """(type, nodes, edges) that the text has, as the language says"""
    ts = tokens(text) + [('', '')] * 3
    at = 0

    def take(*kinds):
        nonlocal at
        if ts[at][0] not in kinds:
            raise NotDot('%r instead of %r' % (ts[at], kinds))
        at += 1
        return ts[at - 1][1]

    def name():
        n = take('id')
        if ts[at][0] == ':':
            raise NotDot('port of %r' % n)
        return n

    def attributes():
        nonlocal at
        res = []
        while ts[at][0] == '[':
            at += 1
            while ts[at][0] != ']':
                k = take('id', 'word')
                take('=')
                res.append([k, take('id')])
                if ts[at][0] in (',', ';'):
                    at += 1
            at += 1
        return sorted(res)
    kind = take('word')
    if ts[at][0] == 'id':
        at += 1
    take('{')
    nodes, edges = [], []
    while ts[at][0] != '}':
        if ts[at][0] == ';':                # an empty statement
            at += 1
            continue
        a = name()
        if ts[at][0] in ('->', '--'):
            if (ts[at][0] == '->') != (kind == 'digraph'):
                raise NotDot('edge of another kind of graph')
            at += 1
            b = name()
            edges.append({'from': a, 'to': b, 'attrs': attributes()})
        else:
            nodes.append({'name': a, 'attrs': attributes()})
    at += 1
    if ts[at] != ('', ''):
        raise NotDot('more after the end')
    return kind, nodes, edges


class Printer(object):
    def print(self, node):
        return '<<%d>>' % node.idx


def named(n):
    return tuple(n) if isinstance(n, list) else n


def observe(c):
    rec = {'raised': False, 'readable': True, 'weighted': bool(c.get('weighted')), 'directed': c['k'] != 'undirected', 'tags': []}
    from libs.dot.dotio import write, write_hypergraph
    try:
        if c['k'] in ('directed', 'undirected'):
            from pygraph.classes.digraph import digraph
            from pygraph.classes.graph import graph
            g = digraph() if c['k'] == 'directed' else graph()
            names = [named(n) for n in c['names']]
            for n, a in zip(names, c['nattrs']):
                g.add_node(n, [tuple(x) for x in a])
            for a, b, e in c['edges']:
                g.add_edge((names[a], names[b]), wt=e['weight'], label=e['label'], attrs=[tuple(x) for x in e['attrs']])
            text = write(g, c['weighted'])
            nodes = [{'name': str(n), 'attrs': sorted(a)} for n, a in zip(names, c['nattrs'])]
            edges = [{'from': str(names[a]), 'to': str(names[b]), 'label': e['label'], 'weight': str(e['weight']), 'attrs': sorted(e['attrs'])} for a, b, e in c['edges']]
            if len({(str(names[a]) + '-' + str(names[b])) for a, b, e in c['edges']}) < len(c['edges']):
                rec['tags'].append('names joined are the same')
        elif c['k'] == 'hyper':
            from pygraph.classes.hypergraph import hypergraph
            g = hypergraph()
            g.add_nodes(c['names'][:c['first']])
            g.add_hyperedges(c['names'][c['first']:])
            for h, v in c['links']:
                g.link(c['names'][v], c['names'][h])
            text = write_hypergraph(g, True) if c['colored'] else write(g)
            more = [['shape', 'point']] if c['colored'] else []
            nodes = [{'name': n, 'attrs': [['hyper_node_type', 'hypernode']] if i < c['first'] else [['hyper_node_type', 'hyperedge']] + more} for i, n in enumerate(c['names'])]
            edges = [{'from': c['names'][h], 'to': c['names'][v], 'label': '', 'weight': '1', 'attrs': []} for h, v in c['links']]
        else:
            from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
            from semantic_codec.static_analysis.ssa import SSAFormBuilder
            insts = [prog.caps(w, c.get('base', 0) + 4 * i) for i, w in enumerate(c['words'])]
            cfg = ARMControlFlowGraph(insts)
            if c.get('printed'):
                cfg.node_printer = Printer()
            cfg.build()
            if c['plain']:
                cfg.remove_conditionals()
            g = cfg
            if c['k'] == 'values':
                g = SSAFormBuilder(insts, cfg, cfg.root_node).build()
            text = write(g, c['weighted'])
            nodes = [{'name': str(n), 'attrs': []} for n in g.nodes()]
            edges = [{'from': str(a), 'to': str(b), 'label': '', 'weight': '1', 'attrs': []} for a, b in g.edges()]
            if c['k'] == 'flow':
                d = cfg.get_dict_nodes()
                rec['printed'] = c['printed']
                rec['blocks'] = [{'idx': b.idx, 'kind': KINDS[[b.BLOCK, b.ROOT, b.COND, b.UNKNOWN_BRANCH, b.END].index(b.kind)], 'size': len(b.instructions), 'text': str(b),
                                  'found': d.get(b.idx) is b and len(d) == len(g.nodes()),
                                  'first': str(b.instructions[0]) if b.instructions else '', 'last': str(b.instructions[-1]) if b.instructions else ''} for b in g.nodes()]
        rec.update(nodes=nodes, edges=edges)
        try:
            kind, dnodes, dedges = read(text)
        except NotDot as e:
            rec.update(readable=False, show=str(e) + '\n' + text[:800])
            kind, dnodes, dedges = '', [], []
        if c['k'] == 'hyper' and c['colored']:
            n = len(c['names']) - c['first']
            colours = {a[1] for d in dnodes for a in d['attrs'] if a[0] == 'color'}
            rec['readable'] = rec['readable'] and len(colours) == min(n, max(len(colours), 20))
            for d in dnodes:
                d['attrs'] = [a for a in d['attrs'] if a[0] != 'color']
        rec.update(type=kind, dnodes=dnodes, dedges=dedges)
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:200])
    return rec
