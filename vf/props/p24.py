"""P24: how candidates are scored."""
import itertools
import random

from vf import prog
from vf.props import p09
from vf.util import num, raised

SPEC = 'RankingTrace'
MC = p09.MC
ASSUMPTIONS = ['Factors with few bits, whose products floating point numbers have exactly, are given to the score functions',
               'The statistics are those of the original program, and each original is a candidate at its address']
NAMES = ['pc', 'po', 'pcfg', 'pr', 'prd', 'pupo', 'pbd']
# of each kind: branch, pushpop, other, and what the recuperator gives to each one
GIVEN = {'branch': ['pc', 'po', 'pcfg', 'pbd'], 'pushpop': ['pc', 'po', 'pcfg', 'pupo'], 'other': ['pc', 'po', 'pcfg', 'pr', 'prd']}
SAMPLE = {'branch': [0xea000001, 0xe12fff1e, 0xebfffffe, 0x0a000000, 0xe8bd8010], 'pushpop': [0xe92d4010, 0xe8bd4010, 0xe92d4001],
          'other': [0xe1a00001, 0xe5901000, 0xe1500001, 0xe320f000]}


def cases(tier, seed, scratch):
    r = random.Random('P24 %d' % seed)
    f = 1 if tier == 'quick' else 8
    for _ in range(500 * f):
        kind = r.choice(sorted(GIVEN))
        names = [k for k in GIVEN[kind] if r.random() < .85]
        if kind == 'pushpop' and r.random() < .3:
            names.append('pr')
        if r.random() < .2:
            # what other kinds have does not count
            names = [k for k in NAMES if k in names or r.random() < .5]
        vals = r.choice([[16, 16, 16, 0], [16, 8, 4], list(range(17)), list(range(1, 16))])
        yield {'k': 'score of a ' + kind, 'kind': kind, 'factors': [[k, r.choice(vals)] for k in names],
               'word': r.choice(SAMPLE[kind]), 'discarded': r.random() < .15}
    for _ in range(30 * f):
        kind = r.choice(sorted(GIVEN))
        yield {'k': 'invalid', 'kind': kind, 'factors': [[k, 16] for k in GIVEN[kind]], 'word': r.choice(SAMPLE[kind]),
               'which': r.choice(GIVEN[kind]), 'value': r.choice([17, 32, -1, -16])}
    n = 0
    for c in itertools.chain((p09.long(r, 'factors') for _ in range(3 * f)), p09.cases(tier, seed + 7000, scratch, 'factors')):
        n += 1
        if n > 220 * f:
            break
        c['k'] = 'factors' if n % 3 else 'counting rules'
        c['rule'] = r.choice(['condition', 'operation', 'registers'])
        # some were discarded before, sometimes all but the original
        c['discarded'] = []
        if n % 4 < 2:
            # branches to somewhere near, the first address among others
            for a, ws in zip(c['addrs'], c['words']):
                if r.random() < .5:
                    to = r.choice([c['addrs'][0], r.choice(c['addrs']), a + 4 * r.randint(-9, 9)])
                    w = 0x0a000000 | r.choice([0, 1, 14]) << 28 | ((to - a - 8) >> 2 & 0xffffff)
                    if w not in ws:
                        ws.insert(r.randint(0, len(ws)), w)
        if n % 2:
            for a, (ws, o) in enumerate(zip(c['words'], c['orig'])):
                much = r.choice([0, .3, 1])
                c['discarded'].append([j for j, w in enumerate(ws) if w != o and r.random() < much])
        yield c


def view(i):
    if i.ignore:
        return {'undef': True, 'cond': -1, 'op': -1, 'stor': [], 'regs': [], 'free': False, 'pc': -1, 'po': -1, 'pr': -1, 'branch': False,
                'known': False, 'to': 0, 'pbd': -1}
    to = i.jumping_address
    return {'undef': False, 'cond': num(i.conditional_field), 'op': num(i.opcode_field), 'stor': [num(x) for x in i.storages_used()],
            'regs': [num(x) for x in i.registers_used()], 'free': bool(i.is_branch or i.is_push_pop), 'pc': -1, 'po': -1, 'pr': -1,
            'branch': bool(i.is_branch), 'known': to is not None, 'to': num(to or 0), 'pbd': -1}


def millionths(v):
    return num(round(v * 1000000))


def observe(c):
    from semantic_codec.metadata import recuperator as m
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    if 'factors' in c:
        i = prog.caps(c['word'], 0x8000)
        if c.get('discarded'):
            i.ignore = True
        given = {k: v / 16 for k, v in c['factors']}
        if c['k'] == 'invalid':
            given[c['which']] = c['value'] / 16
            return {'j': 'invalid', 'raised': raised(m.probabilistic_rules, given, i)[1]}
        return {'j': 'score', 'kind': c['kind'], 'discarded': bool(c.get('discarded')), 'factors': c['factors'],
                'final': num(m.probabilistic_rules(given, i) * 16 ** 5),
                'removing': num(m.probabilistic_rules_remove_step(given, i) * 16 ** 5)}
    original = [prog.caps(o, a) for o, a in zip(c['orig'], c['addrs'])]
    program = prog.build(c['words'], c['addrs'])
    views = {a: [view(prog.caps(w, a)) for w in ws] for a, ws in zip(c['addrs'], c['words'])}
    for a, o, js in zip(c['addrs'], original, c['discarded']):
        if not o.ignore:
            for j in js:
                program[a][j].ignore = True
                views[a][j] = view(program[a][j])
    collector = MetadataCollector()
    collector.collect(original)
    rec = {'j': 'counting' if c['k'] == 'counting rules' else 'factors', 'addrs': c['addrs'], 'fns': [[k, e] for k, s, e in c['fns']],
           'orig': [views[a][ws.index(o)] for a, ws, o in zip(c['addrs'], c['words'], c['orig'])],
           'program': [views[a] for a in c['addrs']], 'raised': False, 'scores': [], 'rule': c['rule']}
    try:
        if rec['j'] == 'counting':
            from semantic_codec.metadata.probabilistic_rules import counting_rules as cr
            kind = {'condition': cr.ConditionalCount, 'operation': cr.InstructionCount, 'registers': cr.RegisterCount}[c['rule']]
            rule = kind(program, collector=collector)
            for a in c['addrs']:
                rule.recover(a)
            rec['scores'] = [[millionths(i.score()) for i in program[a]] for a in c['addrs']]
        else:
            r = m.ProbabilisticRecuperator(collector, program, functions={k: (s, e) for k, s, e in c['fns']})
            r.passes = 1
            r.recover()
            for a in c['addrs']:
                for i, v in zip(program[a], views[a]):
                    for k in ('pc', 'po', 'pr', 'pbd'):
                        if k in i.scores_by_rule:
                            v[k] = millionths(i.scores_by_rule[k])
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:200])
    return rec
