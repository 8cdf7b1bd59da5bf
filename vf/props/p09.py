"""P09: recovery never throws the original away. P10 shares the driver."""
import random

from vf import prog
from vf.util import num, s32

SPEC = 'RecoveryTrace'
MC = {'quick': [{'module': 'RecoveryMC', 'cfg': 'RecoveryMC_q.cfg'}, {'module': 'RecoveryMC', 'cfg': 'RecoveryMC_s.cfg'}],
      'thorough': [{'module': 'RecoveryMC', 'cfg': 'RecoveryMC_s.cfg'}, {'module': 'RecoveryMC', 'cfg': 'RecoveryMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The statistics are those of the original program, and each original is a candidate at its address',
               'What is not an instruction is never kept, be it the original']
CORNER = [0, 0xffffffff, 0xe320f000, 0xee010f10, 0xe92d4010, 0xe8bd8010, 0xe12fff1e, 0xe10f0000, 0xeafffffe, 0xe59ff004,
          0xe92d0001, 0xe8bd0001, 0xe1a0f00e, 0x0a000001, 0x03a00001, 0xe1500001, 0xe5801000]


def lost(r, o, bits):
    """All the ways of filling some bits"""
    res = [o]
    for b in bits:
        res += [x ^ (1 << b) for x in res]
    r.shuffle(res)
    return res


def functions(r, addrs):
    how = r.choice(['none', 'all', 'some', 'some', 'odd'])
    if how == 'none' or not addrs:
        return {}
    cuts = [0]
    if how != 'all':
        cuts += [i for i in range(1, len(addrs)) if r.random() < .25]
    fns = {}
    for i, at in enumerate(cuts):
        end = (cuts[i + 1] if i + 1 < len(cuts) else len(addrs)) - 1
        fns[addrs[at]] = [addrs[at], addrs[end]]
    if how == 'odd':
        for k in list(fns):
            x = r.random()
            if x < .3:
                del fns[k]
            elif x < .5:
                fns[k][1] += 4 * r.randint(1, 5)
            elif x < .7:
                fns[k + 2 * r.randint(1, 3)] = fns.pop(k)
    return fns


def cases(tier, seed, scratch, kind='recovery'):
    r = random.Random('P09 %d %s' % (seed, kind))
    f = 1 if tier == 'quick' else 8
    for _ in range((6 if kind == 'passes' else 2 if kind == 'recovery' else 0) * f):
        yield long(r, kind)
    for _ in range(300 * f):
        es = prog.encodings(r.choice(prog.DISAM))
        n = r.choice([1, 2, 3, r.randint(2, 8), r.randint(4, 14)])
        how = r.choice(['slice', 'slice', 'few', 'few', 'corner', 'words'])
        if how == 'slice':
            at = r.randrange(0, len(es) - n)
            orig = es[at:at + n]
        elif how == 'few':
            pool = [r.choice(es) for _ in range(r.randint(1, 4))]
            orig = [r.choice(pool) ^ (r.choice([0, 0, 1, 0x1000, 0x10000])) for _ in range(n)]
        elif how == 'corner':
            orig = [r.choice(CORNER) for _ in range(n)]
        else:
            orig = [r.choice([r.getrandbits(32), r.choice(es)]) for _ in range(n)]
        common = r.sample(range(32), r.randint(1, 3))
        words = []
        for o in orig:
            x = r.random()
            if x < .25:
                cs = [o]
            elif x < .6:
                cs = lost(r, o, common if r.random() < .7 else r.sample(range(32), r.randint(1, 3)))
            elif x < .8:
                cs = lost(r, o, [r.choice([28, 29, 30, 31]), r.choice([20, 21, 22, 23, 24, 25, 26, 27])])
            else:
                cs = [o] + [y for y in {r.choice(orig), r.choice(es), r.choice(CORNER)} if y != o]
                r.shuffle(cs)
            words.append(cs)
        if r.random() < .06:
            # many candidates
            at = r.randrange(n)
            if r.random() < .5 or n == 1:
                words[at] = lost(r, orig[at], r.sample(range(32), r.choice([5, 6, 7])))
            else:
                # what some of them are is elsewhere, what the original is only here
                orig[at] = r.choice([0xe2810002, 0xe2010002, 0xe2610002])
                words[at] = lost(r, orig[at], r.sample(range(8), r.choice([4, 5])) + [21, 22])
                orig[at - 1] = orig[at] ^ 1 << r.choice([21, 22]) ^ 0xe0000000
                words[at - 1] = lost(r, orig[at - 1], [29, 30, 31])
                for i in range(n):
                    if i not in (at, (at - 1) % n) and r.random() < .7:
                        orig[i] = 0xe3a00000 | i
                        words[i] = [orig[i]]
        addrs, a = [], r.choice([0, 0x8000, 0x10148])
        for _ in range(n):
            addrs.append(a)
            a += 4 if r.random() < .93 else 4 * r.randint(2, 20)
        yield {'k': '%s, %s' % (kind, {'slice': 'part of a program', 'few': 'few different instructions',
                                       'corner': 'odd instructions', 'words': 'any words'}[how]),
               'orig': orig, 'words': words, 'addrs': addrs, 'fns': [[k, v[0], v[1]] for k, v in functions(r, addrs).items()],
               'shuffle': r.random() < .3, 'same': r.random() < .3, 'seed': r.getrandbits(20), 'cost': 5 + sum(map(len, words)) * len(orig) / 4}


def long(r, kind):
    """More than a hundred instructions, of which few are in doubt"""
    n = r.randint(101, 150)
    pool = [0xe3a00000, 0xe2810001, 0xe0410002, 0xe1500001, 0xe5901000]
    orig = [r.choice(pool[:r.choice([1, 2, 5])]) for _ in range(n)]
    orig[r.randrange(n)] = 0x03a00000
    words = [[o] for o in orig]
    for at in r.sample(range(n), r.randint(1, 4)):
        words[at] = lost(r, orig[at], r.choice([[29, 30, 31], [31], [21, 22, 23, 24]]))
    return {'k': '%s, a long program' % kind, 'orig': orig, 'words': words, 'addrs': list(range(0x8000, 0x8000 + 4 * n, 4)),
            'fns': [[0x8000, 0x8000, 0x8000 + 4 * n - 4]], 'shuffle': False, 'same': False, 'seed': 1, 'cost': 10 * n}


def view(i, n):
    if i.ignore:
        return {'undef': True, 'cond': -1, 'op': -1, 'stor': [], 'free': False, 'id': n}
    return {'undef': False, 'cond': num(i.conditional_field), 'op': num(i.opcode_field), 'stor': [num(x) for x in i.storages_used()],
            'free': bool(i.is_branch or i.is_push_pop), 'id': n}


def grade(v):
    return 0 if v == 0 else 2 if v == 1 else 1 if 0 < v < 1 else 3


def observe(c, passes=False):
    from recover_program import remove_bad_candidates_at_addr
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules
    original = [prog.caps(o, a) for o, a in zip(c['orig'], c['addrs'])]
    program = prog.build(c['words'], c['addrs'])
    if c['shuffle']:
        keys = list(program)
        random.Random(c['seed']).shuffle(keys)
        program = {k: program[k] for k in keys}
    # ids: by the place among the candidates at the beginning
    ids = {id(i): n + 1 for cs in program.values() for n, i in enumerate(cs)}
    alive = [i for cs in program.values() for i in cs]      # so that ids are not used again
    # seen on other objects
    views = {a: [view(prog.caps(w, a), n + 1) for n, w in enumerate(ws)] for a, ws in zip(c['addrs'], c['words'])}
    rec = {'j': 'passes' if passes else 'safety', 'program': [views[a] for a in c['addrs']],
           'orig': [views[a][ws.index(o)] for a, ws, o in zip(c['addrs'], c['words'], c['orig'])],
           'passes': [], 'raised': False, 'stable': False, 'final': [], 'tags': []}
    collector = MetadataCollector()
    collector.collect(original)
    fns = {k: (s, e) for k, s, e in c['fns']}
    try:
        r = None
        while len(rec['passes']) < 60:
            # another for each pass, or the same one all along
            if r is None or not c.get('same'):
                r = ProbabilisticRecuperator(collector, program, functions=fns)
            r.passes = 1
            r.recover()
            scores = [grade(i.score()) for cs in program.values() for i in cs]
            factors = [grade(v) for cs in program.values() for i in cs for v in i.scores_by_rule.values()]
            removed = {a: remove_bad_candidates_at_addr(program[a]) for a in list(program)}
            p = {'left': [[ids[id(i)] for i in program[a]] for a in c['addrs']]}
            if passes:
                p['removed'] = [num(removed[a]) for a in c['addrs']]
            else:
                p.update(scores=scores, factors=factors, sameAddresses=sorted(program) == sorted(c['addrs']))
            rec['passes'].append(p)
            if not any(removed.values()):
                rec['stable'] = True
                break
        for cs in program.values():
            for i in cs:
                i.score_function = probabilistic_rules
                rec['final'].append(grade(i.score()))
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:200])
    if len(rec['passes']) > 2:
        rec['tags'].append('several passes')
    if any(v['undef'] for v in rec['orig']):
        rec['tags'].append('undefined original')
    del alive
    return rec
