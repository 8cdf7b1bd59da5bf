"""P31: rules that score the candidates of an address."""
import random

from vf import prog
from vf.props import p09
from vf.props.p29 import FLAGS, CONDITIONAL, PLAIN
from vf.util import num

SPEC = 'RulesTrace'
MC = {'quick': [{'module': 'RulesMC', 'cfg': 'RulesMC_q.cfg', 'workers': 4}],
      'thorough': [{'module': 'RulesMC', 'cfg': 'RulesMC_t.cfg', 'workers': 6}]}
ASSUMPTIONS = ['What each instruction is, and whether it may change the flags, is what it says (P18)',
               'The originals, whose statistics are used, are defined and are never discarded']


def cases(tier, seed, scratch):
    r = random.Random('P31 %d' % seed)
    for n in range(300 if tier == 'quick' else 3000):
        few = [r.choice(r.choice([FLAGS, CONDITIONAL, PLAIN])) for _ in range(r.choice([3, 6, 12]))]
        few += [0xffffffff] if r.random() < .3 else []
        size = r.randint(1, 6) if n % 50 else r.choice([20, 40])
        words = []
        for _ in range(size):
            w = r.choice(few)
            x = r.random()
            if n % 12 == 0 and r.random() < .4:
                ws = p09.lost(r, w, r.sample(r.choice([range(32), range(24, 32)]), r.choice([4, 5])))
            elif x < .3:
                ws = p09.lost(r, w, r.sample(r.choice([range(32), range(28, 32)]), r.randint(1, 2)))
            else:
                ws = list(dict.fromkeys(r.choice(few) for _ in range(r.randint(1, 4) if n % 30 else r.choice([10, 12]))))
            if r.random() < .3:
                # a branch to somewhere near
                ws.append(0x0a000000 | r.choice([0, 1, 14]) << 28 | (r.choice([r.randint(-size - 3, size), -len(words) - 2]) & 0xffffff))
                ws = list(dict.fromkeys(ws))
            words.append(ws)
        addrs, a = [], r.choice([0x8000, 0x8000, 0, 4])
        for _ in range(size):
            addrs.append(a)
            a += 4 if r.random() < .92 else 8
        steps = []
        for _ in range(r.randint(1, 9) if n % 40 else 25):
            x = r.random()
            if x < .2:
                steps.append(['discard', r.randrange(size), r.randrange(8), 0])
            elif x < .3:
                steps.append(['forget', r.randrange(size), r.randrange(8), 0])
            elif x < .75:
                steps.append(['flow', r.randrange(size), 0, r.choice([0, 0, 0, 1, 2])])
            else:
                steps.append([r.choice(['condition', 'operation', 'registers']), r.randrange(size), 0, r.choice([0, 0, 1])])
        if r.random() < .5:
            at = r.randrange(size)
            steps = [[s[0], at if s[0] != 'discard' and r.random() < .7 else s[1], s[2], s[3]] for s in steps]
        yield {'k': 'rules', 'words': words, 'addrs': addrs, 'steps': steps, 'orig': [r.choice(ws) for ws in words],
               'fresh': r.random() < .5, 'cost': len(steps) * sum(map(len, words))}


def view(i):
    if i.ignore:
        return {'undef': True, 'cond': -1, 'flags': False, 'branch': False, 'to': -1}
    to = i.jumping_address if i.is_branch else None
    return {'undef': False, 'cond': num(i.conditional_field), 'flags': bool(i.modifies_flags()), 'branch': bool(i.is_branch),
            'to': -1 if to is None or to >> 31 else num(to)}


def observe(c):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.metadata.probabilistic_rules import counting_rules as cr
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    addrs = c['addrs']
    program = prog.build(c['words'], addrs)
    collector = MetadataCollector()
    # The originals, which are defined, are never discarded
    defined = [[w for w in ws if not prog.caps(w, a).ignore] for a, ws in zip(addrs, c['words'])]
    if not all(defined):
        return {'skip': True}
    originals = [o if o in ds else ds[0] for o, ds in zip(c['orig'], defined)]
    collector.collect([prog.caps(o, a) for o, a in zip(originals, addrs)])
    kinds = {'flow': ControlFlowBehavior, 'condition': cr.ConditionalCount, 'operation': cr.InstructionCount, 'registers': cr.RegisterCount}
    rules, keys, values = {}, {}, {}

    def now():
        return [[[[keys.setdefault(k, len(keys) + 1), values.setdefault(float(v), len(values) + 1), num(round(v * 1000000))]
                  for k, v in i.scores_by_rule.items()] for i in program[a]] for a in addrs]
    rec = {'addrs': addrs, 'start': now(), 'steps': []}
    for do, a, i, n in c['steps']:
        s = {'do': do, 'a': a + 1, 'pass': n, 'updated': False, 'raised': False}
        # as they are when the rule looks at them
        s['cands'] = [[view(x) for x in program[b]] for b in addrs]
        at = program[addrs[a]]
        if do == 'discard':
            if at[i % len(at)].encoding != originals[a]:
                at[i % len(at)].ignore = True
        elif do == 'forget':
            # as a candidate that was not there before
            at[i % len(at)].scores_by_rule.clear()
            s['which'] = i % len(at) + 1
        else:
            try:
                if do not in rules or (c['fresh'] and do == 'flow'):
                    rules[do] = kinds[do](program, collector=collector)
                rules[do].current_pass = n
                s['updated'] = bool(rules[do].recover(addrs[a]))
            except Exception as e:
                s['raised'] = True
                rec['show'] = repr(e)[:200]
        s['scores'] = now()
        s['totals'] = [[num(round(x.score() * 1000000)) for x in program[b]] for b in addrs]
        rec['steps'].append(s)
        if s['raised']:
            break
    rec['keys'] = len(keys)
    rec['tags'] = [t for t, ok in (('nothing to update', any(s['do'] == 'flow' and not s['updated'] for s in rec['steps'])),
                                   ('scored in several passes', len({s['pass'] for s in rec['steps'] if s['do'] == 'flow'}) > 1)) if ok]
    return rec
