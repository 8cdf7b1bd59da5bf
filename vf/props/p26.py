"""P26: a recovery from end to end."""
import io
import json
import os
import random
import re
import shutil
import struct
import sys

from vf import prog
from vf.props import p09
from vf.util import num, s32

SPEC = 'PipelineTrace'
MC = {'quick': [{'module': 'PipelineMC', 'cfg': 'PipelineMC_q.cfg'}, {'module': 'PipelineMC', 'cfg': 'PipelineMC_s.cfg'}],
      'thorough': [{'module': 'PipelineMC', 'cfg': 'PipelineMC_s.cfg'}, {'module': 'PipelineMC', 'cfg': 'PipelineMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Functions have their instructions one after the other', 'The candidates of an address have different encodings',
               'What is not an instruction has a null score']
MODS = [7919, 32749, 46337]
LINE = re.compile(r'^(X?)0x([0-9a-f]+) (\+\+|--) \[(\d+)\] (.*) : (-?[0-9.]+): --> (.*)')
SAID = re.compile(r' (.+?): (-?[0-9.]+) -- ')
MISLED = re.compile(r' -> (.+?): (-?[0-9.]+) vs\. (-?[0-9.]+) $')
MAGIC = 0xA0C1E2F3A4C5E6F7


def script(r, words, orig, sound):
    """What each pass and each weighing makes of the candidates, in 16ths"""
    passes = []
    for _ in range(r.randint(1, 6)):
        nulls, ones = r.choice([(.0, .0), (.1, .05), (.3, .1), (.1, .3)])
        at = []
        for ws, o in zip(words, orig):
            pool = r.choice([[8], [4, 8], list(range(1, 16))])
            vs = [0 if r.random() < nulls else 16 if r.random() < ones else r.choice(pool) for _ in ws]
            if sound and o in ws:
                k = ws.index(o)
                vs[k] = vs[k] or 8
                if 16 in vs:
                    vs[k] = 16
            at.append(vs)
        passes.append(at)
    weights = [[r.choice([16, 8, 8, 4, 2, 0, r.randint(0, 16)]) for _ in ws] for ws in words]
    # What other rules say: they do not count. Some say nothing of some candidates
    names = r.sample(['first', 'second rule', 'pX', 'a-b'], r.choice([0, 0, 1, 2, 3]))
    rules = [[{k: r.randint(0, 16) for k in names if r.random() < .85} for _ in ws] for ws in words]
    return passes, weights, rules


def cases(tier, seed, scratch):
    r = random.Random('P26 %d' % seed)
    f = 1 if tier == 'quick' else 8
    for c in (c for k in range(1 if f == 1 else 5) for c in p09.cases('quick', seed + 100 + k, scratch, 'recovery')):
        if f == 1 and r.random() < .25:
            continue
        n = len(c['addrs'])
        c['addrs'] = list(range(c['addrs'][0], c['addrs'][0] + 4 * n, 4))
        kind = r.choice(['scripted', 'scripted', 'scripted, unsound', 'statistics'])
        c.update(how=kind, cuts=sorted(r.sample(range(1, n), r.randint(0, min(3, n - 1)))) if n > 1 else [], passes=r.choice([1, 1, 2, 3]))
        if kind == 'statistics':
            c['passes'] = 1
            c['corruptor'] = r.choice(['given', 'given', 'json'])
        else:
            c['corruptor'] = r.choice(['given', 'given', 'given', 'json'])
            c['script'], c['weights'], c['rules'] = script(r, c['words'], c['orig'], kind == 'scripted')
        c['k'] = '%s, corrupted by %s' % (kind, c['corruptor'])
        c['swap'] = r.random() < .2
        yield c
    for _ in range(60 * f):
        name = r.choice(prog.DISAM)
        es = prog.encodings(name)
        n = r.choice([4, 8, r.randint(2, 40)])
        at = r.randrange(0, len(es) - n)
        orig = es[at:at + n]
        start = r.choice([0, 0x8000, 0x10148])
        c = {'orig': orig, 'addrs': list(range(start, start + 4 * n, 4)), 'how': 'statistics', 'passes': 1, 'seed': r.getrandbits(20),
             'cuts': sorted(r.sample(range(1, n), r.randint(0, min(3, n - 1)))), 'swap': r.random() < .2, 'cost': 60 + 10 * n,
             'corruptor': r.choice(['packets', 'packets', 'random'])}
        if c['corruptor'] == 'packets':
            # few bits of each instruction: two to six
            two = r.random() < .25
            c['packets'] = r.choice([16, 17, 19.6, 24, 33]) if two else r.choice([8, 9.5, 11, 16, 20, 21.3, n / 2 + 8])
            c['lost'] = sorted(r.sample(range(int(c['packets'])), 2 if two else 1))
        else:
            c['percent'], c['most'] = r.choice([5, 30, 100]), r.randint(1, 3)
        c['k'] = 'statistics, corrupted by ' + c['corruptor']
        yield c


class Case:
    """A recovery under way"""

    def __init__(self, c):
        self.c, self.addrs, self.events, self.texts = c, c['addrs'], [], {}
        self.scripted = c['how'] != 'statistics'
        self.stats = {}
        self.weights = None

    def text(self, t):
        return self.texts.setdefault(str(t), len(self.texts) + 1)

    def encs(self, program):
        return [[s32(i.encoding) for i in program.get(a, [])] for a in self.addrs]

    def scores(self, program, of):
        got = [[(i, of(i)) for i in program.get(a, [])] for a in self.addrs]
        ranks = {v: n for n, v in enumerate(sorted({v for at in got for _, v in at}))}
        said = {v: n for n, v in enumerate(sorted({v for at in got for i, _ in at for v in i.scores_by_rule.values()}))}
        return [[{'e': s32(i.encoding), 'r': ranks[v], 'g': p09.grade(v), 'm': num(round(v * 1000000)),
                  'u': [{'k': k, 'r': said[u], 'm': num(round(u * 1000000))} for k, u in i.scores_by_rule.items()]} for i, v in at] for at in got]

    def program(self, program):
        return [[{'e': s32(i.encoding), 't': self.text(i)} for i in program.get(a, [])] for a in self.addrs]


def corruptor(case, tmp):
    from semantic_codec.corruption import corruptors as m
    c = case.c
    if c['corruptor'] == 'packets':
        inner = m.PacketCorruptor(c['packets'], len(c['orig']), packets_lost=list(c['lost']))
    elif c['corruptor'] == 'random':
        inner = m.RandomCorruptor(c['percent'], c['most'], False)
    elif c['corruptor'] == 'json':
        path = os.path.join(tmp, 'corrupted.json')
        with open(path, 'w') as f:
            json.dump({str(a): ws for a, ws in zip(c['addrs'], c['words'])}, f)
        inner = m.JSONCorruptor(path)
    else:
        inner = None

    class Recorder(m.Corruptor):
        def corrupt(self, program):
            case.events.append({'ev': 'given', 'prog': case.encs(program)})
            random.seed(c['seed'])
            p = inner.corrupt(program) if inner else prog.build(c['words'], c['addrs'])
            case.events.append({'ev': 'corrupted', 'prog': case.program(p), 'scores': case.scores(p, lambda i: i.score())})
            return p
    return Recorder()


def recuperator(case):
    from semantic_codec.metadata import recuperator as m
    c = case.c

    class Scripted:
        passes = 1

        def __init__(self, collector, program, model=None, functions=None):
            self._program = program

        def recover(self):
            n = sum(e['ev'] == 'scored' for e in case.events)
            at = c['script'][min(n, len(c['script']) - 1)]
            for a, ws, vs, fs, us in zip(c['addrs'], c['words'], at, c['weights'], c['rules']):
                for i in self._program[a]:
                    k = ws.index(i.encoding)
                    i.scores_by_rule = dict({'pc': fs[k] / 16}, **{u: v / 16 for u, v in us[k].items()})
                    i.score_function = lambda s, i, v=0.0 if i.ignore else vs[k] / 16: v

    base = Scripted if case.scripted else m.ProbabilisticRecuperator

    class Recorder(base):
        def __init__(self, collector, program, model=None, functions=None):
            super().__init__(collector, program, model, functions)
            self.given = (collector, program, functions)

        def recover(self):
            collector, program, fns = self.given
            e = {'ev': 'scored', 'seen': case.encs(program), 'texts': [[x['t'] for x in at] for at in case.program(program)],
                 'passes': num(self.passes), 'fns': sorted([num(k), num(s), num(t)] for k, (s, t) in (fns or {}).items()),
                 'meta': case.stats == {k: {x: n for x, n in getattr(collector, k).items() if n} for k in case.stats}}
            super().recover()
            e['scores'] = case.scores(program, lambda i: i.score())
            case.events.append(e)
            case.weights = case.scores(program, lambda i: 0.0 if i.ignore else m.probabilistic_rules(i.scores_by_rule, i))
    return Recorder


def millionths(t):
    return num(round(float(t) * 1000000))


def report(case, path):
    """What a report says"""
    res = {'at': [], 'complete': False, 'errors': -1, 'fail': -1, 'tie': -1, 'ok': -1, 'ratio': -1, 'depths': [], 'bad': [], 'none': False, 'average': -1}
    if not os.path.exists(path):
        return None
    with open(path) as f:
        lines = f.read().split('\n')
    at, end = None, False
    for l in lines:
        if l.startswith('Original Instruction: '):
            at = {'orig': case.texts.get(l[len('Original Instruction: '):], -1), 'encs': [], 'm': [], 'mark': [], 'rules': [], 'misled': [], 'verdict': 'none', 'ties': 0}
            res['at'].append(at)
        elif l.startswith('ERRORS: '):
            g = re.match(r'ERRORS: (\S+) -- LOSING: (\S+) -- TIDE: (\S+) --RECOVERED: (\S+) -- RATIO: (\S+)', l)
            res.update(zip(('errors', 'fail', 'tie', 'ok'), map(int, g.groups()[:4])))
            res['ratio'] = millionths(g.group(5))
        elif l.startswith('DEPTHS: '):
            res['depths'] = [[int(a), int(b)] for a, b in re.findall(r'(\d+): (\d+)', l)]
            res['complete'] = True
        elif l == 'BAD RULES:':
            end = True
        elif l.startswith('AVERAGE TIE COUNT: '):
            res['average'] = millionths(l.split(': ')[1])
        elif end:
            res['none'] = res['none'] or l.startswith('No rule ')
            g = re.match(r'(.+) : (\d+)$', l)
            if g:
                res['bad'].append([g.group(1), int(g.group(2))])
        elif at is None:
            continue
        elif l.startswith(' * FAIL'):
            at['verdict'] = 'fail'
        elif l.startswith(' * TIE'):
            at['verdict'], at['ties'] = 'tie', int(l.split()[3])
        elif l.startswith(' * OK'):
            at['verdict'] = 'ok'
        else:
            g = LINE.match(l)
            if g:
                at['encs'].append(s32(int(g.group(4))))
                at['m'].append(millionths(g.group(6)))
                at['mark'].append(g.group(3) == '++')
                at['rules'].append([{'k': k, 'm': millionths(v)} for k, v in SAID.findall(g.group(7))])
            g = re.match(r'(?: KE: .+? -- )*(.*)$', l)
            g = g and MISLED.match(g.group(1))
            if g:
                at['misled'].append({'k': g.group(1), 'm': millionths(g.group(2)), 'o': millionths(g.group(3))})
    return res


def figures(said):
    """What the recovery tells of its candidates on its way"""
    res = []
    for l in said.split('\n'):
        g = re.match(r'\[INFO\]: Solutions( size| count|): (.*)', l)
        if not g:
            continue
        if g.group(1) == '':
            res.append({'bins': [[int(a), int(b)] for a, b in re.findall(r'(\d+): (\d+)', g.group(2))], 'size': -9, 'counts': [-1] * len(MODS)})
        elif g.group(1) == ' size':
            res[-1]['size'] = millionths(g.group(2))
        else:
            res[-1]['counts'] = [int(g.group(2)) % m for m in MODS]
    return res


def solution(case, path):
    """What a solution file has, read without the reader"""
    res = {'magic': False, 'cands': []}
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        data = f.read()
    try:
        magic, n = struct.unpack_from('<QL', data)
        res['magic'], p, got = magic == MAGIC, 12, {}
        for _ in range(n):
            a, k = struct.unpack_from('<LL', data, p)
            got[a] = [s32(x) for x in struct.unpack_from('<%dL' % k, data, p + 8)]
            p += 8 + 4 * k
        res['cands'] = [got[a] for a in case.addrs] if sorted(got) == case.addrs and p == len(data) else []
    except (struct.error, KeyError):
        res['magic'] = False
    return res


def statistics(orig, addrs):
    """Those of the original program"""
    res = {'condition_count': {}, 'instruction_count': {}, 'storage_count': {}}
    for o, a in zip(orig, addrs):
        i = prog.caps(o, a)
        if i.ignore:
            continue
        for k, xs in (('condition_count', [i.conditional_field]), ('instruction_count', [i.opcode_field]), ('storage_count', i.storages_used())):
            for x in xs:
                res[k][x] = res[k].get(x, 0) + 1
    return res


def observe(c):
    from recover_program import run_recovery
    from semantic_codec.architecture.functions import ElfFunction
    from semantic_codec.solution.solution_io import SolutionReader
    case = Case(c)
    orig = [prog.caps(o, a) for o, a in zip(c['orig'], c['addrs'])]
    if c['how'] != 'scripted, unsound':
        # the originals are instructions
        defined = [not i.ignore for i in orig]
        if not all(defined):
            c['orig'] = [o if d else 0xe1a00001 for o, d in zip(c['orig'], defined)]
            if 'words' in c:
                c['words'] = [ws if d else [0xe1a00001 + n for n in range(len(ws))] for ws, d in zip(c['words'], defined)]
            orig = [prog.caps(o, a) for o, a in zip(c['orig'], c['addrs'])]
    case.stats = statistics(c['orig'], c['addrs'])
    cuts = [0] + c['cuts'] + [len(orig)]
    fns, given = [], []
    for x, y in zip(cuts, cuts[1:]):
        f = ElfFunction('f%d' % x)
        f.instructions = orig[x:y]
        fns.append(f)
        given.append([c['addrs'][x], c['addrs'][x], c['addrs'][y - 1]])
    if c['swap']:
        fns.reverse()
    tmp = os.path.join(os.environ['VF_SCRATCH'], 'recovery')
    shutil.rmtree(tmp, ignore_errors=True)
    os.mkdir(tmp)
    inputs = os.path.join(os.environ['VF_SCRATCH'], 'recovery.in')
    os.makedirs(inputs, exist_ok=True)
    rec = {'orig': [{'e': s32(o), 't': case.text(i)} for o, i in zip(c['orig'], orig)], 'fns': given, 'passes': c['passes']}
    out, cwd, why = sys.stdout, os.getcwd(), ''
    os.chdir(tmp)
    said = sys.stdout = io.StringIO()
    try:
        args = [] if c['passes'] == 1 and c['seed'] % 2 else [c['passes']]
        run_recovery(fns, corruptor(case, inputs), recuperator(case), *args)
    except Exception as e:
        why = repr(e)[:200]
    finally:
        os.chdir(cwd)
        same_out = sys.stdout is said
        sys.stdout = out
    # the files tell what happened between the calls
    happened, case.events = case.events, []
    n = 0
    for e in happened:
        case.events.append(e)
        if e['ev'] == 'corrupted':
            first = report(case, os.path.join(tmp, 'corrupted_program.txt'))
            if first:
                case.events.append({'ev': 'report', 'report': first})
            s = solution(case, os.path.join(tmp, 'initial_solution.sol'))
            if s and first:
                case.events.append(dict(s, ev='initial'))
        if e['ev'] == 'scored':
            n += 1
            x = report(case, os.path.join(tmp, 'instructions%d.txt' % n))
            if x:
                case.events.append({'ev': 'report', 'report': x})
    x = report(case, os.path.join(tmp, 'instructions%d.txt' % (n + 1)))
    if x and case.weights:
        case.events += [{'ev': 'weighed', 'scores': case.weights}, {'ev': 'report', 'report': x}]
        x = report(case, os.path.join(tmp, 'instructions%d.txt' % (n + 2)))
        if x:
            case.events += [{'ev': 'constrained', 'report': x}, {'ev': 'report', 'report': x}]
    path = os.path.join(tmp, 'final_solution.sol')
    if why:
        readable = False
        try:
            SolutionReader().read(path)
            readable = True
        except Exception:
            pass
        case.events.append({'ev': 'raised', 'readable': readable})
        rec['show'] = why
    else:
        s = solution(case, path)
        if s:
            case.events.append(dict(s, ev='final', files=sorted(os.listdir(tmp)), stdout=same_out,
                                    same=[(i.encoding, i.address) for f in sorted(fns, key=lambda f: f.start_addr()) for i in f.instructions]
                                    == list(zip(c['orig'], c['addrs']))))
    rec['events'] = case.events
    rec['figures'], rec['mods'] = figures(said.getvalue()), MODS
    rec['tags'] = (['several passes'] if n > 2 else []) + (['refused'] if why else ['stored'])
    return rec
