"""P15: saved corrupted programs come back."""
import os
import random

from vf import prog
from vf.util import s32

SPEC = 'SolutionTrace'
MC = {'quick': [{'module': 'SolutionFileMC', 'cfg': 'SolutionFileMC_q.cfg'}],
      'thorough': [{'module': 'SolutionFileMC', 'cfg': 'SolutionFileMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The directory of the file exists']


def cases(tier, seed, scratch):
    r = random.Random('P15 %d' % seed)
    encs = prog.encodings('bitcount')
    for i in range(260 if tier == 'quick' else 3000):
        n = i if i < 4 else r.randint(1, 14)
        addrs, a = [], r.choice([0, 0x8000, 0x10148, 0xffff0000, r.randrange(0, 0xf0000000, 4)])
        for _ in range(n):
            addrs.append(a)
            a += r.choice([4, 4, 4, 4 * r.randint(1, 30)])
        if i in (100, 101):
            n = r.choice([257, 300])
            addrs = list(range(0x8000, 0x8000 + 4 * n, 4))
        words = []
        via = r.choice(['functions', 'functions', 'RandomCorruptor', 'PacketCorruptor'])
        for _ in range(n):
            o = r.choice(encs) if r.random() < .7 else r.getrandbits(32)
            cs = [o]
            if via == 'functions':
                cs += [o ^ r.getrandbits(32) for _ in range(r.choice([0, 0, 1, 2, 7]) if i not in (102, 103) else r.choice([0, 260, 300]))]
                if r.random() < .1:
                    cs += [r.choice(cs) for _ in range(r.randint(1, 2))]      # some of them twice
                if r.random() < .04:
                    cs = []
            r.shuffle(cs)
            words.append(cs)
        if not n:
            via = 'functions'
        yield {'k': via, 'addrs': addrs, 'words': words, 'old': r.random() < .4, 'seed': r.getrandbits(20),
               'cost': 5 + sum(map(len, words))}


def observe(c):
    from semantic_codec.corruption import corruption as m
    from semantic_codec.corruption.corruptors import RandomCorruptor, PacketCorruptor, JSONCorruptor
    path = os.path.join(os.environ['VF_SCRATCH'], 'program.json')
    r = random.Random(c['seed'])
    random.seed(c['seed'])
    if os.path.exists(path):
        os.remove(path)
    if c['old']:
        with open(path, 'w') as f:
            f.write('{"1": [2, 3, 4]}' * 400)
    program = prog.build(c['words'], c['addrs'])
    no_path = []

    def refused(f):
        try:
            f()
            return False
        except Exception:
            return True

    if c['k'] == 'functions':
        m.save_corrupted_program_to_json(program, path)
        no_path.append(refused(lambda: JSONCorruptor().corrupt({})))
    elif c['k'] == 'RandomCorruptor':
        no_path.append(refused(lambda: RandomCorruptor(20, 2, True).corrupt(prog.build(c['words'], c['addrs']))))
        rc = RandomCorruptor(50, 3, True)
        rc.corrupted_program_path = path
        program = rc.corrupt(program)
    else:
        n = r.randint(6, 20)
        # packets that may have nothing of the program too
        lost = [r.randrange(n)]
        size = len(c['addrs'])
        program = PacketCorruptor(packet_count=n, data_size=size, packets_lost=lost, bits_per_interleave=2,
                                  save_corrupted_path=path).corrupt(program)
        no_path.append(refused(lambda: PacketCorruptor(packet_count=n, data_size=size, packets_lost=[],
                                                       bits_per_interleave=2).corrupt(program)))
    a0, cands, _ = prog.dump(program)
    rec = {'j': 'program', 'addrs': [s32(a) for a in a0], 'cands': cands, 'noPath': all(no_path), 'failed': False,
           'read': [], 'readAddrs': [], 'where': True, 'cutRead': [], 'again': []}
    with open(path) as f:
        data = f.read()
    try:
        back = JSONCorruptor(path).corrupt({}) if c['seed'] % 2 else m.load_corrupted_program_from_json(path)
        a1, rec['read'], w = prog.dump(back)
        rec['readAddrs'], rec['where'] = [s32(a) for a in a1], all(w)
    except Exception:
        rec['failed'] = True
    # the same reader, after what it gave was altered and after another program was saved there
    reader = JSONCorruptor(path)
    for t in range(4):
        try:
            b = reader.corrupt({})
            a1, cs1, w1 = prog.dump(b)
            rec['again'].append({'addrs': [s32(a) for a in a0], 'cands': cands, 'ok': all(w1),
                                 'readAddrs': [s32(a) for a in a1], 'read': cs1})
        except Exception:
            rec['again'].append({'addrs': [s32(a) for a in a0], 'cands': cands, 'ok': False, 'readAddrs': [], 'read': []})
            break
        for a in list(b):
            k = r.randrange(4)
            if k == 0:
                b[a] = b[a][:1]
            elif k == 1:
                del b[a]
            elif k == 2 and b[a]:
                b[a].pop()
        if t in (1, 2):
            other = {a: list(program[a]) for a in program if r.random() < .7}
            for a in other:
                r.shuffle(other[a])
            a0, cands, _ = prog.dump(other)
            m.save_corrupted_program_to_json(other, path)
    for k in sorted(set([0, 1, max(0, len(data.rstrip()) - 1)] + [r.randrange(len(data.rstrip())) for _ in range(12)])):
        with open(path, 'w') as f:
            f.write(data.rstrip()[:k])
        try:
            m.load_corrupted_program_from_json(path)
            rec['cutRead'].append(True)
        except Exception:
            rec['cutRead'].append(False)
    return rec
