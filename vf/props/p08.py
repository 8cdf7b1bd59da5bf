"""P08: the statistics of a program."""
import itertools
import random

from vf import prog
from vf.util import num, s32

SPEC = 'MetadataTrace'
MC = {'quick': [{'module': 'MetadataMC', 'cfg': 'MetadataMC_q.cfg'}, {'module': 'MetadataMC', 'cfg': 'MetadataMC_s.cfg'}],
      'thorough': [{'module': 'MetadataMC', 'cfg': 'MetadataMC_s.cfg'}, {'module': 'MetadataMC', 'cfg': 'MetadataMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['A collector collects one program',
               'What each instruction uses, reads and writes is as the instruction says (P18 decides that)']
# mov r0, r1; mov r1, r0; add r0, r0, #1; cmp r0, r1; ldr r1, [r0]; str r1, [r0]; push {r0, lr}; bl; undefined; nop
SMALL = [0xe1a00001, 0xe1a01000, 0xe2800001, 0xe1500001, 0xe5901000, 0xe5801000, 0xe92d4001, 0xeb000010, 0xffffffff, 0xe320f000]
CORNER = [0, 0xffffffff, 0xe320f000, 0xee010f10, 0xeef1fa10, 0xe8bd8000, 0xe12fff1e, 0xe10f0000, 0xe129f000, 0xf57ff05f]


def cases(tier, seed, scratch):
    r = random.Random('P08 %d' % seed)
    # every program of up to two of a few instructions and a sample of those of three and four
    for n in (0, 1, 2):
        for p in itertools.product(SMALL, repeat=n):
            yield {'k': 'collector, small programs', 'prog': list(p)}
    for _ in range(350 if tier == 'quick' else 4000):
        yield {'k': 'collector, small programs', 'prog': [r.choice(SMALL) for _ in range(r.randint(3, 9))], 'cost': 2}
    names = prog.DISAM
    for i in range(120 if tier == 'quick' else 1200):
        es = prog.encodings(r.choice(names))
        n = r.choice([r.randint(1, 20), r.randint(20, 80)])
        at = r.randrange(0, max(1, len(es) - n))
        p = es[at:at + n]
        k = 'collector, programs'
        if r.random() < .4:
            k = 'collector, other words'
            p = [r.choice(CORNER + [r.getrandbits(32)]) if r.random() < .4 else e for e in p]
        yield {'k': k, 'prog': p, 'discarded': [j for j in range(len(p)) if r.random() < .2] if r.random() < .3 else [], 'cost': 5 + n * n // 20}
    for n in (150, 300) if tier == 'quick' else (150, 270, 300, 520):
        es = prog.encodings(r.choice(['sha', 'fft', 'qsort_small']))
        at = r.randrange(0, max(1, len(es) - n))
        yield {'k': 'collector, long programs', 'prog': es[at:at + n], 'discarded': [], 'cost': 5 + n * n // 20}
    for _ in range(6 if tier == 'quick' else 40):
        # storages that are read long after they are written, and instructions that come back after many others
        p = []
        for x in r.sample(range(4, 10), r.choice([1, 2])):
            n = r.choice([20, 40, 70, 140, 200])
            p += [0xe3a00001 | x << 12] + [r.choice([0xe2800001 | r.randrange(256), 0xe1a01000 | r.randrange(4), 0xe3a02000 | r.randrange(256)]) for _ in range(n)]
            p += r.choice([[], [r.choice(p)]]) + [0xe1a03000 | x]
        yield {'k': 'collector, far apart', 'prog': p, 'discarded': [], 'cost': 5 + len(p) ** 2 // 20}
    for i in range(160 if tier == 'quick' else 1600):
        es = prog.encodings(r.choice(names))
        words = []
        for _ in range(r.choice([0, 1, r.randint(1, 10), r.randint(5, 25)])):
            o = r.choice(es) if r.random() < .6 else r.choice(SMALL + CORNER)
            words.append([o ^ (r.getrandbits(32) & r.getrandbits(32) & r.getrandbits(32)) if j else o
                          for j in range(r.choice([0, 1, 1, 2, 3, 8]))])
        f = r.choice([0, 0, .2, .6])
        yield {'k': 'corrupted program', 'words': words, 'again': r.random() < .3,
               'discarded': [[a, j] for a, ws in enumerate(words) for j in range(len(ws)) if r.random() < f], 'cost': 5 + 2 * sum(map(len, words))}


def view(i):
    if i.ignore:
        return {'undef': True, 'e': s32(i.encoding), 'cond': -1, 'op': -1, 'used': [], 'read': [], 'written': []}
    return {'undef': False, 'e': s32(i.encoding), 'cond': num(i.conditional_field), 'op': num(i.opcode_field),
            'used': [num(x) for x in i.storages_used()], 'read': [num(x) for x in i.storages_read()],
            'written': [num(x) for x in i.storages_written()]}


def table(d):
    return [[num(k), num(v)] for k, v in sorted(d.items())]


def observe(c):
    from semantic_codec.architecture.arm_constants import AReg
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector, MetadataCollector
    if c['k'] == 'corrupted program':
        program = prog.build(c['words'], range(0x8000, 0x8000 + 4 * len(c['words']), 4))
        for a, j in c['discarded']:
            program[0x8000 + 4 * a][j].ignore = True
        rec = {'j': 'corrupted', 'program': [[view(i) for i in program[a]] for a in program]}
        before = prog.dump(program)
        m = CorruptedProgramMetadataCollector()
        m.collect(program)
        if c['again']:              # what was collected before is forgotten
            m.collect(program)
        rec.update(conds=table(m.address_with_cond), ops=table(m.address_with_op), stors=table(m.address_with_reg),
                   same=prog.dump(program) == before)
        return rec
    p = [prog.caps(e, 0x8000 + 4 * i) for i, e in enumerate(c['prog'])]
    # seen on other instructions, so that nothing is remembered
    seen = [prog.caps(i.encoding, i.address) for i in p]
    for j in c.get('discarded', []):
        p[j].ignore = seen[j].ignore = True
    rec = {'j': 'collector', 'prog': [view(i) for i in seen], 'storages': num(AReg.STORAGE_COUNT)}
    m = MetadataCollector()
    m.collect(p)
    rec.update(conds=table(m.condition_count), ops=table(m.instruction_count), stors=table(m.storage_count),
               mins=table(m.storage_min_dist), maxs=table(m.storage_max_dist),
               means=[[num(k), num(round(v * 1000000))] for k, v in sorted(m.storage_mean_dist.items())],
               spaces=[s32(i.encoding) for i in m.empty_spaces],
               same=[i.encoding for i in p] == c['prog'] and not any(i.scores_by_rule for i in p))
    return rec
