"""P17: reading disassemblies."""
import contextlib
import io
import os
import random

from vf import prog
from vf.util import s32

SPEC = 'ReadersTrace'
MC = {'quick': [{'module': 'ReadersMC', 'cfg': 'ReadersMC_q.cfg'}],
      'thorough': [{'module': 'ReadersMC', 'cfg': 'ReadersMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The table of functions comes before the code and no two instructions of a file share an address, as the tools write them',
               'Addresses below 2^31']
NAMES = ['main', '$a', '$d', '$t', '_init', '_start', '__libc_csu_init', 'call_weak_fn', '_ZSt4cout', 'f', 'memcpy', 'x1', 'text', 'init_array']


def line(t, a=0, e=0, n=''):
    return {'t': t, 'a': a, 'e': e, 'n': n}


def word(r, encs):
    return r.choice([r.choice(encs)] * 4 + [r.getrandbits(32), 0, 0xffffffff, r.getrandbits(12), 0xf, 0x0a000005])


def elf(r, encs, n=None):
    """The lines of a file with sections"""
    n = n or r.choice([0, 1, 2, 4, r.randint(1, 12), r.randint(8, 40)])
    sections, a = [], r.choice([0x10000, 0x8000, 4, 0x400, r.randrange(4, 0x7f000000, 4)])
    names = ['init', 'plt', 'text', 'fini']
    if r.random() < .3:
        r.shuffle(names)
    if r.random() < .2:
        names = r.sample(names, r.randint(1, 3))
    for s in names:
        insts = []
        for _ in range(r.randint(0, max(1, n // 2)) if s != 'text' else n):
            insts.append(a)
            a += 4 if r.random() < .93 else 4 * r.randint(2, 9)
        sections.append((s, insts))
        a += r.choice([0, 0, 4, 8, 64])
    if r.random() < .2:
        r.shuffle(sections)
    code = [x for _, i in sections for x in i]
    starts = [x for x in code if r.random() < r.choice([.15, .3])]
    if code and r.random() < .5:
        starts += [i[0] for _, i in sections if i]
    table = []
    for x in starts:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            table.append((x, r.choice(NAMES)))
    for _ in range(r.randint(0, 5)):          # symbols of data
        table.append((0x7f800000 + 4 * r.randrange(1000), r.choice(NAMES)))
    r.shuffle(table)
    ls = [line('functions', n=r.choice(['functions', 'functions', 'function']))]
    for x, m in table:
        if r.random() < .03:
            ls.append(line('blank'))
        ls.append(line('fn', x, n=m))
    for s, insts in sections:
        if r.random() < .3:
            ls.append(line('blank'))
        if r.random() < .15:
            ls.append(line('data', n=r.choice(['data', 'rodata', 'bss', 'comment'])))
            for _ in range(r.randint(0, 3)):
                ls.append(line('inst', 0x7f900000 + 4 * r.randrange(10 ** 5), r.getrandbits(32)))
        ls.append(line('code', n=s))
        for x in insts:
            if r.random() < .03:
                ls.append(line('blank'))
            if r.random() < .04:
                ls.append(line('bad', 0x7fa00000 + 4 * r.randrange(1000)))
            ls.append(line('inst', x, word(r, encs)))
    return ls


def elf_text(r, ls):
    res = []
    for l in ls:
        t = l['t']
        if t == 'blank':
            res.append(r.choice(['', '  ', '\t']))
        elif t in ('functions', 'code', 'data'):
            res.append('.' + l['n'])
        elif t == 'fn':
            res.append('%s;%s' % (hex(l['a']), l['n']))
        elif t == 'bad':
            res.append(hex(l['a']))
        else:
            enc = '%x' % l['e'] if r.random() < .5 else '0x%x' % l['e']
            more = r.choice(['', '', ';mov;r1, r2', ';mov;r1, r2 ', ';;', ';b;#0x10148;x'])
            res.append('%s;%s%s' % (r.choice([hex(l['a']), '%x' % l['a']]), enc, more))
    return res


def listing(r, encs, n=0):
    ls, a = [], r.choice([0x10000, 0x8000, 4, r.randrange(4, 0x7f000000, 4)])
    for _ in range(n // 6 or r.choice([0, 1, 2, r.randint(1, 8)])):
        if r.random() < .8:
            ls.append(line('head', a, n=r.choice(NAMES)))
        if r.random() < .1:
            ls.append(line('note'))
        for _ in range(r.choice([0, 1, r.randint(1, 10)])):
            ls.append(line('inst', a, word(r, encs)))
            a += 4 if r.random() < .93 else 8
        if r.random() < .7:
            ls.append(line('blank'))
    return ls


def list_text(r, ls):
    res, sec = [], r.choice(['text', 'init', 'plt'])
    for l in ls:
        t = l['t']
        if t == 'blank':
            res.append('')
        elif t == 'note':
            res.append(r.choice(['; data', '.text', '-----']))
        elif t == 'head':
            res.append('.%s:%08x <%s>:' % (sec, l['a'], l['n']))
        else:
            b = '%08x' % l['e']
            b = ' '.join([b[6:8], b[4:6], b[2:4], b[0:2]])
            more = r.choice(['', 'mov\tr7, r0', 'ldr\tr6, [pc, #72]\t; 0x000107f0 <$d>', 'bl\t0x0001061c <call_weak_fn>', 'b\t0x10: x'])
            res.append('%s.%s:%08x %s%s%s' % (' ' * 27, sec, l['a'], b, ' ' * 22, more))
    return res


def cases(tier, seed, scratch):
    r = random.Random('P17 %d' % seed)
    encs = prog.encodings('qsort_small')
    f = 1 if tier == 'quick' else 10
    for _ in range(260 * f):
        yield {'k': 'sections', 'lines': elf(r, encs), 'seed': r.getrandbits(20), 'cost': 3}
    for _ in range(160 * f):
        yield {'k': 'listing', 'lines': listing(r, encs), 'seed': r.getrandbits(20), 'cost': 3}
    for n in (260, 600):
        for how, make in (('sections', elf), ('listing', listing)):
            yield {'k': how, 'lines': make(r, encs, n), 'seed': r.getrandbits(20), 'cost': 60}
    for name in (['qsort_small', 'helloworld_elfiodissasembly'] if tier == 'quick' else prog.DISAM):
        yield {'k': 'sections', 'file': name + '.disam', 'seed': 0, 'cost': 60}
    for name in ['helloworld.armasm', 'dissasembly.armasm']:
        yield {'k': 'listing', 'file': name, 'seed': 0, 'cost': 60}


def parse(path, k):
    """The lines of a file of the repository"""
    ls = []
    for l in open(path).read().split('\n'):
        s = l.strip()
        if k == 'sections':
            if not s:
                ls.append(line('blank'))
            elif s[0] == '.':
                ls.append(line('functions' if s == '.functions' else 'code' if s[1:] in ('init', 'text', 'plt', 'fini') else 'data', n=s[1:]))
            elif ls and [x['t'] for x in ls if x['t'] in ('functions', 'code', 'data')][-1] == 'functions':
                ls.append(line('fn', int(s.split(';')[0], 16), n=s.split(';')[1]))
            elif ';' not in s:
                ls.append(line('bad', int(s, 16)))
            else:
                ls.append(line('inst', int(s.split(';')[0], 16), int(s.split(';')[1], 16)))
        elif not s:
            ls.append(line('blank'))
        elif l[0] == ' ':
            w = s.split(':', 1)[1].split()
            ls.append(line('inst', int(w[0], 16), int(''.join(w[4:0:-1]), 16)))
        elif '<' in s:
            ls.append(line('head', int(s.split(':')[1].split()[0], 16), n=s.split('<')[1].split('>')[0]))
        else:
            ls.append(line('note'))
    return ls


def observe(c):
    from semantic_codec.architecture.disassembler_readers import (DisassembleReader, ElfioTextDisassembleReader,
                                                                  TextDisassembleReader)
    from semantic_codec.metadata.probabilistic_rules.rules import (from_functions_to_list_and_addr, from_instruction_dict_to_list,
                                                                   from_instruction_list_to_dict)
    r = random.Random(c['seed'])
    elfio = c['k'] == 'sections'
    if 'file' in c:
        path = os.path.join(prog.repo(), prog.DATA, c['file'])
        ls = parse(path, c['k'])
    else:
        ls = c['lines']
        path = os.path.join(os.environ['VF_SCRATCH'], 'program.disam')
        text = '\n'.join((elf_text if elfio else list_text)(r, ls))
        with open(path, 'w') as f:
            f.write(text + ('\n' if text and r.random() < .8 else ''))
    reader = ElfioTextDisassembleReader if elfio else TextDisassembleReader
    rec = {'j': 'elf' if elfio else 'list', 'raised': False, 'out': [], 'fns': [], 'program': [], 'asDict': [], 'asList': [],
           'ranges': [], 'agree': True, 'refused': False,
           'lines': [{'t': l['t'], 'a': s32(l['a']), 'e': s32(l['e']), 'n': l['n']} for l in ls]}
    pair = lambda i: [s32(i.address), s32(i.encoding)]
    bodies = lambda fs: [[pair(i) for i in f.instructions] for f in fs]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            both = reader(path).read()
            fns, insts = both if elfio else both[::-1]
            fns, insts = list(fns), list(insts)
            rec['agree'] = (bodies(reader(path).read_functions()) == bodies(fns)
                            and [pair(i) for i in reader(path).read_instructions()] == [pair(i) for i in insts])
        rec['out'] = [pair(i) for i in insts]
        heads = [l['n'] for l in ls if l['t'] == 'head']
        for k, f in enumerate(fns):
            n = f.name
            if not elfio:
                n = heads[k - 1] if 0 < k <= len(heads) and '<%s>' % heads[k - 1] in n else '?'
            rec['fns'].append({'n': n, 'body': [pair(i) for i in f.instructions],
                               'start': s32(f.start_addr()), 'final': s32(f.final_addr()), 'len': f.length_in_bytes()})
        program, ranges = from_functions_to_list_and_addr(fns)
        rec['program'] = [pair(i) for i in program]
        rec['ranges'] = [[s32(k), s32(v[0]), s32(v[1])] for k, v in ranges.items()]
        mixed = list(program)
        r.shuffle(mixed)
        d = from_instruction_list_to_dict(mixed)
        rec['asDict'] = [[s32(a), s32(d[a][0].encoding)] for a in sorted(d) if len(d[a]) == 1 and d[a][0].address == a]
        rec['asList'] = [pair(x[0]) for x in from_instruction_dict_to_list(d) if len(x) == 1]
    except Exception as e:
        rec['raised'] = True
        rec['show'] = repr(e)
    if not elfio:
        rec['refused'] = True
        for what in ('read', 'read_functions', 'read_instructions'):
            for s in (DisassembleReader.THUMB_SET, DisassembleReader.BOTH):
                try:
                    getattr(reader(path, s), what)()
                    rec['refused'] = False
                except Exception:
                    pass
    return rec
