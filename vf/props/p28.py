"""P28: storing a program without the packets it would lose."""
import os
import random
import runpy
import struct
import sys
import warnings

from vf import prog
from vf.util import s32

SPEC = 'StoreTrace'
MC = {'quick': [{'module': 'StoreMC', 'cfg': 'StoreMC_q.cfg'}], 'thorough': [{'module': 'StoreMC', 'cfg': 'StoreMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['Programs have an instruction at least', 'A chunk that ends its word may be stored as it was (see P04)']


def cases(tier, seed, scratch):
    r = random.Random('P28 %d' % seed)
    encs = prog.encodings('sha')
    ns = list(range(1, 46)) + [r.randint(46, 110) for _ in range(35)] + [r.randint(111, 260) for _ in range(8)] + [r.randint(320, 520)]
    if tier == 'thorough':
        ns += list(range(46, 200)) + [r.randint(100, 500) for _ in range(120)]
    for n in ns:
        words = [r.choice([r.choice(encs), r.choice(encs), r.getrandbits(32), 0xffffffff]) for _ in range(n)]
        yield {'k': 'stored', 'words': words, 'start': r.choice([0x8000, 0x10148]), 'old': r.random() < .3, 'cost': 10 + n * n // 50}
    for name in (['crc32', 'qsort_small'] if tier == 'quick' else prog.DISAM):
        yield {'k': 'stored', 'file': name, 'cost': 2000}
    for how in ['no file', 'no arguments', 'too many', 'nothing']:
        yield {'k': 'refused', 'how': how}


def observe(c):
    work = os.environ['VF_SCRATCH']
    src, out = os.path.join(work, 'program.disam'), os.path.join(work, 'stored')
    for p in (src, out, out + 'a100'):
        if os.path.exists(p):
            os.remove(p)
    if c.get('old'):
        # those of a former run
        for p in (out, out + 'a100'):
            with open(p, 'wb') as f:
                f.write(b'\x5a' * 3000)
    words, args = [], [src, out]
    if 'file' in c:
        with open(os.path.join(prog.repo(), prog.DATA, c['file'] + '.disam')) as f:
            text = f.read()
        words = prog.encodings(c['file'])
    elif 'words' in c:
        words = c['words']
        text = '.functions\n%s;main\n.text\n' % hex(c['start']) + ''.join(
            '%s;%x\n' % (hex(c['start'] + 4 * i), w) for i, w in enumerate(words))
    else:
        text = ''
        args = {'no file': [src + '.not', out], 'no arguments': [], 'too many': [src, out, out], 'nothing': [src, out]}[c['how']]
    with open(src, 'w') as f:
        f.write(text)
    argv, cwd, done, why = sys.argv, os.getcwd(), False, ''
    path = os.path.join(prog.repo(), 'store_packets.py')
    sys.argv = [path] + args
    os.chdir(work)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_path(path, run_name='__main__')
        done = True
    except SystemExit as e:
        done = not e.code
    except Exception as e:
        why = repr(e)[:200]
    finally:
        sys.argv = argv
        os.chdir(cwd)
    rec = {'j': c['k'], 'done': done, 'written': os.path.exists(out) or os.path.exists(out + 'a100'), 'words': [s32(w) for w in words]}
    if why:
        rec['show'] = why
    for k, p in (('kept', out + 'a100'), ('stored', out)):
        data = b''
        if os.path.exists(p):
            with open(p, 'rb') as f:
                data = f.read()
        rec[k] = [s32(x) for x in struct.unpack('<%dI' % (len(data) // 4), data)] if len(data) % 4 == 0 else []
    n = len(words)
    rec['tags'] = ['incomplete last packet'] if n % 4 else []
    return rec
