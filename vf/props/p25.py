"""P25: compressing is removing the bits that will be lost."""
import random
import struct

from vf.util import num

SPEC = 'CompressTrace'
MC = {'quick': [{'module': 'CompressMC', 'cfg': 'CompressMC_q.cfg'}], 'thorough': [{'module': 'CompressMC', 'cfg': 'CompressMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The pieces to remove do not overlap', 'Words have less than 10000 bits (the order of the pieces)']


def cases(tier, seed, scratch):
    r = random.Random('P25 %d' % seed)
    for n in range(360 if tier == 'quick' else 3500):
        size = r.choice([0, 1, 2, r.randint(1, 12), r.randint(8, 30)]) if n % 120 else r.choice([130, 260, 400])
        data = [r.choice([r.getrandbits(32), 0xffffffff, 0]) if r.random() < .9 else r.randrange(256) for _ in range(size)]
        shift = r.choice([1, 2, 2, 2, 3, 4, 8])
        errors, at = [], r.choice([0, 0, r.randint(0, 40)])
        dense = r.choice([2, 8, 40, 200])
        while size:
            w, b = divmod(at, 32)
            x = [w, b] if r.random() < .6 else [w, b, r.randint(0, 9)]
            k = x[2] if len(x) > 2 else shift
            if at + max(k, 1) > 32 * size + (8 if r.random() < .1 else 0):
                break
            errors.append(x)
            at += max(k, 1) + r.choice([0, 0, r.randint(0, dense)])
        if r.random() < .1:
            errors = []
        if size and r.random() < .1:
            errors.append([size + r.choice([0, 0, r.randint(0, 3)]), r.choice([0, 0, r.randint(0, 31)])])       # past the end: nothing to remove
        if r.random() < .4:
            r.shuffle(errors)
        yield {'k': r.choice(['shift', 'shift', 'swap']), 'data': data, 'errors': errors, 'shift': shift,
               'tuples': r.random() < .8, 'cost': 3 + size}


def observe(c):
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor
    data, errors = list(c['data']), [tuple(e) if c['tuples'] else list(e) for e in c['errors']]
    given = list(errors)
    if c['shift'] == 2:
        k = (SwapCompressor if c['k'] == 'swap' else ShiftCompressor)(errors, data)
    else:
        k = (SwapCompressor if c['k'] == 'swap' else ShiftCompressor)(errors, data, c['shift'])
    k.compress()
    return {'j': c['k'], 'bytes': [b for w in c['data'] for b in struct.pack('<I', w)], 'errors': [[num(x) for x in e] for e in c['errors']],
            'shift': c['shift'], 'result': list(k.compressed_buffer), 'same': data == c['data'] and errors == given}
