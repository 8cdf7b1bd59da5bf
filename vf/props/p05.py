"""P05: the bit queue is first in first out, whatever the widths."""
import json
import random

from vf import tlc
from vf.util import s32

SPEC = 'BitQueueTrace'
MC = {'quick': [{'module': 'BitQueueImpl', 'cfg': 'BitQueueImpl_q.cfg'}],
      'thorough': [{'module': 'BitQueueImpl', 'cfg': 'BitQueueImpl_t.cfg', 'workers': 6}]}
ASSUMPTIONS = ['A chunk lies within the word it is taken from or placed in (from_bit + word_size <= 32)',
               'More bits than are left are only taken as the last operation, within a word']


def fill(r, h):
    """Puts words in a behaviour of the specification"""
    return [[op, w, at, r.getrandbits(32) if r.random() < .8 else r.choice([0, 0xffffffff])] for op, w, at in h]


def overdraw(r, ops):
    """Ends taking more bits than are left, all of them in the word the first one is in"""
    put = sum(w for op, w, _ in ops if op == 'e')
    got = sum(w for op, w, _ in ops if op == 'd')
    left, room = put - got, 32 - got % 32
    if left >= room:
        return ops
    w = r.randint(left + 1, room)
    return ops + [('d', w, r.choice([0, 32 - w, r.randint(0, 32 - w)]))]


def cases(tier, seed, scratch):
    r = random.Random('P05 %d' % seed)
    # behaviours of the specification
    res = tlc.run('BitQueueGen', 'BitQueueGen.cfg', scratch,
                  extra=['-simulate', 'num=%d' % (150 if tier == 'quick' else 2000), '-depth', '42', '-seed', str(seed)])
    gen = res.lines('VFGEN|')
    if not gen:
        raise tlc.TlcFailure(res.out[-2000:])
    for l in gen:
        yield {'k': 'behaviour of the specification', 'ops': fill(r, overdraw(r, json.loads(l.split('|', 1)[1])))}
    # fixed width (what the interleaver does), filled and then drained
    for w in range(1, 33):
        n = r.randint(1, 90)
        ops = [('e', w, r.choice([0, 32 - w, r.randint(0, 32 - w)])) for _ in range(n)]
        k = r.choice([0, n, n, r.randint(0, n)])
        ops += [('b', 0, 0)] + [('d', w, r.choice([0, 32 - w, r.randint(0, 32 - w)])) for _ in range(k)]
        yield {'k': 'one width', 'ops': fill(r, overdraw(r, ops))}
    # a long queue
    for n, w in ((300, 32), (400, 29), (700, 8), (1100, 3)):
        yield {'k': 'long queue', 'ops': fill(r, [('e', w, 0)] * n + [('b', 0, 0)] + [('d', w, 0)] * n)}
    # widths that change, around the borders of the words
    for _ in range(150 if tier == 'quick' else 1500):
        ops, n, bytes_ok = [], 0, True
        pool = r.choice([[32], [31, 32, 1], [16, 32], [1, 2, 3, 5, 7], list(range(1, 33)), [30, 31, 32], [8, 16, 24]])
        for _ in range(r.randint(5, 60)):
            w = r.choice(pool)
            at = r.choice([0, 32 - w, r.randint(0, 32 - w)])
            if r.random() < .5 or n < w:
                ops.append(('e', w, at))
                n += w
            else:
                ops.append(('d', w, at))
                n -= w
                bytes_ok = False
            if bytes_ok and r.random() < .2:
                ops.append(('b', 0, 0))
        yield {'k': 'changing widths', 'ops': fill(r, overdraw(r, ops))}


def observe(c):
    from semantic_codec.architecture.bits import BitQueue
    q = BitQueue(c['ops'][0][1] or 1)
    ops, tags = [], set()
    for op, w, at, value in c['ops']:
        e = {'op': op, 'w': w, 'at': at, 'value': s32(value), 'raised': False, 'result': 0, 'empty': True, 'words': []}
        try:
            if op != 'b':
                q.word_size = w
            if op == 'e':
                q.enqueue(value, at)
            elif op == 'd':
                e['result'] = s32(q.dequeue(value, at))
            else:
                e['words'] = [s32(v) for v in q.get_bytes()]
            e['empty'] = bool(q.empty())
        except Exception:
            e['raised'] = True
        ops.append(e)
        if e['raised']:
            break
    return {'ops': ops}
