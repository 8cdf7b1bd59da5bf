"""P01: interleaving is lossless. P02 shares the driver."""
import copy
import random

from vf.util import s32, num

SPEC = 'InterleaveTrace'
MC = {'quick': [{'module': 'InterleaveMC', 'cfg': 'InterleaveMC_q.cfg'}],
      'thorough': [{'module': 'InterleaveMC', 'cfg': 'InterleaveMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The chunk width divides the word size (1, 2, 4, 8, 16 or 32 bits)',
               'The order is a permutation of the packets']
WIDTHS = [1, 2, 4, 8, 16, 32]


def words(r, n):
    kind = r.random()
    if kind < .1:
        return [0xffffffff] * n
    if kind < .15:
        return [1 << r.randrange(32) for _ in range(n)]
    if kind < .25:
        return [r.getrandbits(8) for _ in range(n)]
    if kind < .4:
        # null words, at the end among others
        ws = [r.choice([0, 0, r.getrandbits(32)]) for _ in range(n)]
        z = r.randint(0, n)
        return ws[:n - z] + [0] * z
    return [r.getrandbits(32) for _ in range(n)]


def pick_n(r, top):
    k = r.random()
    if k < .35:
        return r.randint(1, 12)
    if k < .55:
        return min(top, max(1, 4 ** r.randint(1, 3) + r.randint(-1, 1)))
    return r.randint(1, top)


def order_of(case):
    """The order the users build, or any other permutation"""
    if case['order'] is None:
        from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
        o = build_2d_interleave_sp(case['n'], flat=True)
        return o if case['floats'] else [int(x) for x in o]
    return list(case['order'])


def make(r, n, width, size, sp, lost):
    o = list(range(n))
    r.shuffle(o)
    c = {'k': ('sp' if sp else 'permutation'), 'n': n, 'width': width, 'data': words(r, size),
         'order': None if sp else o, 'floats': bool(sp and r.random() < .4), 'lost': sorted(lost),
         'none': r.random() < .3}
    c['cost'] = 40 + size * 32 // width
    return c


def cases(tier, seed, scratch, lossy=False):
    r = random.Random('P01 %d %s' % (seed, lossy))
    res = []
    # every packet count up to 20 and every width, with full and incomplete last rounds
    for n in range(1, 21):
        for w in WIDTHS:
            res.append((n, w, r.randint(1, 6), r.random() < .7))
    for _ in range(500 if tier == 'quick' else 5000):
        w = r.choice(WIDTHS)
        n = pick_n(r, 90 if tier == 'quick' else 300)
        size = r.randint(1, max(1, min(60, (3 * n * w) // 32 + 3)))
        res.append((n, w, size, r.random() < .6))
    # many packets, and a message that reaches the last ones
    for n in (255, 256, 257, 258, 300, 513, 700) + ((1023, 1025, 2050) if tier == 'thorough' else ()):
        for w in (1, 2, 4):
            res.append((n, w, n * w // 32 + r.randint(1, 8), r.random() < .5))
    # long messages
    for size in (130, 260, 515) + ((1030, 1500) if tier == 'thorough' else ()):
        res.append((r.choice([3, 8, 20, 40]), r.choice([4, 8, 8, 16]), size, r.random() < .5))
    if tier == 'thorough':
        for n in range(21, 200):
            res.append((n, r.choice(WIDTHS), r.randint(1, 70), True))
    for n, w, size, sp in res:
        lost = set()
        if lossy:
            if r.random() < .08:
                lost = set(range(n))
            elif r.random() < .3:
                # a burst
                k = r.randint(1, max(1, n - 1))
                f = r.randint(0, n - k)
                lost = set(range(f, f + k))
            else:
                lost = set(r.sample(range(n), r.randint(0 if n == 1 else 1, max(n - 1, 0))))
        yield make(r, n, w, size, sp, lost)


def chunks_in(packet, most):
    """How many chunks can be taken out of a copy of the packet (of the width the packet has)"""
    q, n = copy.deepcopy(packet), 0
    while n <= most and not q.empty():
        q.dequeue(0, 0)
        n += 1
    return n


def observe(c):
    from semantic_codec.interleaver.interleaver2d import interleave, deinterleave
    order, w = order_of(c), c['width']
    ints = [num(x) for x in order]
    packets = interleave(list(c['data']), order, w)
    pids = sorted(packets.keys())
    rec = {'order': ints, 'width': w, 'data': [s32(v) for v in c['data']],
           'pids': [num(p) for p in pids],
           'packets': [[s32(v) for v in packets[p].get_bytes()] for p in pids], 'lost': c['lost'],
           'chunks': [chunks_in(packets[p], len(c['data']) * 32 // w) for p in pids],
           'raised': False, 'result': [], 'errors': []}
    for p in c['lost']:
        if c['none']:
            packets[p] = None
        else:
            packets.pop(p, None)
    try:
        data, errors = deinterleave(packets, order, w)
    except Exception:
        rec['raised'] = True
        return rec
    rec['result'] = [s32(v) for v in data]
    rec['errors'] = [[num(a), num(b)] for a, b in errors]
    total = len(c['data']) * 32 // w
    rec['tags'] = ['incomplete last round' if total % len(order) else 'complete rounds'] + \
                  (['packets without data'] if total < len(order) else []) + (['single packet'] if len(order) == 1 else [])
    return rec
