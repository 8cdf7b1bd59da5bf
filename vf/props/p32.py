"""P32: the text progress bar."""
import contextlib
import io
import random
import re

SPEC = 'ProgressTrace'
MC = {'quick': [{'module': 'ProgressMC', 'cfg': 'ProgressMC_q.cfg'}], 'thorough': [{'module': 'ProgressMC', 'cfg': 'ProgressMC_t.cfg', 'workers': 4}]}
ASSUMPTIONS = ['The distance between prints is 1 or more, and it is told of each iteration once']
FULL = '\u2588'
BAR = r'\r(.*?) \|([' + FULL + r'-]*)\| (\d+)(?:\.(\d+))?% ([^\r\n]*)(\n?)'


def cases(tier, seed, scratch):
    r = random.Random('P32 %d' % seed)
    for n in range(300 if tier == 'quick' else 2500):
        total = r.choice([0, 1, 2, r.randint(0, 30), r.randint(0, 30), r.randint(30, 250), 100]) if n % 100 else r.choice([400, 700])
        yield {'k': 'bar', 'total': total, 'first': r.choice([0, 0, 0, r.randint(0, total), r.choice([r.randint(0, total), total, total + r.randint(1, 20)])]), 'dist': r.choice([1, 2, 4, 5, 10, 10, 20, 33, 100, r.randint(1, 50)]),
               'decimals': r.choice([0, 1, 1, 2]), 'length': r.choice([1, 10, 50, 100, r.randint(1, 60)]), 'prefix': r.choice(['', 'Recovering:', 'a b']),
               'suffix': r.choice(['', 'done', 'Complete (1)']), 'more': r.choice([0, 0, 1, 5]), 'less': r.choice([0, 0, 0, 3]), 'change': r.choice([-1, r.randint(0, 20)]),
               'defaults': r.random() < .1, 'cost': 1 + total}


def observe(c):
    from semantic_codec.report.print_progress import TextProgressBar
    calls = []
    first, prefix, suffix = c['first'], c['prefix'], c['suffix']
    dist, decimals, length = c['dist'], c['decimals'], c['length']
    rec = {'total': c['total'], 'first': first, 'raised': False}
    try:
        if c['defaults']:
            dist, decimals, length, prefix, suffix = 10, 1, 100, '', ''
            bar = TextProgressBar(first, c['total'])
        else:
            bar = TextProgressBar(iteration=first, total=c['total'], prefix=prefix, suffix=suffix, decimals=decimals, bar_length=length, print_dist=dist)
        for k in range(max(1, max(0, c['total'] - first) + c['more'] - c['less'])):
            if k == c['change']:
                # labels may change while it goes on
                prefix, suffix = prefix + '+', 'changed'
                bar.prefix, bar.suffix = prefix, suffix
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                bar.progress()
            lines, text = [], out.getvalue()
            while text:
                m = re.match(BAR, text)
                if not m:
                    raise ValueError('not a bar: %r' % text[:60])
                text = text[m.end():]
                whole, part = m.group(3), m.group(4) or ''
                end = m.group(6) == '\n'
                lines.append({'pct': int(whole + (part if part or not end else '')) * (10 ** (decimals - len(part))),
                              'filled': m.group(2).count(FULL), 'length': len(m.group(2)), 'newline': end,
                              'labels': m.group(1) == prefix and m.group(5) == suffix and '-' + FULL not in m.group(2) and
                              (end or len(part) == decimals)})
            calls.append(lines)
    except Exception as e:
        rec.update(raised=True, show=repr(e)[:200])
    rec.update(calls=calls, dist=dist, length=length, scale=10 ** decimals)
    return rec
