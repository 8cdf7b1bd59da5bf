"""Running TLC."""
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcFailure(Exception):
    pass


class Result(object):
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = None
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = 'No error has been found' in out

    def error(self):
        i = self.out.find('Error:')
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]

    def lines(self, prefix):
        """The PrintT'ed strings that start with the prefix, once each, in order"""
        seen, res = set(), []
        for l in self.out.splitlines():
            l = l.strip()
            if l.startswith('"' + prefix) and l not in seen:
                seen.add(l)
                res.append(l[1:-1].replace('\\"', '"').replace('\\\\', '\\'))
        return res

    def actions(self):
        """{action: [distinct, generated]} out of -coverage"""
        res = {}
        for m in re.finditer(r'^<(\w+) line .*? of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)', self.out, re.M):
            res[m.group(1)] = [int(m.group(3)), int(m.group(4))]
        return res


def dumped_actions(path, names):
    """{action: [transitions, transitions]} out of -dump dot,actionlabels"""
    res = {n: [0, 0] for n in names}
    with open(path) as f:
        for l in f:
            m = re.search(r'->.*\[label="(\w+)', l)
            if m:
                res.setdefault(m.group(1), [0, 0])
                res[m.group(1)] = [res[m.group(1)][0] + 1] * 2
    os.remove(path)
    return res


def run(module, cfg, scratch, env=None, workers=1, heap='2g', timeout=400, extra=()):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Djava.io.tmpdir=' + meta,
           '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
           '-config', cfg] + list(extra) + [module + '.tla']
    with open(os.path.join(meta, 'out'), 'w+', errors='replace') as o:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        o.seek(0)
        return Result(rc, o.read())
