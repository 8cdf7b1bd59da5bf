"""Programs for the drivers."""
import os

from vf.util import s32

DATA = 'tests/data'
DISAM = ['basicmath_small', 'bitcount', 'crc32', 'dijkstra_small', 'fft', 'helloworld_elfiodissasembly', 'qsort_small', 'sha']
_cache = {}


def repo():
    return os.environ.get('VF_REPO', '/repo')


def encodings(name='dijkstra_small'):
    """The encodings of a program of the repository, read without its readers"""
    if name not in _cache:
        res, section = [], ''
        with open(os.path.join(repo(), DATA, name + '.disam')) as f:
            for l in f:
                if l.startswith('.'):
                    section = l.strip()[1:]
                elif section.startswith(('init', 'text', 'plt', 'fini')) and l.count(';') >= 1:
                    res.append(int(l.split(';')[1], 16))
        _cache[name] = res
    return _cache[name]


def caps(enc, addr):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    return CAPSInstruction(enc, addr)


def build(words, addrs):
    """{address: [instruction...]} out of lists of encodings"""
    return {a: [caps(e, a) for e in es] for a, es in zip(addrs, words)}


def dump(program):
    """(addresses, encodings by address, whether the candidates of each address say they are there)"""
    addrs = sorted(program)
    return (addrs, [[s32(i.encoding) for i in program[a]] for a in addrs],
            [all(i.address == a for i in program[a]) for a in addrs])
