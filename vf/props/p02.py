"""P02: losses are localised."""
from vf.props import p01

SPEC, MC, ASSUMPTIONS, observe = p01.SPEC, p01.MC, p01.ASSUMPTIONS, p01.observe


def cases(tier, seed, scratch):
    return p01.cases(tier, seed, scratch, lossy=True)
