"""P12: the compact form of a solution tells the original of every address."""
from vf.props import p11

SPEC, MC, ASSUMPTIONS, observe = p11.SPEC, p11.MC, p11.ASSUMPTIONS, p11.observe


def cases(tier, seed, scratch):
    return p11.cases(tier, seed, scratch, stream=True)
