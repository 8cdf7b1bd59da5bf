"""P10: a pass removes exactly what the statistics rule out."""
from vf.props import p09
from vf.props.p09 import SPEC, MC, ASSUMPTIONS      # noqa: F401


def cases(tier, seed, scratch):
    return p09.cases(tier, seed, scratch, 'passes')


def observe(c):
    return p09.observe(c, True)
