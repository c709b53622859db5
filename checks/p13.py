"""P13: the generated eT z program (left-hand side)."""
from checks.p12 import *   # noqa
from checks import p12
from checks.p12 import plan, LEVEL, ASSUMPTIONS   # noqa

FUNCS = [f.replace('_components', '_components_lhs') if 'einsum' in f and 'components' in f else f for f in p12.FUNCS]


def harnesses(tier):
    out = plan(tier, 'LHS')
    for h in out:
        h.functions = FUNCS
    return out
