"""C02: cell-wise energy balance of all pipe-like parts."""

from vlib import nets, simkit, thermal
from vlib.core import Sub

RULE = (
    'a case counts when at least one cell-wise energy balance of a pipe-like '
    'part has a nonzero advection, conduction, loss or heating term, i.e. its '
    'temperatures change'
)
ASSUMPTIONS = [
    'the physical model (finite volumes, upwind, VDI Waermeatlas correlations) '
    'is the documented one; the reference is an independent implementation'
]


def preload():
    simkit.ms()


def run(case, rec):
    s, r, pf, w = thermal.step_check(
        case['net'], case['pump'], case['valve'], case.get('heat'), rec=rec
    )
    rec.label(*case['labels'])
    for p in r.parts.values():
        if p.numeric:
            rec.label('part:' + p.cls)
    rec.mark(len(w) > 0)


SUBCHECKS = [
    Sub('flow', lambda: nets.networks(tes=False, heat=True), run, 640, 20000),
    Sub('still', lambda: nets.networks(tes=False, heat=True, tiny=True, depth=1), run, 320, 10000),
]
