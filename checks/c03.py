"""C03: cell-wise energy balance of thermal storages."""

from vlib import nets, simkit, thermal
from vlib.core import Sub

RULE = (
    "a case counts when at least one storage is part of the network and its "
    "cells exchange heat (advection, mixing, conduction, losses), i.e. the "
    "temperatures change"
)
ASSUMPTIONS = [
    'the physical model (finite volumes, upwind, VDI Waermeatlas correlations) '
    'is the documented one; the reference is an independent implementation'
]


def preload():
    simkit.ms()


def has_tes(case):
    return any(p['cls'] == 'Tes' for p in case['net']['parts'])


def run(case, rec):
    s, r, pf, w = thermal.step_check(
        case['net'], case['pump'], case['valve'], case.get('heat'), rec=rec
    )
    rec.label(*case['labels'])
    for p in r.parts.values():
        if p.numeric:
            rec.label('part:' + p.cls)
    rec.mark(has_tes(case))


SUBCHECKS = [
    Sub('ports', lambda: nets.networks(kinds=('tes',), depth=1), run, 480, 16000),
    Sub('flow', lambda: nets.networks(kinds=('chain', 'loop', 'mix'), tes=True, depth=1).filter(has_tes), run, 160, 6000),
    Sub('still', lambda: nets.networks(kinds=('tes',), depth=0, tiny=True), run, 320, 10000),
]
