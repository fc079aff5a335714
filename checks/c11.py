"""C11: two-point controllers."""

import numpy as np
from hypothesis import strategies as st

from vlib import ctrlkit, simkit
from vlib.core import Sub

RULE = (
    'a case counts when the control variable takes at least two different '
    'values (the controller switches)'
)
ASSUMPTIONS = ['before the first call the process variable counts as 25 degC (deadtime)']


def preload():
    simkit.ms()


SUBCHECKS = [
    Sub('histories', lambda: ctrlkit.histories(('BangBang', 'TwoSensors')), ctrlkit.run_history, 1500, 30000),
    Sub('loops', lambda: ctrlkit.loops(('BangBang', 'TwoSensors')), ctrlkit.run_loop, 400, 6000),
]
