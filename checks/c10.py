"""C10: PID controllers."""

import numpy as np
from hypothesis import strategies as st

from vlib import ctrlkit, simkit
from vlib.core import Sub

RULE = (
    'a case counts when the control variable takes at least three different '
    'values and is not always at a limit'
)
ASSUMPTIONS = ['before the first call the process variable counts as 25 degC (deadtime)']


def preload():
    simkit.ms()


SUBCHECKS = [
    Sub('histories', lambda: ctrlkit.histories(('PID',)), ctrlkit.run_history, 1500, 30000),
    Sub('loops', lambda: ctrlkit.loops(('PID',)), ctrlkit.run_loop, 400, 6000),
]
