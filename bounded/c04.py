from . import ops
from .driver import *

RULE = ('random tables of up to 4 x 4 (ints, floats, text, missing values; '
        'all, some or no names), in each of the four data types and several '
        'internal histories and views, one random operation each, compared '
        'with a table model; a case is one operation on one type')


def run(api):
    runops(api, ops.C04, 1300)
