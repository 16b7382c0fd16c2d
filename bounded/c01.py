from . import ops
from .driver import *

RULE = ('random naming operations on random tables of up to 4 x 4 in the '
        'four data types, and random histories of six naming, structural and '
        'reordering operations, each followed by a full read of both name '
        'directions; a case is one operation or one history on one type')


def run(api):
    runops(api, [ops.setnames, ops.setnames, ops.lookups], 700, share=.5)
    runhist(api, [ops.setnames, ops.setnames, ops.structural, ops.permute,
                  ops.insertion, ops.repeat, ops.transpose], 250)
