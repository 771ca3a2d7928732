"""Nodes stay within their size limits. Rule: for every shape within the limits before a put, a del or the repair of one
node, the nodes recorded at the append hold 4 to 8 keys (the root: up to 8) and one more child than keys; a node other than
the root that falls below 4 keys is given to the repair."""
from .common import *
from . import worlds
from .restructure import decide


def check(p, R):
    R.rule = __doc__
    decide(p, R, "C09")
    worlds.decide(p, R, "C09")
