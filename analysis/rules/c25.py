"""Insertion and deletion rebalance in the agreed way. Rule: for every shape of the nodes on the way the resulting nodes
are those of the agreed algorithm: split at the middle key; rotate from the left sibling, else from the right, else merge
with the left, else with the right; a key removed from an inner node is replaced from the edge leaf with more keys, the
left one on a tie; a root without keys gives way to its child."""
from .common import *
from . import worlds
from .restructure import decide


def check(p, R):
    R.rule = __doc__
    decide(p, R, "C25")
    worlds.decide(p, R, "C25")
