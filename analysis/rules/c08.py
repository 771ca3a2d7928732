"""Every node a write changes is part of the block it appends, and every node of the block but the root is linked from
its parent in place of the node it replaces. Rule: for every shape of the nodes on the way (put, del) and around a node
to repair, the nodes recorded at the append, followed from the last one, reach every recorded node once, reach no old
version of a changed node, and refer to nothing else; and the block appended for a record unfolds to the record's tree, for
records of every shape with up to 5 nodes in every order."""
from .common import *
from . import worlds
from .restructure import decide


def check(p, R):
    R.rule = __doc__
    decide(p, R, "C08")
    worlds.decide(p, R, "C08")
