"""A block lists its nodes root first, depth first. Rule: the function that stores a record of nodes is interpreted on
records of every tree shape with up to 5 nodes (thorough: 6), recorded in every order, with references to old nodes in between
and with a recorded node that nothing refers to; the index message appended starts with the nodes in depth-first order, references
to nodes of the block carry their position in it, references to older blocks are as they were."""
from .common import *
from . import worlds
from .restructure import decide


def check(p, R):
    R.rule = __doc__
    decide(p, R, "C24")
    worlds.decide(p, R, "C24")
