"""Restructuring preserves the order of the keys. Rule: for every shape of the nodes on the way of a put, a del and around a
node to repair, the in-order sequence of entries and subtrees afterwards is the one before with the new entry at its place
or without the removed one."""
from .common import *
from . import worlds
from .restructure import decide


def check(p, R):
    R.rule = __doc__
    decide(p, R, "C10")
    worlds.decide(p, R, "C10")
