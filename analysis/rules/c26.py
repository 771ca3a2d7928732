"""The tree is a faithful ordered map over any history: by induction over the history. Step: on a log that holds a tree (of
each shape of a list, with symbolic keys and values) a get answers the entry under the key or none, a put and a delete append one
block whose tree lists the old entries with the one entry put in its place or taken out, in key order and within the limits of
the nodes, and an operation that changes nothing appends nothing. The next operation starts from that block: the length and the
root are read anew and no stored block changes in memory (the rules of C22 and C06). A traversal without bounds visits every key
and child of every node in order (the rule of C13)."""
from .common import *
from . import worlds, scans, c06, c13, c22


def check(p, R):
    R.rule = " ".join(__doc__.split())
    worlds.decide(p, R, "C26", 60)
    scans.scan(p, R, "C26")
    worlds.spread(R, [c13.modular, c06.check, c22.check], lambda Q, m: m(p, Q), 300)
