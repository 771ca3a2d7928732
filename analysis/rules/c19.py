"""Malformed blocks are reported, not fatal. Rule: the operations that read the tree are interpreted on logs of known
content (what the decoder returns for each block is given; keys and values stay symbolic), every loop followed: nodes with every
small number of keys and child numbers, blocks that are missing, cannot be decoded, or lack the node referred to, references to later
blocks, rings of references, empty leaves, leaves at different depths, too many keys. No path reaches a panic, a failed
bounds check or an overflow; where the content is not a well-formed node every path that needs it ends in an error; where
references form a ring the operation still ends."""
from .common import *
from .c17 import g, result_ty
from .traversal import Quiet
from engine import facts
from engine.models import ok as ok_, err as err_, some, NONE
from engine.term import EXPAND


class Log:
    """a log of known content: {index: list of (keys, children) | "bytes" (not decodable) | "index" (index not decodable)}"""

    def __init__(self, p, blocks, length):
        self.p, self.blocks, self.length, self.cached = p, blocks, length, False
        self.read = []

    def number(self, st, t):
        if is_const(t):
            return cval(t)
        for i in range(self.length + 1):
            if holds(st, eq_int(t, C(i))) is True:
                return i
        return None

    def fetch(self, ip, st, ix):
        i = self.number(st, ix)
        if i is None:
            return None
        if i >= self.length:
            return [(st, ok_(NONE))]
        st.setmon("read", mk("tuple_", *(tuple(x for x in (st.mon("read").a if st.mon("read") is not None else ())) + (i,))))
        return [(st, ok_(some(app("blk", C(i), ty=ip.vecu8))))]

    def decode(self, ip, st, b, mty):
        t = self.p.ty(mty)
        i = next((cval(x.a[1][0]) for x in subterms(b) if x.op == "app" and x.a[0] in ("blk", "ixb") and is_const(x.a[1][0])), None)
        if t["k"] != "adt" or i is None and not (b.op == "seq" and not b.a):
            return None
        name = t["path"].split("::")[-1]
        fs = [x[0] for x in t["variants"][0]["fields"]]
        what = self.blocks.get(i, [])
        if name == "Node":
            if what == "bytes":
                return err_(app("decerr", mk("const", "node")))
            vals = {"index": app("ixb", C(i), ty=ip.vecu8), "key": app("key", C(i), ty=ip.vecu8),
                    "value": app("value", C(i), ty=self.p.ty(mty)["variants"][0]["fields"][fs.index("value")][1])}
            return agg("adt:" + t["path"], 0, tuple(vals[f] for f in fs))
        if name == "YoloIndex":
            if what == "index":
                return err_(app("decerr", mk("const", "index")))
            lt = next(q for q in self.p.types if q["k"] == "adt" and q["path"].endswith("yolo_index::Level"))
            lf = [x[0] for x in lt["variants"][0]["fields"]]
            num = lambda xs: mkseq([mk("e", C(x)) for x in xs])
            lv = [agg("adt:" + lt["path"], 0, tuple({"keys": num(k), "children": num(c)}[f] for f in lf)) for k, c in what]
            return agg("adt:" + t["path"], 0, (mkseq([mk("e", x) for x in lv]),))
        return None


def run(p, R, f, log, seconds=30, unroll=12):
    out = {"ends": [], "bad": [], "ip": None, "why": None}

    class M(Quiet):
        events = ("panic", "assert")

        def on_panic(self, ip, st, why=None, **k):
            out["bad"].append((False, "panic: %s" % (why,), call_site(ip)))

        def on_assert(self, ip, st, cond=None, known=None, kind=None, **k):
            if known is not True:
                s = st.copy()
                if known is False or facts.assume(s, neg(cond)):
                    out["bad"].append((False if known is False or not cond.unk else None, "panic: %s" % kind, call_site(ip)))

    def setup(ip):
        out["ip"] = ip
        ip.graph = g(p)
        ip.cap, ip.errcap, ip.unroll, ip.world = 64, 1, unroll, log
        ip.relevant = g(p).reach_from([f.idx])

    def final(ip, st, v):
        out["ends"] += [(s, k, pay) for s, k, pay in res(ip, st, v)]
    Q = Report("X")
    EXPAND[0] = 12
    try:
        r = analyse(Q, p, f, [M(Report("X"))], None, setup=setup, final=final, seconds=seconds, budget=400000)
    finally:
        EXPAND[0] = 4
    R.steps += Q.steps
    R.fns |= Q.fns
    R.quiet |= Q.quiet
    R.paths += Q.paths
    R.roots.append(f.path)
    out["why"] = next(iter(Q.undec.values()), None)
    out["cut"] = [] if out["why"] else list(out["ip"].cut)
    if out["cut"]:
        out["why"] = str(out["cut"][:2])
    return out


LEAF = [([1], [])]
BIG = 2 ** 63


def grid():
    """one node with every small number of keys and numbers of child"""
    for k in range(4):
        for m in range(11):
            refs = [x for j in range(m) for x in ((1, 0)[j % 2],)]
            bad = m != 0 and (k == 0 or m != 2 * k + 2)
            yield "a root with %d keys and %d numbers for children" % (k, m), {3: [([1] * k, refs)]}, bad


def roots():
    """logs whose last block has no well-formed root: every operation that reads the tree has to fail"""
    yield "a root block without nodes", {3: []}
    yield "a root block that cannot be decoded", {3: "bytes"}
    yield "a root block with an index that cannot be decoded", {3: "index"}
    yield "a root with one key and half a child", {3: [([1], [1, 0, 2])]}
    yield "a root with one key and three children", {3: [([1], [1, 0, 2, 0, 1, 0])]}
    yield "a root with two keys and two children", {3: [([1, 2], [1, 0, 2, 0])]}
    yield "a root without keys that has a child", {3: [([], [1, 0])]}


def below():
    """logs with a well-formed root none of whose children can be read"""
    two = lambda *r: [([1], list(r))]
    for o in (1, 7, 2 ** 32, BIG):
        yield "children at offset %d of a block with one node" % o, {3: two(1, o, 2, o)}
    yield "children at an offset its own block does not have", {3: two(3, 1, 3, 1)}
    for s in (4, 9, BIG):
        yield "children in block %d of a log of 4" % s, {3: two(s, 0, s, 0)}
    yield "children in blocks that cannot be decoded", {3: two(1, 0, 2, 0), 1: "bytes", 2: "bytes"}
    yield "children in blocks with an index that cannot be decoded", {3: two(1, 0, 2, 0), 1: "index", 2: "index"}
    yield "children in blocks without nodes", {3: two(1, 0, 2, 0), 1: [], 2: []}
    for what, node in (("half a child", ([1], [1])), ("one child for one key", ([1], [1, 0])), ("a child but no key", ([], [1, 0])),
                       ("three children for one key", ([1], [1, 0, 1, 0, 1, 0]))):
        yield "children with %s in other blocks" % what, {3: two(1, 0, 2, 0), 1: [node], 2: [node]}
        yield "children with %s in the same block" % what, {3: two(3, 1, 3, 1) + [node]}


def rings():
    """logs in which a descent comes back to where it was"""
    two = lambda *r: [([1], list(r))]
    yield "a root that is its own child", {3: two(3, 0, 3, 0)}
    yield "a child that refers back to the root", {3: two(3, 1, 3, 1) + two(3, 0, 3, 0)}


def odd():
    """logs of well-formed nodes that are no B-tree: operations may do anything but panic"""
    two = lambda *r: [([1], list(r))]
    E = [([], [])]
    for a, b in ((E, LEAF), (LEAF, E), (E, E)):
        yield "empty leaves below the root", {3: two(1, 0, 2, 0), 1: a, 2: b}
    for a, b in ((E, LEAF), (LEAF, E), (E, E)):
        yield "empty leaves two levels below the root", {3: two(3, 1, 3, 2) + two(1, 0, 2, 0) + two(2, 0, 1, 0), 1: a, 2: b}
    yield "leaves at different depths", {3: two(1, 0, 3, 1) + two(1, 0, 2, 0)}
    yield "leaves at different depths (mirrored)", {3: two(3, 1, 1, 0) + two(1, 0, 2, 0)}
    yield "a full leaf beside an inner node", {3: two(3, 1, 2, 0) + two(1, 0, 2, 0), 2: [([1] * 6, [])]}
    yield "a full inner node beside a leaf", {3: two(1, 0, 3, 1) + [([1] * 6, [1, 0] * 7)]}
    yield "both children the same node", {3: two(1, 0, 1, 0)}
    yield "a node with more keys than fit", {3: [([1] * 12, [])]}


def keys():
    """logs whose tree has a key that cannot be read"""
    yield "a key in a block that is not there", {3: [([9], [])]}
    yield "a key in a block that cannot be decoded", {3: [([2], [])], 2: "bytes"}
    yield "a key in a block with an index that cannot be decoded", {3: [([2], [])], 2: "index"}
    yield "a key in a block with a malformed node", {3: [([2], [])], 2: [([1], [1])]}


def norm(blocks):
    out = {1: LEAF, 2: LEAF}
    out.update(blocks)
    return out


def modular(p, R):
    R.rule = " ".join((__doc__ or "").split())
    ops = {n: methods(p, "tree::Tree", n) for n in ("get", "height", "traverse", "print", "put", "put_compare_and_swap", "del", "del_compare_and_swap")}
    found = {}

    def add(key, v, text="", where=None):
        """worst of the cases of one obligation"""
        rank = {False: 2, None: 1, True: 0}
        if key not in found or rank[v] > rank[found[key][0]]:
            found[key] = (v, text, where)

    def one(name, what, blocks, want):
        for f in ops[name]:
            o = run(p, R, f, Log(p, norm(blocks), 4))
            for v, text, where in o["bad"]:
                add("%s does not panic" % name, v, "%s on %s" % (text, what), where)
            if o["why"]:
                add("%s does not panic" % name, None, "%s: %s" % (what, o["why"][-200:]))
                if want:
                    add("%s reports" % name, None, "%s: %s" % (what, o["why"][-200:]))
                continue
            add("%s does not panic" % name, True, "no path to a panic")
            if want:
                for s, k, pay in o["ends"]:
                    if k == "err":
                        add("%s reports" % name, True, "every path ends in an error")
                    elif s.mon("read") is None:
                        add("%s reports" % name, None, "the last block is not read for %s" % what)
                    elif want == "all":
                        add("%s reports" % name, False, "returns %s for %s" % (show(pay)[:60], what), f.path)
                    elif want == "found":
                        for s2, q, _ in variants(o["ip"], s, pay):
                            add("%s reports" % name, q == 1 or False, "returns None for %s" % what, f.path)

    for what, blocks, bad in grid():
        one("get", what, blocks, "all" if bad else None)
    for what, blocks in roots():
        for name in ops:
            one(name, what, blocks, "all")
    for what, blocks in below():
        one("get", what, blocks, "found")
        one("height", what, blocks, "all")
        for name in ("put", "del"):
            one(name, what, blocks, None)
    for what, blocks in keys():
        for name in ("get", "put", "del"):
            one(name, what, blocks, "all")
    for what, blocks in rings():
        for name in ("get", "height"):
            o = run(p, R, ops[name][0], Log(p, norm(blocks), 4), unroll=100) if ops[name] else {"why": "no such operation", "cut": ()}
            if o["cut"]:
                add("%s ends" % name, False, "follows more than 100 nodes (%s) of %s" % (", ".join(sorted({x[0] for x in o["cut"]})), what), ops[name][0].path)
            elif o["why"]:
                add("%s ends" % name, None, "%s: %s" % (what, o["why"][-200:]))
            else:
                add("%s ends" % name, all(k == "err" for s, k, v in o["ends"]) or None, "every path ends in an error")
    for what, blocks in odd():
        for name in ("get", "height", "put", "del"):
            one(name, what, blocks, None)
    for k, (v, text, where) in found.items():
        R.expect(v, k, text, where)


def check(p, R):
    modular(p, R)
    from . import scans
    scans.scan(p, R, "C19")
