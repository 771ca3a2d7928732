"""Lockset typestate along every path of every write entry point of the handles (abstract interpretation): the set
of exclusive (write) guards held is tracked together with the identity of the guard; from the first read of the log
(length or block) to the data append there must be one and the same exclusive guard held without interruption,
and the lock it belongs to must be of the same class for all entry points of all handles, and be reached from the
handle through shared ownership (not a lock created by the operation itself)."""
from .common import *

WHO = {"hb::Hyperbee": ("put", "put_compare_and_swap", "del", "del_compare_and_swap", "create_header"),
       "prefixed::Prefixed": ("put", "put_compare_and_swap", "del", "del_compare_and_swap"),
       "ffi::Hyperbee": ("put", "delete"), "ffi::Prefixed": ("put", "delete")}


class Excl(Monitor):
    events = ("core_info", "core_append", "quiet_call")

    def __init__(self, R, common):
        super().__init__(R)
        self.common = common
        self.seen = False

    def excl(self, st):
        return frozenset((l[0], l[1], l[3]) for l in st.locks if l[2] == "w" and not self.own(l[1]))

    def own(self, lock):
        """a lock that this operation made itself serialises nothing"""
        return lock.op == "ptr" and lock.a[0].op in ("obj", "loc")

    def touch(self, ip, st, what):
        self.seen = True
        held = self.excl(st)
        prev = st.mon("excl")
        if prev is not None:
            ids = set(prev.a[2])
        keep = [h for h in held if prev is None or h[0] in ids]
        st.setmon("excl", tup(*[h[0] for h in sorted(keep, key=lambda h: h[0].uid)]))
        if not held:
            self.bad(ip, "%s without exclusive access" % what, "%s while no exclusive guard of the tree is held" % what)
            return
        if not keep:
            self.bad(ip, "guard released", "the exclusive guard is released and taken anew between reading the tree and %s" % what)
            return
        self.ok(what, "under one exclusive guard")
        cl = {h[2] for h in keep}
        self.common.setdefault("cls", {}).setdefault(self.root, []).append(cl)

    def on_quiet_call(self, ip, st, body, args, call):
        if body.idx in self.common["get"]:
            self.touch(ip, st, "reading a block")

    def on_core_info(self, ip, st, **d):
        self.touch(ip, st, "reading the length")

    def on_core_append(self, ip, st, **d):
        self.touch(ip, st, "appending")


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    common = {"get": g.reaching(lambda e: GET(e) or INFO(e))}
    for h, names in WHO.items():
        for n in names:
            bs = methods(p, h, n)
            if not bs:
                continue
            analyse(R, p, bs[0], [Excl(R, common)], lambda e: APPEND(e) or INFO(e))
    inter = None
    for root, sets in common.get("cls", {}).items():
        i = set.intersection(*sets)
        inter = i if inter is None else inter & i
    if inter is not None:
        R.expect(bool(inter), "one lock for all writers", "the write operations do not exclude each other: they hold %s" % {r: sorted(set.intersection(*s)) for r, s in common["cls"].items()})
    R.assume.append("handles made by Hyperbee::sub share the tree's lock (checked by C21: sub passes its own tree)")
