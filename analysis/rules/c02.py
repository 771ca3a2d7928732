"""Effect analysis with path-sensitive refinement: no append to the log is reachable from a reading entry point.
Entry points from which the call graph (including coroutines, closures and boxed futures they create) cannot
reach an append are discharged by reachability; the others are interpreted abstractly with their actual flags
and must not reach the append on any feasible path."""
from .common import *

READS = {"tree::Tree": ("get", "traverse", "version", "height", "print"),
         "hb::Hyperbee": ("get", "traverse", "version", "height", "print", "sub"),
         "prefixed::Prefixed": ("get", "traverse", "new"),
         "ffi::Hyperbee": ("get", "version", "sub"), "ffi::Prefixed": ("get",), "external::": ("hb_get",),
         "traverse::Traverse": ("new", "poll_next")}


class NoAppend(Monitor):
    events = ("core_append",)

    def on_core_append(self, ip, st, core, data, call):
        self.bad(ip, "appends", "a reading operation can append %s to the log" % ("a header block" if is_header(data) else "a block"))


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    rel = g.reaching(APPEND)
    roots = []
    for ty, names in READS.items():
        for n in names:
            bs = methods(p, ty, n) if not ty.endswith("::") else [p.body(i) for i in p.by_path.get(ty + n, [])]
            roots += bs[:1]
    for i, r in enumerate(p.raw):
        if r["kind"] == "fn" and r.get("name") == "poll_next" and r.get("trait"):
            roots.append(p.body(i))
        if r["kind"] == "fn" and not r.get("trait") and r["path"].startswith(("Node::", "Children::", "blocks::Blocks::get")):
            roots.append(p.body(i))
    for b in roots:
        if b.idx not in rel:
            R.ok("%s: append not reachable" % b.path, "reachability over %d functions" % len(g.reach_from([b.idx])))
            R.roots.append(b.path)
            R.fns.update(p.raw[i]["path"] for i in g.reach_from([b.idx]))
            continue
        _, res_ = analyse(R, p, b, [NoAppend(R)], APPEND)
        if res_ is not None:
            R.ok("%s: no append" % b.path, "no feasible path appends")
