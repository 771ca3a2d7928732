"""Dataflow by value numbering. In every operation that reads the tree, the length of the log is read in that same call
and the first block fetched on each path is the one at (that length - 1); version reports that length. A function
that serves a block looks it up in memory under the requested index only, reads the log at the requested index only,
remembers what it read only under that index, and reports a missing block only after the log itself said so."""
from .common import *


def ints(ip, st, args):
    for a in args:
        v = models.deep(ip, st, a)
        if v.op == "agg" and v.a[0] in ("coroutine", "closure"):
            for f in v.a[2]:
                f = models.deep(ip, st, f)
                if f.op == "lin" or f.op == "app" and ip.p.ty(f.a[2])["k"] == "int":
                    yield f
        elif v.op == "lin" or v.op == "app" and v.a[2] is not None and ip.p.ty(v.a[2])["k"] == "int":
            yield v


class Fresh(Monitor):
    events = ("core_info", "core_get", "quiet_call")

    def __init__(self, R, get):
        super().__init__(R)
        self.get = get

    def on_core_info(self, ip, st, core, call):
        st.setmon("asked", ONE)

    def first(self, ip, st, ix):
        if st.mon("first") is not None:
            return
        st.setmon("first", ONE)
        n = models.loglen(ip, st)
        if not ix:
            self.bad(ip, "starts from the last block", "descends into the tree without fetching the last block in this call")
            return
        if st.mon("asked") is None:
            self.bad(ip, "asks for the length", "fetches a block before asking the log for its length")
            return
        hs = [holds(st, eq_int(x, sub(n, ONE))) for x in ix]
        if any(h is True for h in hs):
            self.ok("starts from the last block", "index = length - 1")
        elif any(x.unk for x in ix):
            self.open("starts from the last block", "index not tracked")
        else:
            self.bad(ip, "starts from the last block", "the first block fetched is %s, not the last of the log (%s)" % (", ".join(show(x) for x in ix), show(sub(n, ONE))))

    def on_core_get(self, ip, st, core, index, call):
        self.first(ip, st, [index])

    def on_quiet_call(self, ip, st, body, args, call):
        if body.idx in self.get:
            self.first(ip, st, list(ints(ip, st, args)))


class Serve(Monitor):
    events = ("map_get", "map_insert", "core_get", "absent")

    def __init__(self, R, seq):
        super().__init__(R)
        self.seq = seq

    def same(self, ip, st, what, k, text):
        k = models.deep(ip, st, k)
        h = holds(st, eq_int(k, self.seq)) if k.op in ("lin", "app") else None
        if k is self.seq or h is True:
            self.ok(what)
        elif k.unk:
            self.open(what, show(k)[:80])
        else:
            self.bad(ip, what, text % show(k)[:80])

    def on_map_get(self, ip, st, **d):
        self.same(ip, st, "looked up under the requested index", d["key"], "a remembered block is looked up under %s instead of the requested index")

    def on_map_insert(self, ip, st, **d):
        self.same(ip, st, "remembered under the requested index", d["key"], "a block is remembered under %s instead of the index it was read from")
        if st.mon("read") is None:
            self.bad(ip, "remembers only what was read", "something is remembered for a block on a path that did not read it")

    def on_core_get(self, ip, st, core, index, call):
        self.same(ip, st, "read at the requested index", index, "block %s is read instead of the requested one")
        st.setmon("read", ONE)

    def on_absent(self, ip, st, **d):
        st.setmon("absent", ONE)


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    get = g.reaching(GET)
    roots = [b for h, n, b in write_roots(p, ("tree::Tree",), ("put_compare_and_swap", "del_compare_and_swap"))]
    for n in ("get", "traverse", "height", "print"):
        roots += methods(p, "tree::Tree", n)[:1]
    for b in roots:
        analyse(R, p, b, [Fresh(R, get)], INFO)
    for h in HANDLES:
        for b in methods(p, h, "version")[:1]:
            def final(ip, st, v, b=b):
                n = models.loglen(ip, st)
                v = models.deep(ip, st, v)
                hh = True if v is n else holds(st, eq_int(v, n))
                R.expect(hh if hh is not None or v.unk else False, "%s: is the current length" % b.path, "version reports %s" % show(v)[:80], b.span)
            analyse(R, p, b, [Fresh(R, get)], INFO, final=final)
    for b in methods(p, "blocks::Blocks", "get")[:1]:
        ks = [i for i in range(b.nargs) if p.ty(b.locals[i + 1])["k"] == "int" or p.ty(b.locals[i + 1])["k"] == "ref" and p.ty(p.ty(b.locals[i + 1])["to"])["k"] == "int"]
        if len(ks) != 1:
            R.open(b.path, "no single index parameter")
            continue
        ty = b.locals[ks[0] + 1]
        seq = app("arg", ks[0], ty=ty)
        if p.ty(ty)["k"] == "ref":
            seq = app("at", seq, ty=p.pointee(ty))

        def final(ip, st, v, b=b):
            for s, k, pay in res(ip, st, v):
                if k == "err" and pay.op == "agg" and pay.a[0].endswith("HyperbeeError"):
                    t = next(t for t in p.types if t["k"] == "adt" and "adt:" + t["path"] == pay.a[0])
                    if t["variants"][pay.a[1]]["name"].startswith("NoBlock"):
                        R.expect(s.mon("absent") is not None, "%s: absence comes from the log" % b.path, "a block is reported missing without the log having said so in this call", b.span)
                if k == "ok":
                    served = s.mon("read") is not None or any(x.op == "app" and x.a[0] == "mapget" for x in subterms(pay))
                    if not served and not pay.unk:
                        R.bad("%s: served block" % b.path, "a block is served that is neither read now nor remembered under its index: %s" % show(pay)[:80], b.span)
        analyse(R, p, b, [Serve(R, seq)], lambda e: GET(e) or "collections" in e, final=final)
