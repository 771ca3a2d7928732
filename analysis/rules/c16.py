"""Abstract interpretation of every operation that can append, with linear facts about the length of the log. A header
block (payload built by encoding the Header message) may only be appended where the length is known to be 0, so it
becomes block 0 and at most one exists; a data block only where the length is known to be at least 1; the header
names the protocol 'hyperbee' and carries the caller's metadata; creating a header succeeds only by appending one;
whenever a block is fetched at an index computed from the length of the log, that index is known not to be 0."""
from .common import *


def seq_bytes(t):
    """constant byte strings occurring in a term"""
    out = []
    for x in subterms(t):
        if x.op == "seq":
            if x.a and all(p.op == "e" and is_const(p.a[0]) for p in x.a):
                out.append(bytes(cval(p.a[0]) & 255 for p in x.a))
    return out


class Hdr(Monitor):
    events = ("core_append", "core_get", "quiet_call", "appended")

    def __init__(self, R, g, get):
        super().__init__(R)
        self.g, self.get = g, get

    def on_core_append(self, ip, st, core, data, call):
        n = models.loglen(ip, st)
        if is_header(data):
            h = holds(st, eq_int(n, ZERO))
            if h is True:
                self.ok("header only into an empty log", "length = 0 is known")
            elif n.unk or h is None and any(f.unk for f in st.facts):
                self.open("header into an empty log", "the length is not tracked")
            else:
                self.bad(ip, "header only into an empty log", "a header block is appended where the log may hold blocks already")
            for x in subterms(data):
                if x.op == "agg" and x.a[0].endswith("Header"):
                    t = next((t for t in ip.p.types if t["k"] == "adt" and "adt:" + t["path"] == x.a[0]), None)
                    fs = dict(zip([f[0] for f in t["variants"][0]["fields"]], x.a[2]))
                    bs = seq_bytes(fs["protocol"])
                    if bs:
                        self.R.expect(bs == [b"hyperbee"], self.root + ": protocol", "the header names the protocol %r" % bs, call_site(ip))
        else:
            h = holds(st, ge0(sub(n, ONE)))
            if h is True:
                self.ok("data only behind the header", "length >= 1 is known")
            elif n.unk or any(f.unk for f in st.facts):
                self.open("data only behind the header", "the length is not tracked")
            else:
                self.bad(ip, "data only behind the header", "a data block can be appended to an empty log, as block 0")

    def on_appended(self, ip, st, core, data, index, call):
        if is_header(data):
            st.setmon("hdr", C(min(cval(st.mon("hdr", ZERO)) + 1, 3)))

    def index(self, ip, st, ix):
        if any(x.op == "app" and x.a[0] == "loglen" for x in subterms(ix)) and not ix.unk:
            h = holds(st, ge0(sub(ix, ONE)))
            if h is True:
                self.ok("root not read from the header block")
            else:
                self.bad(ip, "root not read from the header block", "the tree's root is read from block %s, which may be the header" % show(ix))

    def on_core_get(self, ip, st, core, index, call):
        self.index(ip, st, index)

    def on_quiet_call(self, ip, st, body, args, call):
        if body.idx not in self.get:
            return
        for a in args:
            v = models.deep(ip, st, a)
            if v.op == "agg" and v.a[0] in ("coroutine", "closure"):
                for f in v.a[2]:
                    f = models.deep(ip, st, f)
                    if f.op in ("lin", "app"):
                        self.index(ip, st, f)
            elif v.op in ("lin", "app") and v.op != "agg":
                self.index(ip, st, v)


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    get = g.reaching(GET)
    roots = [(h, n, b) for h, n, b in write_roots(p, HANDLES)]
    for h in HANDLES:
        for n in ("create_header",):
            roots += [(h, n, b) for b in methods(p, h, n)[:1]]
    for n in ("get", "traverse", "height", "print"):
        roots += [("tree::Tree", n, b) for b in methods(p, "tree::Tree", n)[:1]]
    for h, n, b in roots:
        def final(ip, st, v, b=b, n=n):
            if n != "create_header":
                return
            for s, k, pay in res(ip, st, v):
                w = cval(s.mon("hdr", ZERO))
                R.expect(w == (1 if k == "ok" else 0), "%s: %s" % (b.path, k), "creating the header returns %s after appending %d header blocks" % (k, w), b.span)
                if k == "err":
                    R.expect(s.mem.get(models.LEN, ZERO) is ZERO, "%s: fails without writing" % b.path, "a failed header creation has appended something", b.span)
        analyse(R, p, b, [Hdr(R, g, get)], lambda e: APPEND(e) or INFO(e), final=final)
