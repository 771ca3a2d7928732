"""Error-flow analysis, function by function. Each function of the library that can meet a failure (of the log: reading,
opening, appending; of decoding; or an error returned by another function of the library) is interpreted with every call
to another fallible function summarised by its two outcomes. On each path on which such a failure happened the function
must return an error, or a value that carries that very error; it must not panic on it. (An error that is not one of
storage or decoding - the header is already there, the tree has no root - may be handled.) A block that is not in the log
is reported as an error by the function that turns indices into blocks. Functions of the C interface, which answer through
a callback, are checked by C20."""
from .common import *
from .c20 import is_c

BENIGN = ("HeaderAlreadyExists", "NoRootError")
IGNORED = ("call ensure_header",)


def src(r):
    return not r.get("expn") and r["kind"] in ("fn", "coroutine") and not r.get("tainted") and "<impl" not in r["path"].split("::")[0]


class Flow(Monitor):
    events = ("failure", "panic", "absent", "core_get")

    def __init__(self, R, b):
        super().__init__(R)
        self.b = b
        self.seen = 0

    def on_failure(self, ip, st, kind, call):
        self.seen += 1
        e = ip.last_err if kind.startswith("call ") else mk("const", kind)
        cur = st.mon("err")
        if cur is None:
            st.setmon("err", mk("failure", kind, e, mk("site", call_site(ip) or "")))

    def on_absent(self, ip, st, index, call):
        st.setmon("absent", mk("site", call_site(ip) or ""))

    def on_panic(self, ip, st, why, **d):
        e = st.mon("err")
        if e is not None and "Err" in str(why):
            self.bad(ip, "panic", "a failure of %s (at %s) becomes a panic (%s)" % (what(e), e.a[2].a[0], why))


def what(e):
    k = e.a[0]
    return k[5:] if k.startswith("call ") else k.replace("core_get", "reading a block").replace("core_append", "appending a block")


def modular(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    R._g = g
    roots = []
    owner = {}
    for i, r in enumerate(p.raw):
        if src(r) and p.by_path.get(r["path"], [i])[0] == i:
            roots.append(i)
    mf = g.mayfail() | g.reaching(lambda e: e.startswith("hypercore::") and e.endswith(("::append", "::append_batch", "::get", "::build", "::new_disk", "::new_memory")) or e.endswith("Message::decode"))
    wraps = {i for i, r in enumerate(p.raw) if takes_result(p, p.body(i))}
    for i in roots:
        b = p.body(i)
        if i not in mf or is_c(p.raw[i]) or b.kind == "coroutine" and is_c(p.raw[p.by_path.get(b.path.rsplit("::{", 1)[0], [i])[0]]):
            continue
        if b.kind == "fn" and p.ty(b.locals[0])["k"] == "coroutine":
            continue
        one(p, R, g, b, wraps)
    for b in methods(p, "blocks::Blocks", "get")[:1]:
        absent(p, R, g, b)


def takes_result(p, b):
    return b.kind == "fn" and any("Result<" in p.tys(b.locals[k + 1]) or "HyperbeeError" in p.tys(b.locals[k + 1]) for k in range(b.nargs))


def one(p, R, g, b, wraps):
    own = {i for i, r in enumerate(p.raw) if r["path"].startswith(b.path + "::{closure") and r["kind"] == "closure"} | {b.idx} | wraps

    def setup(ip):
        ip.graph, ip.relevant = g, own

    def final(ip, st, v):
        e = st.mon("err")
        if e is None:
            return
        key = "%s: failure of %s" % (b.path, what(e))
        v = models.deep(ip, st, v)
        if any(x is e.a[1] for x in subterms(v)) or any(x.op == "app" and x.a[0] == "ioerr" for x in subterms(v)):
            R.ok(key, "the error is passed on")
            return
        if any(o.op not in ("loc", "mon") and x is e.a[1] for o, c in st.mem.items() if isinstance(c, T) for x in subterms(c)):
            R.open(key, "the error is stored")
            return
        t = ip.p.ty(rtype(p, b))
        if t["k"] == "adt" and t["path"] == "std::result::Result":
            for s, k, pay in res(ip, st, v):
                if k == "err":
                    R.ok(key, "an error is returned")
                elif benign(ip, s, e):
                    R.ok(key + " (benign)", "handled")
                elif v.unk and v.op == "app":
                    R.open(key, show(v)[:80])
                else:
                    R.bad(key, "%s returns Ok although %s failed" % (b.path, what(e)), e.a[2].a[0] or b.span)
            return
        if v.op == "agg" and any(x.op == "agg" and x.a[0] == "adt:std::result::Result" and x.a[1] == 1 for x in subterms(v)):
            R.ok(key, "an error is returned")
        elif benign(ip, st, e):
            R.ok(key + " (benign)", "handled")
        elif v.unk:
            R.open(key, show(v)[:80])
        else:
            R.bad(key, "%s drops the failure of %s" % (b.path, what(e)), e.a[2].a[0] or b.span)
    m = Flow(R, b)
    analyse(R, p, b, [m], None, setup=setup, final=final, seconds=60, budget=150000)


def rtype(p, b):
    t = b.locals[0]
    if p.ty(t)["k"] == "adt" and p.ty(t)["path"] == "std::task::Poll" and b.kind == "coroutine":
        t = p.ty(t)["args"][0]
    return t


def benign(ip, st, e):
    """can only be an error that says nothing about storage"""
    t = ip.p.ty(e.a[1].a[2]) if e.a[1].op == "app" and e.a[1].a[2] is not None else {}
    if not t.get("variants"):
        return False
    try:
        return all(t["variants"][k]["name"] in BENIGN for s, k, fs in variants(ip, st, e.a[1]))
    except Exception:
        return False


def absent(p, R, g, b):
    def final(ip, st, v):
        a = st.mon("absent")
        if a is None:
            return
        for s, k, pay in res(ip, st, v):
            R.expect(k == "err", b.path + ": absent block", "%s succeeds for a block that is not in the log" % b.path, a.a[0] or b.span)
    analyse(R, p, b, [Flow(R, b)], GET, final=final)


def check(p, R):
    modular(p, R)
    from . import scans
    scans.scan(p, R, "C18")
