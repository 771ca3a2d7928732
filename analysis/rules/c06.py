"""Ownership and effect analysis. The program's types that are shared through the tree's memory of blocks are computed from
the type graph of the handle; no function reachable from an operation may write one of their fields through a reference
while an exclusive lock on such an object is taken anywhere in reach (the only way to one), so nodes that a put or
delete changes in place must be of a type that this memory does not hold; the functions that hand out a node return an
object made in that call and keep no reference to it (abstract interpretation); nothing is remembered for an index that
is not yet in the log."""
from .common import *
from .c17 import g, by_signature, Origin, Store, wire, SCHEMA, constructor

LOCKS = ("sync::RwLock", "sync::Mutex", "sync::rwlock::RwLock", "sync::mutex::Mutex", "cell::RefCell", "cell::UnsafeCell", "RwLock", "Mutex", "RefCell")


def crate_adt(p, t):
    return t["k"] == "adt" and not t["path"].startswith(("std::", "core::", "alloc::", "tokio::", "hypercore::", "replicator::", "prost::")) and t.get("variants") is not None


def reach(p, start, through_locks=True):
    """{type path: the way there} of the program's types reachable from type index start"""
    out, seen, work = {}, set(), [(start, ())]
    while work:
        i, way = work.pop()
        if i in seen or i is None:
            continue
        seen.add(i)
        t = p.ty(i)
        if t["k"] == "adt":
            nm = t["path"]
            if crate_adt(p, t):
                out.setdefault(nm, way)
                for v in t["variants"]:
                    for n, ft in [f[:2] for f in v["fields"]]:
                        work.append((ft, way + (nm.split("::")[-1] + "." + str(n),)))
            else:
                if not through_locks and nm.endswith(LOCKS) and way:
                    continue
                for a in t.get("args") or ():
                    if isinstance(a, int):
                        work.append((a, way or ("",) if not through_locks else way))
        else:
            for k in ("to", "elem"):
                if isinstance(t.get(k), int):
                    work.append((t[k], way))
            for a in t.get("elems") or t.get("args") or ():
                if isinstance(a, int):
                    work.append((a, way))
    return out


def type_index(p, path):
    return next((i for i, t in enumerate(p.types) if t["k"] == "adt" and t["path"] == path and t.get("variants")), None)


def deref_writes(p, i):
    """[(type, field)] that body i itself writes through a reference"""
    out = []
    r = p.raw[i]

    def place(m, pl, whole):
        t, through = m["locals"][pl[0]], False
        last = None
        for x in pl[1]:
            ty = p.ty(t) if t is not None else {"k": "?"}
            if x[0] == "d":
                t = ty.get("to") if ty["k"] in ("ref", "ptr") else (ty.get("args") or [None])[0]
                tt = p.ty(t) if t is not None else {"k": "?"}
                through = tt["k"] not in ("coroutine", "closure")
            elif x[0] == "f":
                if ty["k"] in ("coroutine", "closure"):
                    through = False
                elif through and ty["k"] == "adt":
                    last = (ty["path"], x[1])
                    out.append(last)
                t = x[2]
            elif x[0] == "v":
                pass
            else:
                t = ty.get("to") or ty.get("elem") or (ty.get("args") or [None])[0]
                t = t if isinstance(t, int) else None
        if whole and through and last is None and pl[1]:
            tt = p.ty(t) if t is not None else {"k": "?"}
            if tt["k"] == "adt":
                out.append((tt["path"], None))
    for m in [r["mir"]] + list(r.get("promoted") or ()):
        if not m:
            continue
        for b in m["blocks"]:
            if not b:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    place(m, s[1], True)
                    rv = s[2]
                    if rv["k"] in ("ref", "rawptr", "addr") and rv.get("mut"):
                        place(m, rv["p"], False)
            t = b["t"]
            if t and t[0] == "call":
                place(m, t[3], True)
    return out


def effects(p, R, content):
    start = type_index(p, "tree::Tree")
    if start is None:
        R.open("types shared by the handle", "no tree type")
        return
    shared = reach(p, start)
    # the structures that own the memory: the handle and what it holds directly
    t = p.ty(start)
    roots = {"tree::Tree"}
    for f in t["variants"][0]["fields"]:
        for x, way in reach(p, f[1]).items():
            if way == ():
                roots.add(x)
    S = {x: w for x, w in shared.items() if x not in roots}
    gr = g(p)
    ops = [b.idx for h in HANDLES for bs in public_methods(p, h).values() for b in bs]
    region = gr.reach_from(ops)
    # exclusive access to an object that holds one of these types
    excl = {}
    for i in region:
        for cls, kind in gr.acq[i]:
            if kind != "w":
                continue
            k = next((j for j in range(len(p.types)) if p.tys(j) == cls), None)
            if k is not None:
                for x in inner(p, k):
                    excl.setdefault(x, set()).add(i)
    for x, way in sorted(S.items()):
        key = "objects of type %s" % x
        if x not in excl:
            R.ok(key, "held by %s; no exclusive lock on one is ever taken" % (way[-1] if way else "the handle"))
            continue
        sites = []
        for i in sorted(region):
            if p.raw[i].get("trait") and not p.raw[i]["trait"].startswith("tree"):
                continue
            for ty, f in deref_writes(p, i):
                if ty == x and (f is None or x not in content or f in content[x]):
                    sites.append((i, f))
        if not sites:
            R.ok(key, "held by %s; never written through a reference" % (way[-1] if way else "the handle"))
            continue
        i, f = sites[0]
        names = [q[0] for q in p.ty(type_index(p, x))["variants"][0]["fields"]]
        R.bad(key, "the decoded blocks that are kept in memory hold objects of type %s (%s), and %s changes %s of such objects in place" % (
            x, way[-1] if way else "", p.raw[i]["path"], "the field " + names[f] if f is not None and f < len(names) else "the whole"), p.body(i).span)


def inner(p, a):
    """types an object of type a holds without another lock in between"""
    out, seen, work = set(), set(), [a]
    while work:
        i = work.pop()
        if i in seen or i is None:
            continue
        seen.add(i)
        t = p.ty(i)
        if t["k"] == "adt":
            if t["path"].endswith(LOCKS) or t["path"].endswith("sync::Arc"):
                continue
            if crate_adt(p, t):
                out.add(t["path"])
                for v in t["variants"]:
                    work += [f[1] for f in v["fields"]]
            else:
                work += [x for x in t.get("args") or () if isinstance(x, int)]
        else:
            work += [t[k] for k in ("to", "elem") if isinstance(t.get(k), int)]
            work += [x for x in t.get("elems") or t.get("args") or () if isinstance(x, int)]
    return out


class Keep(Monitor):
    """what is put away in a call that hands out a node"""
    events = ("map_insert", "store")

    def on_map_insert(self, ip, st, **d):
        v = d.get("value") if d.get("value") is not None else d.get("val")
        old = st.mon("kept", tup())
        if v is not None and len(old.a[2]) < 8:
            st.setmon("kept", tup(*old.a[2], v))


class Remember(Monitor):
    events = ("map_insert",)

    def on_map_insert(self, ip, st, **d):
        k = models.deep(ip, st, d["key"])
        n = models.loglen(ip, st)
        if k.unk or ip.p.ty(k.a[2])["k"] != "int" if k.op == "app" and k.a[2] is not None else k.op not in ("lin", "app"):
            return
        h = holds(st, eq_int(k, n))
        if h is True:
            self.bad(ip, "nothing remembered before it is stored", "a block is kept in memory under an index that is not yet in the log, and stays there if the append fails")
        else:
            self.ok("nothing remembered before it is stored")


def handing_out(p, R):
    NODE = r"Result<std::sync::Arc<tokio::sync::RwLock<Node>>"
    for b in by_signature(p, [r"^&blocks::BlockEntry$", r"^u(64|size)$"], NODE) + by_signature(p, [r"^&blocks::BlockEntry$", r"^&u(64|size)$"], NODE):
        key = "%s: hands out a private node" % b.path

        def setup(ip):
            ip.graph = g(p)
            ip.cap = 64

        def final(ip, st, v, b=b, key=key):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                if pay.op == "ptr" and pay.a[0].op in ("new", "obj", "heap", "alloc") or pay.op == "ptr":
                    kept = s.mon("kept", tup()).a[2]
                    R.expect(pay not in kept, key, "the node handed out is also kept in memory", b.span)
                elif pay.op == "app" and pay.a[0] in ("elem", "at", "fld", "mapget", "vf") and not pay.unk:
                    mut = any(kind == "w" and cls == "Node" for i in g(p).reach_from([x.idx for _, _, x in write_roots(p)]) for cls, kind in g(p).acq[i])
                    R.expect(False if mut else True, key, "the node handed out is one kept in memory (%s), and writes change nodes in place" % show(pay)[:80], b.span)
                else:
                    R.open(key, show(pay)[:80])
        analyse(R, p, b, [Keep(R)], None, setup=setup, final=final)


def check(p, R):
    g(p)
    tables = {n: wire(p, Report("C17"), n) for n in SCHEMA}
    o = Origin(p, tables)
    # the fields of a remembered block that hold what was decoded
    for b in methods(p, "blocks::Blocks", "get")[:1]:
        def setup(ip):
            ip.graph = g(p)
            ip.cap = 64
        analyse(Report("X"), p, b, [Store(R, o)], lambda e: GET(e) or "collections" in e)
    effects(p, R, {"blocks::BlockEntry": set(o.entry)} if o.entry else {})
    handing_out(p, R)
    gr = g(p)
    for h, n, b in write_roots(p, ("tree::Tree",), ("put_compare_and_swap", "del_compare_and_swap")):
        def setup(ip):
            ip.graph = gr
            ip.relevant = gr.reaching(lambda e: APPEND(e) or INFO(e)) | gr.reaching(lambda e: "collections" in e) - gr.reaching(GET) | {i for i in range(len(p.raw)) if constructor(p, i)}
        analyse(R, p, b, [Remember(R)], None, setup=setup)
