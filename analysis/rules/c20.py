"""Typestate and ownership analysis of every extern "C" function. A function that takes a callback and looks something
up calls it exactly once on each path (found, found without value, absent, failed), never panics on the way, and passes
(0, the entry's sequence number, its value) / (0, 0, empty) / (non-zero, any, any) accordingly. A buffer given to the
callback is the storage of a vector that is kept alive (forgotten) with capacity equal to the length passed. Only the
closing and deallocating functions take ownership of a pointer argument: they reclaim it exactly once with the inverse of
the constructor that made it; everywhere else a pointer argument is never dropped. A function that returns a pointer
returns a fresh owned object on success and null only on failure."""
from .common import *
from .c21 import Calls, Log, leaves, same, content

OWNED = ("std::boxed::Box", "std::vec::Vec")
RELEASE = re.compile(r"^(close|deallocate|free|destroy|drop|release)(_|$)")


def is_c(r):
    return r["kind"] == "fn" and (r.get("abi") or "").strip('"').startswith(("C", "System"))


def owners(p, ty, v):
    """(kind, value) of the heap owners that dropping a value of this type releases"""
    t = p.ty(ty) if ty is not None else {"k": "?"}
    if t["k"] == "adt":
        if t["path"] == "std::mem::ManuallyDrop":
            return
        if t["path"] in OWNED or t["path"].endswith("::CString"):
            yield t["path"].split("::")[-1], v
        return
    tys = t.get("upvars") if t["k"] in ("closure", "coroutine") else t.get("elems") if t["k"] == "tuple" else None
    if tys and v.op == "agg":
        for ty2, x in zip(tys, v.a[2]):
            yield from owners(p, ty2, x)


def origin(v):
    """the argument a value came from"""
    return next((x for x in subterms(v) if x.op == "app" and x.a[0] == "arg"), None)


def reclaimed(kind, v):
    """is this owner one rebuilt from a pointer the caller passed?"""
    if kind == "Box":
        return v.op == "app" and v.a[0] == "arg" or v.op == "ptr" and not v.a[1] and origin(v.a[0]) is not None
    return v.op == "app" and v.a[0] in ("vecraw", "cs_from_raw") and origin(v) is not None


def setadd(s, v):
    xs = list(s.a[2]) if s is not None else []
    return s if s is not None and v in xs else agg("set", 0, xs + [v])


def has(s, v):
    return s is not None and any(x is v or seqform(x) is seqform(v) for x in s.a[2])


class Iface(Calls):
    events = Calls.events + ("fncall", "drop", "explicit_drop", "forget", "panic", "vec_from_raw_parts", "into_raw", "cstring_from_raw")

    def __init__(self, R, p, leaf, log, b, release, cb):
        super().__init__(R, p, leaf, log)
        self.b, self.release, self.cb = b, release, cb

    def on_failure(self, ip, st, kind, call):
        if kind == "runtime":
            st.setmon("failed", ONE)
        super().on_failure(ip, st, kind, call)

    # ---- the answer
    def on_fncall(self, ip, st, f, args, call=None, result=None):
        if self.cb is None or origin(models.deep(ip, st, f)) is not self.cb:
            return
        n = cval(st.mon("calls", ZERO)) + 1
        st.setmon("calls", C(min(n, 2)))
        if n > 1:
            self.bad(ip, "one answer", "the callback can be called a second time")
            return
        st.setmon("answer", agg("answer", 0, [models.deep(ip, st, a) for a in args]))
        st.setmon("sure", ONE)

    def on_panic(self, ip, st, why, **d):
        if self.cb is not None:
            self.bad(ip, "no panic", "the lookup can panic (%s) instead of answering" % str(why)[:60])

    # ---- ownership
    def on_drop(self, ip, st, val, ty, **d):
        for kind, v in owners(ip.p, ty, val):
            if not reclaimed(kind, v):
                continue
            if not self.release:
                self.bad(ip, "keeps the caller's handles", "%s frees its argument %d, which stays with the caller" % (self.b.path, origin(v).a[1][0] + 1))
                continue
            st.setmon("freed", C(min(cval(st.mon("freed", ZERO)) + 1, 2)))
            st.setmon("freedas", mk("freed", kind, origin(v.a[1][0] if kind != "Box" else v)))

    def on_explicit_drop(self, ip, st, val, ty=None, **d):
        self.on_drop(ip, st, val, ty)

    def on_forget(self, ip, st, val, **d):
        st.setmon("raw", setadd(st.mon("raw"), val))
        st.setmon("kept", setadd(st.mon("kept"), models.deep(ip, st, val)))

    def on_into_raw(self, ip, st, ptr, **d):
        st.setmon("kept", setadd(st.mon("kept"), models.deep(ip, st, ptr)))
        st.setmon("raw", setadd(st.mon("raw"), ptr))

    def on_vec_from_raw_parts(self, ip, st, ptr, len, cap, call):
        if self.release:
            h = holds(st, eq_int(len, cap))
            self.R.expect(True if h else None if len.unk or cap.unk else False, "%s: capacity" % self.root,
                          "the buffer is rebuilt with length %s and capacity %s, but was handed out with equal ones" % (show(len)[:40], show(cap)[:40]), call_site(ip))


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    leaf = leaves(p)
    log = Log()
    log.core = g.reaching(lambda e: e.startswith("hypercore::") and e.endswith(("::append", "::append_batch", "::get", "::info")))
    rel = (set(range(len(p.raw))) - log.core) | g.closure(list(leaf))
    roots = [i for i, r in enumerate(p.raw) if is_c(r)]
    if not roots:
        R.open("C interface", "no extern function")
    for i in roots:
        root(p, R, g, p.body(i), leaf, rel, log)


def root(p, R, g, b, leaf, rel, log):
    name = b.path.split("::")[-1]
    cb = next((app("arg", i, ty=b.locals[i + 1]) for i in range(b.nargs) if p.ty(b.locals[i + 1])["k"] == "fnptr"), None)
    release = bool(RELEASE.match(name))

    def setup(ip):
        ip.graph, ip.relevant, ip.leaf, ip.cap = g, rel, leaf, 64

    def final(ip, st, v):
        if release:
            released(ip, st, b, R)
        elif cb is not None:
            answered(ip, st, b, R)
        elif p.ty(b.locals[0])["k"] == "ptr":
            pointer(ip, st, b, v, R)
    m = Iface(R, p, leaf, log, b, release, cb)
    analyse(R, p, b, [m], None, setup=setup, final=final)
    if not release:
        R.ok(b.path + ": keeps the caller's handles")


def released(ip, st, b, R):
    n = cval(st.mon("freed", ZERO))
    a0 = app("arg", 0, ty=b.locals[1])
    null = holds(st, eq_term(a0, app("null")))
    if n == 0 and null is True:
        return
    key = b.path + ": frees once"
    R.expect(n == 1, key, "%s %s" % (b.path, "does not free what it is given" if n == 0 else "frees its argument twice"), b.span)
    f = st.mon("freedas")
    if n != 1 or f is None:
        return
    t = ip.p.ty(b.locals[1])
    e = ip.p.ty(ip.p.pointee(b.locals[1])) if t["k"] in ("ptr", "ref") else {"k": "?"}
    want = ("CString",) if "string" in b.path or "char" in e.get("s", "") or e.get("s") == "i8" else ("Vec", "Box") if e.get("s") == "u8" else ("Box",)
    R.expect(f.a[0] in want, b.path + ": same allocator", "%s frees as %s what was handed out as %s" % (b.path, f.a[0], want[0]), b.span)
    R.expect(f.a[1] is a0, b.path + ": frees its argument", "another pointer is freed", b.span)


def pointer(ip, st, b, v, R):
    if v.op == "app" and v.a[0] == "null":
        n = cval(st.mon("n", ZERO))
        if st.mon("failed") is not None or n == 0 and not re.search("init|new", b.path):
            R.ok(b.path + ": null only on failure")
        elif st.mon("vague") is not None:
            R.open(b.path + ": null only on failure", "outcome not tracked")
        else:
            R.bad(b.path + ": null only on failure", "%s returns null although nothing failed" % b.path, b.span)
        return
    raw = st.mon("raw")
    if raw is not None and any(x is v for x in raw.a[2]):
        R.ok(b.path + ": returns an owned object", show(v)[:60])
        R.expect(st.mon("failed") is None, b.path + ": no object on failure", "%s returns an object although the opening failed" % b.path, b.span)
    elif v.op == "ptr" and not v.unk:
        R.bad(b.path + ": returns an owned object", "the object returned is still owned (and freed) by %s" % b.path, b.span)
    else:
        R.open(b.path + ": returns an owned object", show(v)[:60])


def answered(ip, st, b, R):
    key = b.path + ": "
    n = cval(st.mon("calls", ZERO))
    if n != 1:
        R.bad(key + "one answer", "%s can return without ever calling the callback" % b.path if n == 0 else "two answers", b.span)
        return
    R.ok(key + "one answer")
    lc, ans = st.mon("call"), st.mon("answer").a[2]
    if lc is None or lc.a[0] != "get" or len(ans) != 5:
        if lc is not None and lc.a[0] != "get":
            R.bad(key + "looks the key up", "%s performs %s" % (b.path, lc.a[0]), b.span)
        else:
            R.open(key + "looks the key up", "the lookup is not tracked")
        return
    R.ok(key + "looks the key up")
    k = content(ip, st, lc.a[1][1]) if len(lc.a[1]) == 2 else mk("unk")
    raws = [x for x in subterms(k) if x.op == "app" and x.a[0] == "rawslice"]
    if raws and not k.unk:
        args = [app("arg", i, ty=b.locals[i + 1]) for i in range(b.nargs)]
        R.expect(raws[0].a[1][0] in args and raws[0].a[1][1] in args or False, key + "key", "%s looks up %s, not the caller's key" % (b.path, show(k)[:80]), b.span)
    code, msg, seq, buf, size = ans
    failed = st.mon("failed") is not None
    rty = ip.p.ty(ip.p.body(lc.a[3]).locals[0])
    if rty["k"] == "adt" and rty["path"] == "std::task::Poll":
        rty = ip.p.ty(rty["args"][0])

    def want(what, cond, s, text):
        h = holds(s, cond)
        R.expect(True if h else None if cond.unk else False, key + what, text, b.span)
    message(ip, st, msg, key, b, R)
    if failed:
        h = holds(st, eq_int(code, ZERO))
        R.expect((not h) if h is not None else None if code.unk else False, key + "failure code", "a failed lookup answers with code %s" % show(code)[:40], b.span)
        buffer(ip, st, None, buf, size, key, b, R)
        return
    want("success code", eq_int(code, ZERO), st, "a successful lookup answers with error code %s" % show(code)[:40])
    L = app("new", "ok", lc.a[2], ty=rty["args"][0])
    for s, k, fs in variants(ip, st, L):
        if k == 0:
            want("absent", eq_int(seq, ZERO), s, "the answer for an absent key has sequence number %s" % show(seq)[:40])
            buffer(ip, s, mkseq([]), buf, size, key, b, R)
            continue
        sq, val = ip.field(fs[0], 0, None), ip.field(fs[0], 1, None)
        want("sequence number", eq_int(seq, sq), s, "the answer has sequence number %s, not the entry's" % show(seq)[:60])
        for s2, k2, fs2 in variants(ip, s, val):
            buffer(ip, s2, mkseq([]) if k2 == 0 else fs2[0], buf, size, key, b, R)


def message(ip, st, msg, key, b, R):
    if msg.op == "app" and msg.a[0] in ("cs_into_raw", "null"):
        R.ok(key + "message", show(msg)[:50])
    elif msg.op == "app" and msg.a[0] == "cstr" and not msg.unk and isinstance(msg.a[1][0], (str, T)) and "as_ptr" in str(msg.a[1][0] if isinstance(msg.a[1][0], str) else msg.a[1][0].a):
        R.bad(key + "message", "the message handed out is freed by the library itself", b.span)
    else:
        R.open(key + "message", show(msg)[:60])


def buffer(ip, st, val, buf, size, key, b, R):
    if buf.op == "app" and buf.a[0] == "null":
        h = holds(st, eq_int(size, ZERO))
        R.expect(h, key + "buffer", "a null buffer has size %s" % show(size)[:40], b.span)
        if val is None or h is not True:
            return
        v = mkseq([])
    elif buf.op == "app" and buf.a[0] == "dataptr":
        v = buf.a[1][0]
    elif buf.op == "seq":
        v = buf
    else:
        R.open(key + "buffer", show(buf)[:80])
        return
    if val is not None:
        h = same(ip, st, v, val)
        if h is False and (v.unk or val.unk):
            h = None
        R.expect(h, key + "value", "the answer holds %s, not the entry's value" % show(v)[:80], b.span)
    h = holds(st, eq_int(size, seq_len(v) if v.op == "seq" else app("len", v)))
    R.expect(True if h else None if size.unk else False, key + "size", "the size given (%s) is not the buffer's" % show(size)[:50], b.span)
    if not (v.op == "seq" and seq_len(v) is ZERO):
        R.expect(has(st.mon("kept"), v), key + "kept", "the buffer handed out is freed by the library itself", b.span)
        h = holds(st, eq_int(models.capof(ip, v), seq_len(v)))
        R.expect(True if h else False, key + "capacity", "the buffer handed out may have spare capacity, but is deallocated with capacity = length", b.span)
