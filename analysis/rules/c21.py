"""Modular value-flow comparison. Every operation of the handle, of a sub-tree and of the foreign-language objects is
interpreted with the tree's own operations left opaque: on each path exactly one of them is called, it is the one of
the same name, on the tree the handle holds, and its key, value, predicate, metadata, configuration, stream and role
arguments are the caller's own (for a sub-tree the key is compared by C15); what is returned is its result, every
field in its place."""
from .common import *

TREE = "tree::Tree"
OPS = ("get", "put", "put_compare_and_swap", "del", "del_compare_and_swap", "traverse", "version", "create_header", "add_stream", "height", "print",
       "from_storage_dir", "from_ram", "from_hypercore")
EQUIV = {"put": ("put", "put_compare_and_swap"), "del": ("del", "del_compare_and_swap")}
NAMES = {"delete": "del", "hyperbee_from_ram": "from_ram", "hyperbee_from_storage_dir": "from_storage_dir"}


def leaves(p):
    """{body idx: op} the bodies that carry out a tree operation"""
    out = {}
    for op in OPS:
        for b in methods(p, TREE, op):
            cs = [i for i in p.by_path.get(b.path + "::{closure#0}", []) if p.raw[i]["kind"] == "coroutine"]
            if p.ty(b.locals[0])["k"] == "coroutine" and cs:
                for c in cs:
                    out[c] = op
            else:
                out[b.idx] = op
    return out


def same(ip, st, a, b, depth=0):
    """True / False / None: are the two values the same?"""
    if a is b:
        return True
    a, b = models.deep(ip, st, a), models.deep(ip, st, b)
    if a is b or seqform(a) is seqform(b):
        return True
    if depth > 6:
        return None
    if a.op == "ptr" or b.op == "ptr" or is_ref(ip, a) or is_ref(ip, b):
        if a.op == "ptr" and b.op == "ptr" or is_ref(ip, a) and is_ref(ip, b) or (a.op == "ptr" or is_ref(ip, a)) and (b.op == "ptr" or is_ref(ip, b)):
            return same(ip, st, ip.at(st, a), ip.at(st, b), depth + 1)
        return None
    if a.unk or b.unk:
        return None
    if a.op == "agg" and b.op == "agg":
        if a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            if a.a[1] != b.a[1]:
                return False
            rs = [same(ip, st, x, y, depth + 1) for x, y in zip(a.a[2], b.a[2])]
            return False if False in rs else None if None in rs else True
        return None
    if a.op == "seq" or b.op == "seq":
        return seq_same(ip, st, a, b)
    if a.op in ("lin", "app") and b.op in ("lin", "app"):
        try:
            h = holds(st, eq_int(a, b))
        except Exception:
            h = None
        if h is not None:
            return h
    return False


def seq_same(ip, st, a, b):
    return None if a.unk or b.unk else False


def is_ref(ip, v):
    t = ip.p.ty(v.a[2]) if v.op == "app" and v.a[2] is not None else None
    return bool(t and t["k"] == "ref")


class Rec(Monitor):
    events = ("fncall",)

    def __init__(self):
        self.log = []

    def on_fncall(self, ip, st, f, args, call, result):
        self.log.append((f, args, result))
        st.setmon("calls", C(min(cval(st.mon("calls", ZERO)) + 1, 2)))

    def save(self):
        return len(self.log)

    def restore(self, n):
        del self.log[n:]


def wrapper(ip, st, v, call):
    """a closure that only passes its arguments on to another function value and returns the answer stands for that
    value; ("other", closure) when it does something else with it"""
    v = ip.at(st, v) if v.op == "ptr" else v
    if v.op != "agg" or v.a[0] != "closure":
        return None
    b = ip.p.body(v.a[1])
    ps = [app("new", "param", mk("ctxf", call.ctx, i), ty=b.locals[i]) for i in range(2, b.nargs + 1)]
    s0 = st.copy()
    rec = Rec()
    keep = ip.monitors, ip.handlers
    ip.monitors, ip.handlers = [rec], {"fncall": [rec]}
    try:
        out = ip.run(call, s0, v.a[1], ip.closure_args(s0, v, ps, call))
    except Exception:
        out = None
    finally:
        ip.monitors, ip.handlers = keep
    if not out:
        return None
    if not rec.log:
        return mk("agg", "wrapped", 0, (mk("b", False),)) if all(s.mon("calls") is None and not r.unk for s, r in out) else None
    verdict = None
    for s, r in out:
        if cval(s.mon("calls", ZERO)) != 1:
            return mk("agg", "wrapped", 0, (mk("b", False),))
        for f, args, result in rec.log:
            if bare(models.deep(ip, s, r)) is not bare(models.deep(ip, s, result)):
                return None if r.unk else mk("agg", "wrapped", 0, (mk("b", False),))
            flat = list(args)
            if len(flat) == 1 and len(ps) != 1:
                flat = ip.spread(flat[0])
            if len(flat) != len(ps) or any(same(ip, s, x, y) is False for x, y in zip(flat, ps)):
                return None if any(x.unk for x in flat) else mk("agg", "wrapped", 0, (mk("b", False),))
            verdict = models.deep(ip, s, f)
    return verdict


class Calls(Monitor):
    events = ("quiet_call", "core_append", "core_get", "core_info", "failure")

    def __init__(self, R, p, leaf, log):
        super().__init__(R)
        self.p, self.leaf, self.log = p, leaf, log

    def on_quiet_call(self, ip, st, body, args, call):
        op = self.leaf.get(body.idx)
        if op is None:
            if body.idx in self.log.core:
                st.setmon("other", ONE)
            return
        vs = []
        for a in args:
            if a.op == "agg" and a.a[0] == "coroutine":
                vs = list(a.a[2])
                break
            x = ip.at(st, a) if a.op == "ptr" else a
            if x.op == "agg" and x.a[0] == "coroutine":
                vs = list(x.a[2])
                break
        else:
            vs = list(args)
        n = cval(st.mon("n", ZERO))
        st.setmon("n", C(min(n + 1, 2)))
        vs = [wrapper(ip, st, v, call) or models.deep(ip, st, v) for v in vs]
        st.setmon("call", mk("leafcall", op, tuple(vs), mk("ctxf", call.ctx, body.idx), body.idx))

    def on_failure(self, ip, st, kind, call):
        lc = st.mon("call")
        if lc is not None and kind.startswith("call ") and mk("ctxf", call.ctx, lc.a[3]) is lc.a[2]:
            st.setmon("failed", ONE)

    def on_core_append(self, ip, st, **d):
        st.setmon("other", ONE)
    on_core_get = on_core_info = on_core_append


class Log:
    pass


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    leaf = leaves(p)
    log = Log()
    log.core = g.reaching(lambda e: e.startswith("hypercore::") and e.endswith(("::append", "::append_batch", "::get", "::info")))
    rel = (set(range(len(p.raw))) - log.core) | g.closure(list(leaf))
    for b in roots(p):
        root(p, R, g, b, leaf, rel, log)


    for h in ("hb::Hyperbee", "ffi::Hyperbee"):
        for b in methods(p, h, "sub")[:1]:
            sub_tree(p, R, g, b)


def sub_tree(p, R, g, b):
    """the sub-tree holds the handle's own tree, the given prefix and the given configuration"""
    def setup(ip):
        ip.graph = g

    def final(ip, st, v):
        v = models.deep(ip, st, v)
        x = next((x for x in subterms(v) if x.op == "agg" and x.a[0] == "adt:prefixed::Prefixed"), None)
        if x is None:
            R.open(b.path + ": sub-tree", "no Prefixed is built: " + show(v)[:80])
            return
        t = next(t for t in p.types if t["k"] == "adt" and t["path"] == "prefixed::Prefixed")
        fs = {f[0]: models.deep(ip, st, y) for f, y in zip(t["variants"][0]["fields"], x.a[2])}
        for name, i in (("prefix", 1), ("conf", 2)):
            if name in fs and i < b.nargs:
                R.expect(value_same(ip, st, fs[name], app("arg", i, ty=b.locals[i + 1])), "%s: %s" % (b.path, name), "the sub-tree's %s is %s, not what the caller gave" % (name, show(fs[name])[:80]), b.span)
        for name, y in fs.items():
            if "tree" in name:
                recv(ip, st, b, y, R)
    analyse(R, p, b, [Monitor(R)], None, setup=setup, final=final)


def roots(p):
    for h in ("hb::Hyperbee", "prefixed::Prefixed", "ffi::Hyperbee", "ffi::Prefixed"):
        for n in OPS + ("delete",):
            for b in methods(p, h, n)[:1]:
                yield b
    for n in ("hyperbee_from_ram", "hyperbee_from_storage_dir"):
        for i in p.by_path.get("ffi::" + n, [])[:1]:
            yield p.body(i)


def root(p, R, g, b, leaf, rel, log):
    name = b.path.split("::")[-1]
    op = NAMES.get(name, name)
    sub_tree = "refixed" in b.path

    def setup(ip):
        ip.graph, ip.relevant, ip.leaf = g, rel, leaf
        ip.cap = 64

    def final(ip, st, v):
        key = b.path
        n = cval(st.mon("n", ZERO))
        if n == 0 and st.mon("other") is not None:
            R.open(key + ": one call", "no named operation of the tree is called")
            return
        if n != 1:
            R.bad(key + ": one call", "%s calls an operation of the tree %s" % (b.path, "not at all on some path" if n == 0 else "more than once"), b.span)
            return
        R.ok(key + ": one call")
        lc = st.mon("call")
        got, vs, nm, idx = lc.a
        if got != op:
            if got in EQUIV.get(op, ()):
                R.open(key + ": operation", "carried out by " + got)
            else:
                R.bad(key + ": operation", "%s performs %s" % (b.path, got), b.span)
            return
        R.ok(key + ": operation")
        if sub_tree and got == "traverse":
            return
        arguments(ip, st, b, vs, got, R, sub_tree)
        result(ip, st, b, v, got, nm, idx, R)

    m = Calls(R, p, leaf, log)
    analyse(R, p, b, [m], None, setup=setup, final=final)


def arguments(ip, st, b, vs, op, R, sub_tree):
    p = ip.p
    tb = methods(p, TREE, op)[0]
    if len(vs) != tb.nargs:
        R.open(b.path + ": arguments", "the call's arguments are not tracked")
        return
    has_self = op not in ("from_storage_dir", "from_ram", "from_hypercore")
    own = list(range(b.nargs))
    if has_self:
        recv(ip, st, b, vs[0], R)
        vs, own = vs[1:], own[1:]
    if len(own) != len(vs):
        R.open(b.path + ": arguments", "signatures differ")
        return
    for j, (i, x) in enumerate(zip(own, vs)):
        if sub_tree and j == 0 and op != "traverse" and op != "version":
            continue
        a = app("arg", i, ty=b.locals[i + 1])
        h = value_same(ip, st, x, a)
        R.expect(h, "%s: argument %d" % (b.path, j + 1), "%s hands %s to %s instead of the caller's argument %d" % (b.path, "another function" if x.op == "agg" and x.a[0] == "wrapped" else show(x)[:90], op, j + 1), b.span)


def value_same(ip, st, x, a):
    """the argument handed on, possibly borrowed or as a slice of the caller's buffer"""
    h = same(ip, st, x, a)
    if h is not False:
        return h
    vx, va = variants_or_none(ip, st, x), variants_or_none(ip, st, a)
    if vx is None or va is None:
        return callable_same(ip, st, x, a)
    # two enums: compare case by case
    res = []
    for s, k, fs in vx:
        for s2, k2, fs2 in variants(ip, s, a):
            if k != k2:
                res.append(False)
            else:
                res += [content_same(ip, s2, f, f2) for f, f2 in zip(fs, fs2)]
    return False if False in res else None if None in res else True


def content_same(ip, st, x, y):
    h = same(ip, st, x, y)
    if h is False:
        cx, cy = content(ip, st, x), content(ip, st, y)
        if cx is cy:
            return True
    return h


def content(ip, st, v):
    v = models.deep(ip, st, v)
    n = 0
    while (v.op == "ptr" or is_ref(ip, v)) and n < 4:
        v = models.deep(ip, st, ip.at(st, v))
        n += 1
    try:
        return models.content(ip, st, v)
    except Exception:
        return v


def callable_same(ip, st, x, a):
    if x.op == "agg" and x.a[0] in ("closure", "fn"):
        return None
    return False


def variants_or_none(ip, st, v):
    if v.op == "agg" and v.a[0].startswith("adt:"):
        t = next((t for t in ip.p.types if t["k"] == "adt" and "adt:" + t["path"] == v.a[0]), None)
    elif v.op == "app" and v.a[2] is not None:
        t = ip.p.ty(v.a[2])
    else:
        return None
    if not t or t["k"] != "adt" or len(t.get("variants") or ()) < 2:
        return None
    return variants(ip, st, v)


def recv(ip, st, b, x, R):
    """the tree operated on is the one inside the handle"""
    x = models.deep(ip, st, x)
    a0 = app("arg", 0, ty=b.locals[1])
    if any(y is a0 or y.op == "app" and y.a[0] == "arg" and y.a[1] == (0,) for y in subterms(x)) or derived(ip, x, a0):
        R.ok(b.path + ": receiver")
    elif x.unk:
        R.open(b.path + ": receiver", show(x)[:80])
    else:
        R.bad(b.path + ": receiver", "%s operates on %s, not on the tree its handle holds" % (b.path, show(x)[:80]), b.span)


def derived(ip, x, a0):
    return any(y is a0 for y in subterms(x))


FIELDS = {"seq": 0, "value": 1, "old_seq": 0, "new_seq": 1}


def result(ip, st, b, v, op, nm, idx, R):
    key = b.path + ": result"
    p = ip.p
    rty = p.ty(p.body(idx).locals[0])
    if rty["k"] == "adt" and rty["path"] == "std::task::Poll":
        rty = p.ty(rty["args"][0])
    failed = st.mon("failed") is not None
    for s, k, pay in res(ip, st, v):
        pay = models.deep(ip, s, pay)
        if rty.get("path") != "std::result::Result":
            names = [x for x in subterms(pay) if new_of(x, nm)]
            R.expect(True if pay.op == "app" and names == [pay] else None if pay.unk else False, key, "%s returns %s instead of the result of %s" % (b.path, show(pay)[:90], op), b.span)
            continue
        if (k == "err") != failed:
            if pay.unk or s.mon("vague") is not None:
                R.open(key, "the outcome is not tracked")
            else:
                R.bad(key, "%s returns %s where %s %s" % (b.path, "Err" if k == "err" else "Ok", op, "failed" if failed else "succeeded"), b.span)
            continue
        if k == "err" and pay.op == "agg" and not any(new_of(x, nm) for x in subterms(pay)):
            R.open(key, "another error is returned: " + show(pay)[:60])
            continue
        h = cmp(ip, s, pay, app("new", k, nm, ty=rty["args"][0 if k == "ok" else 1]), op)
        R.expect(h, key, "%s returns %s instead of the result of %s" % (b.path, show(pay)[:120], op), b.span)


def new_of(x, nm):
    return x.op == "app" and x.a[0] == "new" and len(x.a[1]) == 2 and x.a[1][1] is nm


def cmp(ip, st, v, L, op, depth=0):
    """is v the value L, possibly wrapped (a constructor) or copied field by field into another struct?"""
    v = models.deep(ip, st, v)
    if v is L or bare(v) is bare(L):
        return True
    if v.unk or depth > 6:
        return None
    if op.startswith("from_"):
        return any(x is L for x in subterms(v))
    h = None
    if v.op in ("lin", "app") and L.op in ("lin", "app") and v.op == "lin":
        h = holds(st, eq_int(v, L))
        return False if h is None else h
    t = ip.p.ty(L.a[2]) if L.op == "app" and L.a[2] is not None else {"k": "?"}
    if v.op == "agg":
        if t["k"] == "adt" and len(t.get("variants") or ()) > 1:
            rs = []
            for s, k, fs in variants(ip, st, L):
                if k != v.a[1]:
                    rs.append(False)
                else:
                    rs += [cmp(ip, s, x, y, op, depth + 1) for x, y in zip(v.a[2], fs)]
            return False if False in rs else None if None in rs else True
        if t["k"] == "tuple":
            names = None
            if v.a[0].startswith("adt:"):
                vt = next((x for x in ip.p.types if x["k"] == "adt" and "adt:" + x["path"] == v.a[0]), None)
                names = [f[0] for f in vt["variants"][0]["fields"]] if vt else None
            if len(v.a[2]) < len(t["elems"]):
                return False
            rs = []
            for i, x in enumerate(v.a[2]):
                j = FIELDS.get(names[i], None) if names else i
                if j is None or j >= len(t["elems"]):
                    return None
                rs.append(cmp(ip, st, x, ip.field(L, j, None), op, depth + 1))
            return False if False in rs else None if None in rs else True
    if L.op == "agg" and v.op == "app":
        return None
    return False
