"""Lock-order and self-wait analysis. (1) Every function is interpreted on its own, tracking the lock guards alive at
each lock acquisition and at each call (callees summarised by the set of lock classes they can transitively
acquire). An acquisition of a lock already held by the same call chain (same lock object by value numbering) is a
violation when one of the two is exclusive, or when both are shared but some function can wait for that shared lock
exclusively (tokio queues readers behind waiting writers); where the classes overlap only through a callee, the
callee is inlined to compare lock objects. (2) held-class -> acquired-class edges of all functions must not form a
cycle through locks that can block and that live in the handles (the locks of private node copies, see C06, are
met by no other operation). (3) no public operation returns while still holding a lock."""
from .common import *


class Locks(Monitor):
    events = ("acquire", "quiet_call")

    def __init__(self, R, g, shared, blocking, edges, deep):
        super().__init__(R)
        self.g, self.shared, self.blocking, self.edges, self.deep = g, shared, blocking, edges, deep

    def save(self):
        return super().save(), dict(self.edges), set(self.deep)

    def restore(self, s):
        super().restore(s[0])
        self.edges.clear()
        self.edges.update(s[1])
        self.deep.clear()
        self.deep.update(s[2])

    def on_acquire(self, ip, st, lock, kind, cls, call, tried):
        if tried:
            return
        for gid, l, k, c in st.locks:
            if l is lock or c == cls and cls in self.shared and timeless(l) is timeless(lock):
                if k == "w" or kind == "w":
                    self.bad(ip, "waits for itself: %s" % cls, "a lock on %s is acquired (%s) while the same call already holds it (%s)" % (cls, kind, k))
                elif cls in self.shared and (cls, "w") in self.blocking:
                    self.bad(ip, "reads twice: %s" % cls, "a shared lock on %s is acquired while the same call already holds it; a waiting writer in between blocks both" % cls)
                else:
                    self.ok("re-read of %s" % cls, "both shared, and nothing ever waits for that lock exclusively")
            else:
                self.edge(ip, c, k, cls, kind)
        self.ok("acquires %s" % cls)

    def edge(self, ip, c, k, cls, kind):
        if c != cls:
            self.edges.setdefault((c, cls), "%s holds %s while acquiring %s at %s" % (self.root, c, cls, call_site(ip)))

    def on_quiet_call(self, ip, st, body, args, call):
        if not st.locks:
            return
        acq = self.g.acquires(body.idx)
        for gid, l, k, c in st.locks:
            for cls, kind in acq:
                self.edge(ip, c, k, cls, kind)
                if cls == c and (k == "w" or kind == "w" or cls in self.shared and (cls, "w") in self.blocking):
                    self.deep.add((c, body.idx))


def timeless(t):
    """the name of a lock without the moment its place was read: the handles' fields are never reassigned"""
    def f(x):
        if x.op == "app" and x.a[0] == "at" and len(x.a[1]) == 2:
            return app("at", x.a[1][0], ty=x.a[2])
        return x
    return rebuild_all(t, f)


def rebuild_all(t, f):
    if not isinstance(t, T):
        return tuple(rebuild_all(x, f) for x in t) if isinstance(t, tuple) else t
    a = tuple(rebuild_all(x, f) for x in t.a)
    return f(mk(t.op, *a) if a != t.a else t)


def contained(p):
    """classes of locks that live in the handles (so that concurrent operations meet there)"""
    out = set()
    seen = set()
    work = [i for i, t in enumerate(p.types) if t["k"] == "adt" and t.get("path") in ("hb::Hyperbee", "prefixed::Prefixed", "tree::Tree", "ffi::Hyperbee", "ffi::Prefixed")]
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        t = p.types[i]
        if t["k"] == "adt":
            if t["path"].endswith(("RwLock", "Mutex")) and t["args"]:
                out.add(p.tys(t["args"][0]))
            work += [a for a in t["args"] if isinstance(a, int)]
            if not t["path"].startswith(("std::", "alloc::", "core::")):
                for v in t.get("variants") or ():
                    work += [f[1] for f in v["fields"] if isinstance(f[1], int)]
        for k in ("elems",):
            work += [e for e in t.get(k) or () if isinstance(e, int)]
        for k in ("elem", "to"):
            if isinstance(t.get(k), int):
                work.append(t[k])
    return out


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    shared = contained(p)
    blocking = set()
    for a in g.acq:
        blocking |= a
    edges = {}
    public = {id(b) for h in HANDLES + ("ffi::Hyperbee", "ffi::Prefixed") for bs in public_methods(p, h).values() for b in bs}
    for i, r in enumerate(p.raw):
        if r["kind"] != "fn" or not any(g.acq[k] for k in g.reach_from([i])):
            continue
        b = p.body(i)
        if "__" in b.path or "fmt" == b.path.split("::")[-1]:
            continue
        deep = set()
        one(p, R, b, g, shared, blocking, edges, deep)
        if deep:
            # compare lock objects across the calls concerned
            idx = {x for _, x in deep}
            cls = {c for c, _ in deep}
            want = {k for x in idx for k in g.reach_from([x]) if any(c in cls for c, _ in g.acquires(k))}
            one(p, R, b, g, shared, blocking, edges, set(), want)
    # order cycles among locks that can block
    can = {c for c, k in blocking if k == "w" and c in shared}
    adj = {}
    for (a, c) in edges:
        if a in can and c in can:
            adj.setdefault(a, set()).add(c)
    for a in sorted(adj):
        path = find(adj, a)
        if path:
            R.bad("order: " + " < ".join(sorted(set(path))), "locks are taken in opposite orders: " + "; ".join(edges[(path[i], path[i + 1])] for i in range(len(path) - 1)),
                  edges[(path[0], path[1])].split(" at ")[-1])
    for a, c in sorted(edges):
        R.ok("order %s < %s" % (a, c), edges[(a, c)])
    R.assume.append("locks inside the underlying log (hypercore/replicator) are released without waiting for this library")


def find(adj, a):
    stack = [(a, [a])]
    seen = set()
    while stack:
        x, path = stack.pop()
        for y in adj.get(x, ()):
            if y == a:
                return path + [a]
            if y not in seen:
                seen.add(y)
                stack.append((y, path + [y]))
    return None


def one(p, R, b, g, shared, blocking, edges, deep, want=None):
    m = Locks(R, g, shared, blocking, edges, deep)
    pub = p.raw[b.idx].get("pub") and any(b.path.startswith(h + "::") or "<impl %s>" % h in b.path for h in HANDLES + ("ffi::Hyperbee", "ffi::Prefixed", "external"))

    def final(ip, st, v):
        if pub:
            R.expect(not st.locks, "%s: returns unlocked" % b.path, "returns while still holding a lock on %s" % ", ".join(sorted({l[3] for l in st.locks})), b.span)
    analyse(R, p, b, [m], lambda e: False, body_pred=(lambda i: i in want) if want else None, final=final, budget=150000, seconds=60)
