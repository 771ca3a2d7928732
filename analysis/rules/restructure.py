"""What an operation makes of the nodes it touches, as closed forms, and their evaluation on node shapes.

The functions that restructure the tree are interpreted abstractly on nodes of unknown content: keys and children are
symbolic sequences, a node read from the log is a new object with contents of its own. Each path ends in a state in which
the contents of every node are terms over the initial ones. These terms and the conditions of the path are then evaluated
for every node shape within the size limits (numbers of keys and children, positions), with the entries themselves left
as names, and compared with what the operation is for."""
from .common import *
from .c17 import g, result_ty
from .traversal import number, truth, Unknown, Quiet
from engine import facts
from engine.interp import Undecided
from engine.term import as_seq, opaque_seg, EXPAND

SHARED = r"^std::sync::Arc<tokio::sync::RwLock<Node>>$"
NODE_T, PATH_T = "std::sync::Arc<tokio::sync::RwLock<Node>>", "std::vec::Vec<(std::sync::Arc<tokio::sync::RwLock<Node>>, usize)>"
MAXK, MINK = 8, 4


def coroutine_of(p, f):
    """indices of the coroutine bodies that belong to an async function"""
    t = p.ty(f.locals[0])
    out = [j for j, r in enumerate(p.raw) if r["kind"] == "coroutine" and r["path"].startswith(f.path + "::{closure#0}")]
    return [j for j in out if t["k"] != "coroutine" or p.raw[j]["path"] == f.path + "::{closure#0}"]


def argtypes(p, f):
    return [p.tys(f.locals[k + 1]) for k in range(f.nargs)]


def functions(p):
    for i, r in enumerate(p.raw):
        if r["kind"] == "fn" and not r.get("tainted"):
            yield p.body(i)


def readers(p):
    """functions that read one child of a node from the log"""
    out = []
    for f in functions(p):
        ts = argtypes(p, f)
        if len(ts) == 2 and sum(t == "usize" for t in ts) == 1 and any(re.match(r"^&(?:'\S+ )?(Node|Children)$", t) for t in ts) \
                and re.match(r"^std::result::Result<std::sync::Arc<tokio::sync::RwLock<Node>>, ", p.tys(result_ty(p, f.idx))):
            out.append(f)
    return out


def entry_readers(p):
    """functions that read the key and value of an entry of a node"""
    return [f for f in functions(p) if argtypes(p, f)[1:] == ["usize"] and re.match(r"^&(?:'\S+ )?Node$", argtypes(p, f)[0])
            and "KeyValueData" in p.tys(result_ty(p, f.idx))]


def searches(p):
    """functions that descend from a node and report the way down"""
    return [f for f in functions(p) if len(argtypes(p, f)) == 2 and PATH_T in p.tys(result_ty(p, f.idx)) and "Option<u64>" in p.tys(result_ty(p, f.idx))]


def record(p):
    """the type that collects the nodes of a write: (type index, {role: field index})"""
    for i, t in enumerate(p.types):
        if t["k"] == "adt" and t.get("variants") and len(t["variants"]) == 1:
            fs = t["variants"][0]["fields"]
            nodes = [k for k, (n, ty) in enumerate(fs) if p.tys(ty) == "std::vec::Vec<%s>" % NODE_T]
            seqs = [k for k, (n, ty) in enumerate(fs) if p.tys(ty) == "u64"]
            if len(nodes) == 1 and len(seqs) == 1:
                return i, {"nodes": nodes[0], "seq": seqs[0]}
    return None, None


def inner(p, i, want, depth=0):
    """path of field indices from a type to the (only) part of the wanted type"""
    if re.match(want, p.tys(i)):
        return ()
    t = p.ty(i)
    if depth > 5 or t["k"] != "adt":
        return None
    if t["path"].endswith(("RwLock", "Mutex")) and t.get("args"):
        r = inner(p, t["args"][0], want, depth + 1)
        return None if r is None else (0,) + r
    if t.get("variants") and len(t["variants"]) == 1 and not t["path"].startswith(("std::", "alloc::", "core::")):
        for k, (n, ty) in enumerate(t["variants"][0]["fields"]):
            if re.match(r"^std::sync::Arc<", p.tys(ty)):
                continue
            r = inner(p, ty, want, depth + 1)
            if r is not None:
                return (k,) + r
    return None


class Forest:
    """how nodes are laid out in memory"""

    def __init__(self, p):
        self.p = p
        self.why = None
        self.shared = next((i for i, t in enumerate(p.types) if p.tys(i) == NODE_T), None)
        lock = next((i for i, t in enumerate(p.types) if p.tys(i) == "tokio::sync::RwLock<Node>"), None)
        if self.shared is None or lock is None:
            self.why = "nodes are not kept as shared nodes"
            return
        self.lock = lock
        self.kpath = inner(p, lock, r"^std::vec::Vec<KeyValue>$")
        self.cpath = inner(p, lock, r"^std::vec::Vec<Child>$")
        self.rec, self.role = record(p)
        if self.kpath is None or self.cpath is None:
            self.why = "the keys and children of a node are not found"
        elif self.rec is None:
            self.why = "the record of changed nodes is not found"
        ct = next((t for t in p.types if t["k"] == "adt" and t["path"] == "Child" and t.get("variants")), None)
        self.cf = {n: k for k, (n, _) in enumerate(ct["variants"][0]["fields"])} if ct else {}
        if not self.why and not all(n in self.cf for n in ("seq", "offset")):
            self.why = "references to children are not (seq, offset)"
        self.readers = [] if self.why else readers(p)

    def part(self, ip, v, path):
        for k in path:
            v = ip.field(v, k, None)
        return v

    def at(self, ip, st, node):
        """(keys, children) of a shared node"""
        v = models.deep(ip, st, ip.at(st, node, self.lock))
        return self.part(ip, v, self.kpath), self.part(ip, v, self.cpath)

    def set(self, ip, st, node, keys, children):
        o, pr = ip.deref(node, self.lock)
        v = ip.load(st, o, pr)
        v = self.replace(ip, v, self.lock, self.kpath, keys)
        v = self.replace(ip, v, self.lock, self.cpath, children)
        ip.store(st, o, pr, v)

    def replace(self, ip, v, ty, path, x):
        if not path:
            return x
        t = self.p.ty(ty)
        if t["path"].endswith(("RwLock", "Mutex")):
            n, name, tys = 1, "adt:" + t["path"], [t["args"][0]]
        else:
            fs = t["variants"][0]["fields"]
            n, name, tys = len(fs), "adt:" + t["path"], [f[1] for f in fs]
        parts = [ip.field(v, k, None) for k in range(n)]
        parts[path[0]] = self.replace(ip, parts[path[0]], tys[path[0]], path[1:], x)
        return agg(v.a[0] if v.op == "agg" else name, 0, parts)

    def same_node(self, ip, a, b):
        if a is b:
            return True
        try:
            return ip.deref(a, self.lock) == ip.deref(b, self.lock)
        except Exception:
            return False

    def new(self, name, ty=None):
        return app("new", "ok", name, ty=self.shared)


class Evaluate:
    """terms on one shape. env: numbers of terms, names: sequence -> label of its entries"""

    def __init__(self, F, env, names):
        self.F, self.env, self.names, self.memo = F, env, names, {}
        self.seqno = None

    def num(self, t):
        return number(t, self.env)

    def seq(self, t):
        if t in self.names:
            return [(self.names[t], i) for i in range(self.env[app("len", t)])]
        if t.op == "seq":
            out = []
            for q in t.a:
                if q.op == "e":
                    out.append(self.atom(q.a[0]))
                elif q.op == "c":
                    lo, hi = self.num(q.a[1]), self.num(q.a[2])
                    if hi - lo > 400:
                        raise Unknown("long")
                    for j in range(lo, hi):
                        out.append(self.atom(part_at(q, C(j))))
                else:
                    raise Unknown(show(q))
            return out
        raise Unknown(show(t)[:80])

    def atom(self, t):
        if t.op == "app" and t.a[0] == "elem":
            base, i = t.a[1]
            l = self.seq(base)
            k = self.num(i)
            if not 0 <= k < len(l):
                raise Unknown("out of range")
            return l[k]
        if t.op == "agg" and t.a[0] in ("adt:KeyValue", "KeyValue", "adt:adt:KeyValue") and t.a[2]:
            x = t.a[2][0]
            if x.op == "app" and x.a[0] == "fld" and x.a[1][1] is ZERO:
                return self.atom(x.a[1][0])
            return ("key", None if x is self.seqno else x)
        if t.op == "agg" and t.a[0].endswith("Child") and len(t.a[2]) == 2:
            s, o = t.a[2][self.F.cf["seq"]], t.a[2][self.F.cf["offset"]]
            if s.op == "app" and o.op == "app" and s.a[0] == o.a[0] == "fld" and s.a[1][0] is o.a[1][0]:
                return self.atom(s.a[1][0])
            return ("ref", s, self.num(o))
        if t.op == "agg" and t.a[0] == "tuple":
            return tuple(self.atom(x) for x in t.a[2])
        return ("val", t)

    def truth(self, f):
        """truth of a condition on this shape; True/False, "free" when it is not about the nodes, None when unclear"""
        v = self.memo.get(f)
        if v is None:
            try:
                v = truth(f, self.env)
            except Unknown:
                v = "unclear" if self.about(f) else "free"
            self.memo[f] = v
        return v

    def about(self, f):
        """is this condition about the shape?"""
        return any(x in self.env or x in self.names for x in subterms(f))

    def holds(self, st):
        """True / False / None: do the conditions of the state hold on this shape?"""
        open_ = False
        for f, v in st.facts.items():
            t = self.truth(f)
            if t == "unclear":
                open_ = True
            elif t != "free" and t is not v:
                return False
        return None if open_ else True


class Tree:
    """the nodes of a state on one shape"""

    def __init__(self, F, ip, st, ev, nodes, seq):
        self.F, self.ip, self.st, self.ev, self.nodes, self.seq = F, ip, st, ev, nodes, seq
        self.linked = []

    def content(self, node):
        k, c = self.F.at(self.ip, self.st, node)
        return self.ev.seq(k), self.ev.seq(c)

    def nested(self, node, depth=0):
        """[child, key, child, ...] with new nodes expanded, ("?", why) for a bad reference"""
        if depth > 6:
            return ("?", "the nodes refer to one another in a circle")
        ks, cs = self.content(node)
        return (ks, [self.child(c, depth) for c in cs])

    def child(self, c, depth=0):
        if c[0] != "ref":
            return c
        if c[1] is not self.seq:
            return ("?", "a reference to block %s" % show(c[1])[:60])
        if not 0 <= c[2] < len(self.nodes) or self.nodes[c[2]][0] != "val":
            return ("?", "a reference to node %d, which is not part of the write" % c[2])
        self.linked.append(c[2])
        return self.nested(self.nodes[c[2]][1], depth + 1)


def isnode(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], list)


def inorder(x, expand):
    """entries in order; expand(atom) -> nested content of an old child or None when it stays closed"""
    if not isnode(x):
        y = expand(x)
        return [("sub", x)] if y is None else inorder(y, expand)
    ks, cs = x
    out = []
    if not cs:
        return [("k", k) for k in ks]
    for i in range(max(len(ks), len(cs))):
        if i < len(cs):
            out.extend(inorder(cs[i], expand))
        if i < len(ks):
            out.append(("k", ks[i]))
    return out


def bad_refs(x):
    if not isnode(x):
        return [x[1]] if x[0] == "?" else []
    return [w for c in x[1] for w in bad_refs(c)]


def each(x):
    if isnode(x):
        yield x
        for c in x[1]:
            yield from each(c)


def say(x):
    """a nested node in words"""
    if not isnode(x):
        return "%s%s" % (x[0], x[1]) if x[0] not in ("?",) else "?"
    ks = " ".join(str(k[0]) + str(k[1]) if k[0] != "key" else "new" for k in x[0])
    return "[%s%s]" % (ks, " | " + " ".join(say(c) for c in x[1]) if x[1] else "")


class Outcomes:
    """runs a function and keeps what each of its paths ends in"""

    def __init__(self, p, R, F, f, unroll=6):
        self.p, self.R, self.F, self.f = p, R, F, f
        self.ends, self.fails, self.stops = [], [], []
        self.reads, self.stubs = [], {}
        self.unroll = unroll
        self.more = []
        self.ip = None
        self.ok = False
        for r in F.readers:
            for j in coroutine_of(p, r):
                self.stubs[j] = self.read

    def read(self, ip, c, st, b, args):
        """a child read from the log: a new node of unknown content"""
        up = args[0].a[2]
        owner = next((x for x in up if not (p_int(self.p, x))), None)
        index = next((x for x in up if p_int(self.p, x)), None)
        name = mk("ctxf", c.ctx, b.idx)
        n = app("new", "ok", name, ty=self.F.shared)
        o = ip.deref(owner, None)[0] if owner is not None and owner.op == "ptr" else None
        node = self.node_of(ip, st, owner)
        s2 = st.copy()
        self.reads.append((n, o, index, node[1] if node else None, s2.copy()))
        e = st.copy()
        return [(e, err_(app("new", "err", name))), (s2, ok_(n))]

    def node_of(self, ip, st, owner):
        """(keys, children) behind a reference to a node or to its children"""
        try:
            v = models.deep(ip, st, ip.at(st, owner))
        except Exception:
            return None
        for path in (self.F.cpath[1:], self.F.cpath[2:]):
            w = v
            try:
                for k in path:
                    w = ip.field(w, k, None)
            except Exception:
                continue
            if w.op == "seq" or w.op == "app":
                t = self.p.tys(w.a[2]) if w.op == "app" and isinstance(w.a[2], int) else "Vec<Child>"
                if "Child" in t:
                    return None, w
        return None

    def run(self, init=None, args=None, budget=400000, seconds=120):
        me = self

        class M(Quiet):
            events = ("panic", "assert")

            def on_panic(self, ip, st, why=None, **k):
                me.fails.append((st.copy(), "panic: %s" % (why,), call_site(ip)))

            def on_assert(self, ip, st, cond=None, known=None, kind=None, **k):
                if known is not True:
                    s = st.copy()
                    if known is False or facts.assume(s, neg(cond)):
                        me.fails.append((s, str(kind), call_site(ip)))
        m = M(Report("X"))

        def setup(ip):
            me.ip = ip
            ip.graph = g(me.p)
            ip.cap = 400
            ip.errcap = 1
            ip.unroll = me.unroll
            ip.relevant = g(me.p).reach_from([me.f.idx])
            ip.stubs = me.stubs

        def final(ip, st, v):
            for s, kind, pay in res(ip, st, v):
                me.ends.append((s, kind, pay))
        Q = Report("X")
        EXPAND[0] = max(4, self.unroll)
        try:
            r = analyse(Q, self.p, self.f, [m] + self.more, None, setup=setup, final=final, init=init, args=args, budget=budget, seconds=seconds)
        finally:
            EXPAND[0] = 4
        self.why = next(iter(Q.undec.values()), None)
        self.ok = bool(r) and r[1] is not None and not self.ip.cut
        if self.ip is not None and self.ip.cut:
            self.why = "more iterations than followed: %s" % (self.ip.cut[:2],)
        self.R.steps += Q.steps
        self.R.fns |= Q.fns
        self.R.quiet |= Q.quiet
        self.R.paths += Q.paths
        self.R.roots.append(self.f.path)
        return self


def p_int(p, x):
    if x.op == "lin":
        return True
    t = x.a[2] if x.op == "app" else None
    return isinstance(t, int) and t >= 0 and p.tys(t) in ("usize", "u64", "u32")


# ------------------------------------------------------------ findings
class Findings:
    """verdicts per property and obligation, collected over shapes"""

    def __init__(self):
        self.d = {}

    def add(self, prop, key, verdict, text="", where=None):
        e = self.d.setdefault((prop, key), {"ok": 0, "open": 0, "bad": None, "why": None, "where": None})
        if verdict is True:
            e["ok"] += 1
        elif verdict is False:
            e["bad"] = e["bad"] or text
            e["where"] = e["where"] or where
        else:
            e["open"] += 1
            e["why"] = e["why"] or text

    def report(self, R, prop):
        for (q, key), e in self.d.items():
            if q != prop:
                continue
            if e["bad"]:
                R.bad(key, "%s: %s" % (key, e["bad"]), e["where"])
            elif e["open"] and not e["ok"]:
                R.open(key, e["why"] or "")
            else:
                R.ok(key, "holds on %d node shapes%s" % (e["ok"], ", %d undecided: %s" % (e["open"], (e["why"] or "")[:80]) if e["open"] else ""))



ALL = ("C08", "C09", "C10", "C25")


def judge(fi, key, T, got, want, orig, expand, shape, where, first=0, stale=(), changed=(), fresh=()):
    """compare what the nodes became with what they should be
    orig, expand: the content before; stale: children whose linked version must not stay; changed: old children of which a
    changed copy exists; fresh: nodes new in the record that must be linked"""
    bad = bad_refs(got)
    atoms = [c for x in each(got) for c in x[1] if not isnode(c)]
    why = bad[0] if bad else None
    if why is None:
        s = [c for c in atoms if c in stale]
        if s:
            why = "the changed child is still linked in its old version"
    if why is None:
        s = [c for c in atoms if c in changed]
        if s:
            why = "a node that gave or took entries is still linked in its old version"
    if why is None:
        for j in fresh:
            if T.linked.count(j) != 1:
                why = "a recorded node is linked %d times" % T.linked.count(j)
    if why is None:
        why = misplaced(got, orig, expand)
    where_ = where
    fi.add("C08", key, why is None, "%s (%s)" % (why, shape), where_)
    if not (bad or why and "still" in why or why and "times" in why):
        a, b = inorder(got, expand), inorder(orig, expand)
        fi.add("C10", key, a == b, a != b and "entries %s become %s (%s)" % (say(orig), say(got), shape), where_)
        sizes = [x for x in each(got)]
        off = next((x for x in sizes if x[1] and len(x[1]) != len(x[0]) + 1), None)
        small = next((x for x in sizes[first:] if not MINK <= len(x[0]) <= MAXK), None)
        fi.add("C09", key, off is None and small is None, "%s (%s)" % (
            "a node with %d keys and %d children" % (len(off[0]), len(off[1])) if off else "a node with %d keys" % len(small[0]) if small else "", shape), where_)
        if a == b:
            fi.add("C25", key, got == want, got != want and "gives %s instead of %s (%s)" % (say(got), say(want), shape), where_)


def misplaced(got, orig, expand):
    """is a subtree dropped, doubled or linked in the wrong place?"""
    a, b = inorder(got, expand), inorder(orig, expand)
    if a == b:
        return None
    sa, sb = [x for x in a if x[0] == "sub"], [x for x in b if x[0] == "sub"]
    if sa != sb:
        lost = [x[1] for x in sb if x not in sa]
        return "a subtree is lost" if lost else "a subtree is linked twice" if len(sa) > len(sb) else "subtrees are linked in another order"
    rank = {x: i for i, x in enumerate(b)}
    for n in each(got):
        mids = []
        for c in n[1]:
            r = sorted(rank[x] for x in inorder(c, expand) if x in rank)
            if r:
                mids.append(r[len(r) // 2])
        if mids != sorted(mids):
            return "children are linked in another order"
    had, has = set(x for x in b if x[0] == "k"), set(x for x in a if x[0] == "k")
    if len(had - has) >= MINK:
        return "a node with its entries is lost"
    return None


def settle(ev, oc, ends=None):
    """(the ends that a shape leads to, None) or (None, why not decided) or ("stops", what)"""
    hits, open_ = [], []
    for s, kind, pay in oc.ends if ends is None else ends:
        if kind != "ok":
            continue
        h = ev.holds(s)
        if h:
            hits.append((s, pay))
        elif h is None:
            open_.append((s, pay))
    if open_:
        return None, "not tracked: %s" % unclear_fact(ev, open_[0][0])
    fails = []
    for s, what, w in oc.fails:
        h = ev.holds(s)
        if h is None:
            return None, "not tracked: %s" % unclear_fact(ev, s)
        if h:
            fails.append((what, w))
    if hits:
        return hits, None
    if fails:
        return "stops", fails[0]
    return None, "no path for this shape"


def label(names, env, node, contents, keys, children, nk, nc):
    K, Cn = contents
    names[K], names[Cn] = keys, children
    env[app("len", K)], env[app("len", Cn)] = nk, nc


def place_reads(ev, oc, F, size, leaf, old):
    """give the nodes read from the log the contents of the children they are"""
    for n, o, index, kids, st in oc.reads:
        if ev.holds(st) is False:
            continue
        try:
            c = ev.seq(kids)[ev.num(index)]
        except (Unknown, IndexError, KeyError, TypeError):
            continue
        k = old(c)
        if k is None:
            continue
        K, Cn = F.at(oc.ip, st, n)
        if K.op != "app" or Cn.op != "app":
            continue
        label(ev.names, ev.env, n, (K, Cn), ("s", c), ("sc", c), k, 0 if leaf else k + 1)
        oc.copies.append((n, c))


# ------------------------------------------------------------ repairing one deficient child
def is_node(t):
    return re.sub(r"^&(?:'\S+ )?", "", t) == NODE_T


def node_at(p, F, ip, st, v):
    """the shared node given as an argument, by value or by reference"""
    if v.op == "ptr" or v.op == "app" and isinstance(v.a[2], int) and v.a[2] >= 0 and p.tys(v.a[2]).startswith("&"):
        o, pr = ip.deref(v, F.shared)
        return ip.load(st, o, pr)
    return v


def step_function(p, F):
    rec = "&mut " + p.tys(F.rec)
    cands = [f for f in functions(p) if any(re.sub(r"'\S+ ", "", t) == rec for t in argtypes(p, f)) and sum(is_node(t) for t in argtypes(p, f)) == 2
             and "usize" in argtypes(p, f) and re.match(r"^std::result::Result<(%s|\(\)), " % re.escape(NODE_T), p.tys(result_ty(p, f.idx)))]
    top = [f for f in cands if all(h.idx in g(p).reach_from([f.idx]) for h in cands)]
    return top[0] if len(top) == 1 else None


def recorded(p, F, ip, st, ref):
    v = models.deep(ip, st, ip.at(st, ref, F.rec))
    return ip.field(v, F.role["nodes"], None), ip.field(v, F.role["seq"], None)


def repair_run(p, R, F, fi):
    f = step_function(p, F)
    if f is None:
        for q in ALL:
            fi.add(q, "repair of one node", None, "the function that repairs one node is not found")
        return None
    ts = argtypes(p, f)
    oc = Outcomes(p, R, F, f)
    keep = {}

    def init(ip, st, args):
        keep["args"] = args
        keep["node"] = {k: node_at(p, F, ip, st, args[k]) for k, t in enumerate(ts) if is_node(t)}
        keep["nodes"] = {k: F.at(ip, st, n) for k, n in keep["node"].items()}
        keep["rec"] = next(k for k, t in enumerate(ts) if t.startswith("&mut ") and t.endswith(p.tys(F.rec)))
        keep["list"] = recorded(p, F, ip, st, args[keep["rec"]])
    oc.run(init)
    key0 = "repair of one node"
    if not oc.ok:
        for q in ALL:
            fi.add(q, key0, None, oc.why or "not decided")
        return None
    a = keep["args"]
    owners = {r[1] for r in oc.reads}
    fathers = [k for k in keep["nodes"] if oc.ip.deref(keep["node"][k], F.lock)[0] in owners]
    ints = [k for k, t in enumerate(ts) if t == "usize"]
    index = [k for k in ints if any(x is a[k] for r in oc.reads for x in subterms(r[2]))]
    if len(fathers) != 1 or len(index) != 1 or len(ints) > 2:
        for q in ALL:
            fi.add(q, key0, None, "the roles of its arguments are not clear")
        return None
    fa, ix = fathers[0], index[0]
    ch = next(k for k in keep["nodes"] if k != fa)
    order = [k for k in ints if k != ix]
    return {"f": f, "father": fa, "index": ix, "child": ch, "order": order, "rec": keep["rec"], "keep": keep, "oc": oc, "passed": set(),
            "gives": "(), " not in p.tys(result_ty(p, f.idx))}


def no_op(p, F, step):
    """does the repair leave a father alone whose child is not deficient?"""
    oc, keep, a = step["oc"], step["keep"], step["keep"]["args"]
    names, env = {}, {}
    label(names, env, a[step["father"]], keep["nodes"][step["father"]], "f", "c", 2, 3)
    label(names, env, a[step["child"]], keep["nodes"][step["child"]], "d", "dc", MINK, 0)
    names[keep["list"][0]] = "m"
    env[app("len", keep["list"][0])] = 2
    env[a[step["index"]]] = 1
    for o in step["order"]:
        env[a[o]] = MAXK
    ev = Evaluate(F, env, names)
    oc.copies = []
    place_reads(ev, oc, F, {}, True, lambda c: 5)
    ends, why = settle(ev, oc)
    if ends is None or ends == "stops":
        return True
    try:
        return any(ev.seq(F.at(oc.ip, st, keep["node"][step["father"]])[0]) == [("f", 0), ("f", 1)] for st, pay in ends)
    except Unknown:
        return True


def repair_shapes(p, F, fi, step):
    f, fa, ix, ch, keep, oc = (step[x] for x in ("f", "father", "index", "child", "keep", "oc"))
    a = keep["args"]
    if step["order"] and not step["passed"]:
        for q in ALL:
            fi.add(q, "repair of one node", None, "how it is called is not clear")
        return
    for given in sorted(step["passed"] or [()]):
        repair_shape(p, F, fi, step, f, fa, ix, ch, keep, oc, a, given)


def repair_shape(p, F, fi, step, f, fa, ix, ch, keep, oc, a, given):
    M0 = 2
    for leaf in (True, False):
        for n in range(1, MAXK + 1):
            for d in range(0, n + 1):
                for sl in (4, 5, 6, 8) if d > 0 else (None,):
                    for sr in (4, 5, 6, 8) if d < n else (None,):
                        kind = ("left" if d > 0 and sl > 4 else "right" if d < n and sr > 4 else "mleft" if d > 0 else "mright")
                        key = "repair of one node: %s, %s" % ("leaf" if leaf else "inner node", {
                            "left": "left sibling can give", "right": "only the right sibling can give", "mleft": "merge with the left sibling",
                            "mright": "merge with the right sibling"}[kind])
                        sizes = {d - 1: sl, d + 1: sr}
                        k = MINK - 1
                        shape = "parent with %d keys, child %d, siblings with %s and %s keys" % (n, d, sl if sl else "no", sr if sr else "no")
                        names, env = {}, {}
                        label(names, env, a[fa], keep["nodes"][fa], "f", "c", n, n + 1)
                        label(names, env, a[ch], keep["nodes"][ch], "d", "dc", k, 0 if leaf else k + 1)
                        names[keep["list"][0]] = "m"
                        env[app("len", keep["list"][0])] = M0
                        env[a[ix]] = d
                        for o in step["order"]:
                            env[a[o]] = given[step["order"].index(o)]
                        ev = Evaluate(F, env, names)
                        oc.copies = []
                        place_reads(ev, oc, F, sizes, leaf, lambda c: sizes.get(c[1], k + 1) if c[0] == "c" and (sizes.get(c[1]) or c[1] == d) else None)
                        ends, why = settle(ev, oc)
                        if ends == "stops":
                            fi.add("C25", key, False, "the node is not repaired: %s (%s)" % (why[0], shape), why[1])
                            continue
                        if ends is None:
                            for q in ALL:
                                fi.add(q, key, None, why)
                            continue
                        F_ = ([("f", j) for j in range(n)], [("c", j) for j in range(n + 1)])
                        D_ = ([("d", j) for j in range(k)], [] if leaf else [("dc", j) for j in range(k + 1)])

                        def sib(i):
                            c = ("c", i)
                            return [(("s", c), j) for j in range(sizes[i])], [] if leaf else [(("sc", c), j) for j in range(sizes[i] + 1)]
                        orig = (F_[0], [D_ if i == d else c for i, c in enumerate(F_[1])])
                        want = expected(F_, D_, d, sib, kind)
                        for st, pay in ends:
                            try:
                                lst, seq = recorded(p, F, oc.ip, st, a[keep["rec"]])
                                T = Tree(F, oc.ip, st, ev, ev.seq(lst), seq)
                                got = T.nested(pay if step["gives"] else keep["node"][fa])
                                ch_ = [c for nd, c in oc.copies if c[1] != d and T.content(nd) != sib(c[1])]
                                judge(fi, key, T, got, want, orig, lambda x: sib(x[1]) if x[0] == "c" and sizes.get(x[1]) else None, shape, f.span,
                                      first=1, stale=[("c", d)], changed=ch_, fresh=range(M0, len(T.nodes)))
                            except Unknown as e:
                                for q in ALL:
                                    fi.add(q, key, None, "not tracked: %s" % e)


def expected(F_, D_, d, sib, kind):
    fk, fc = list(F_[0]), list(F_[1])
    if kind == "left":
        s = sib(d - 1)
        fc[d - 1] = (s[0][:-1], s[1][:-1])
        fc[d] = ([fk[d - 1]] + D_[0], s[1][-1:] + D_[1])
        fk[d - 1] = s[0][-1]
    elif kind == "right":
        s = sib(d + 1)
        fc[d + 1] = (s[0][1:], s[1][1:])
        fc[d] = (D_[0] + [fk[d]], D_[1] + s[1][:1])
        fk[d] = s[0][0]
    elif kind == "mleft":
        s = sib(d - 1)
        fc[d - 1:d + 1] = [(s[0] + [fk[d - 1]] + D_[0], s[1] + D_[1])]
        del fk[d - 1]
    else:
        s = sib(d + 1)
        fc[d:d + 2] = [(D_[0] + [fk[d]] + s[0], D_[1] + s[1])]
        del fk[d]
    return fk, fc


# ------------------------------------------------------------ whole writes
def roots(p):
    """functions that read the root node"""
    return [f for f in functions(p) if re.match(r"^std::result::Result<std::option::Option<%s>, " % re.escape(NODE_T), p.tys(result_ty(p, f.idx)))
            and re.match(r"^&(?:'\S+ )?tree::Tree$", (argtypes(p, f) or [""])[0])]


def committers(p, F):
    """functions that store a record of changed nodes"""
    rec = p.tys(F.rec)
    return [f for f in functions(p) if rec in argtypes(p, f)]


def infinite(p, ip, st, v):
    """is this search key the infinity above (True) or below (False) every key? None: another key"""
    v = models.deep(ip, st, v)
    for x in subterms(v):
        if x.op == "agg" and x.a[0].endswith("InfiniteKeys"):
            t = next(t for t in p.types if t["k"] == "adt" and t["path"].endswith("InfiniteKeys"))
            return t["variants"][x.a[1]]["name"] == "Positive"
    return None


class Write(Outcomes):
    """a whole put or del on a path of given length; the search, single reads, the repair of one node and the commit are
    replaced by what they are for"""

    def __init__(self, p, R, F, f, length, matched, below=1, step=None, full=0, inner=False):
        """length: nodes on the way down; matched: the key is found, in the last of them; full: how many of the last nodes are
        full; inner: the last one has children; below: nodes on the way from there to an edge leaf"""
        super().__init__(p, R, F, f, unroll=8)
        self.length, self.matched, self.below, self.full, self.inner = length, matched, below, full, inner
        self.commits, self.steps, self.paths, self.edges = [], [], [], []
        self.step = step
        for q in roots(p):
            for j in coroutine_of(p, q):
                self.stubs[j] = self.root
        for q in entry_readers(p):
            for j in coroutine_of(p, q):
                self.stubs[j] = self.entry
        for q in searches(p):
            for j in coroutine_of(p, q):
                self.stubs[j] = self.search
        for q in committers(p, F):
            for j in coroutine_of(p, q):
                self.stubs[j] = self.commit
        if step:
            for j in coroutine_of(p, step["f"]):
                self.stubs[j] = self.repair
        self.usize = next(i for i in range(len(p.types)) if p.tys(i) == "usize")
        self.u64 = next(i for i in range(len(p.types)) if p.tys(i) == "u64")

    def root(self, ip, c, st, b, args):
        name = mk("ctxf", c.ctx, b.idx)
        self.top = app("new", "ok", mk("top", name), ty=self.F.shared)
        e, n = st.copy(), st.copy()
        n.setmon("tree", ZERO)
        st.setmon("tree", ONE)
        return [(e, err_(app("new", "err", name))), (n, ok_(models.NONE)), (st, ok_(models.some(self.top)))]

    def entry(self, ip, c, st, b, args):
        name = mk("ctxf", c.ctx, b.idx)
        t = self.p.ty(b.locals[0])
        return [(st.copy(), err_(app("new", "err", name))), (st, ok_(app("new", "ok", name, ty=t["args"][0] if t.get("args") else None)))]

    def search(self, ip, c, st, b, args):
        name = mk("ctxf", c.ctx, b.idx)
        up = args[0].a[2]
        t = self.p.ty(self.p.ty(b.locals[0])["args"][0])
        node = next((x for x in up if self.is_shared(x)), None)
        if node is None or t["k"] != "tuple" or len(t["elems"]) != 2:
            raise Undecided("the search is called in another way")
        inf = None
        for x in up:
            if x is not node:
                inf = infinite(self.p, ip, st, x)
        nodes = [node]
        n = self.length if inf is None else self.below
        for j in range(1, n):
            nodes.append(app("new", "ok", mk("pn", name, C(j)), ty=self.F.shared))
        items, bases = [], []
        for j, x in enumerate(nodes):
            leaf = j == n - 1 and not (inf is None and self.inner)
            bases.append(self.lay(ip, st, x, leaf, self.fill(n - j) if inf is None and not self.matched else None,
                                  MINK if j or inf is not None else 0 if n == 1 and not self.matched else 1))
            K = as_seq(self.F.at(ip, st, x)[0])
            if inf is None:
                i = app("new", "ok", mk("pi", name, C(j)), ty=self.usize)
                facts.assume(st, ge0(sub(sub(seq_len(K), i), ONE if self.matched and j == n - 1 else ZERO)))
            else:
                i = seq_len(K) if inf else ZERO
            items.append((x, i))
        e = st.copy()
        opt = models.some(app("new", "ok", mk("ms", name), ty=self.u64)) if inf is None and self.matched else models.NONE
        path = mkseq([mk("e", agg("tuple", 0, (x, i))) for x, i in items])
        got = self.edges if inf is not None else self.paths
        if inf is None and got and got[0][1] != items:
            raise Undecided("the tree is searched more than once")
        got.append((inf, items, bases, name))
        parts = [opt if "Option" in self.p.tys(q) else path for q in t["elems"]]
        return [(e, err_(app("new", "err", name))), (st, ok_(agg("tuple", 0, tuple(parts))))]

    def fill(self, up):
        return True if up <= self.full else False if up == self.full + 1 else None

    def lay(self, ip, st, x, leaf, full, low):
        """give a node on the way the shape it has in a well-formed tree; the sequences its entries come from"""
        K, Cn = self.F.at(ip, st, x)
        if K.op != "app" or Cn.op != "app":
            return K, Cn
        if full:
            n = C(MAXK)
        else:
            n = app("len", K)
            facts.assume(st, ge0(sub(C(MAXK if full is None else MAXK - 1), n)))
            facts.assume(st, ge0(sub(n, C(low))))
        self.F.set(ip, st, x, mkseq([opaque_seg(K, ZERO, n)]), mkseq([] if leaf else [opaque_seg(Cn, ZERO, add(n, ONE))]))
        return K, Cn

    def is_shared(self, x):
        return x.op == "app" and isinstance(x.a[2], int) and x.a[2] >= 0 and self.p.tys(x.a[2]) == NODE_T or x.op == "ptr" and False

    def commit(self, ip, c, st, b, args):
        name = mk("ctxf", c.ctx, b.idx)
        rec = next((x for x in args[0].a[2] if x.op == "agg" and x.a[0].endswith(self.p.ty(self.F.rec)["path"])), None)
        self.commits.append((st.copy(), models.deep(ip, st, rec) if rec is not None else None, call_site(ip)))
        t = self.p.ty(b.locals[0])
        return [(st.copy(), err_(app("new", "err", name))), (st, ok_(app("new", "ok", name, ty=t["args"][0])))]

    def repair(self, ip, c, st, b, args):
        """one node repaired: its father has other keys and children, other nodes are recorded"""
        name = mk("ctxf", c.ctx, b.idx)
        up = args[0].a[2]
        r = self.step
        father, index, child = (node_at(self.p, self.F, ip, st, up[r[x]]) if x != "index" else up[r[x]] for x in ("father", "index", "child"))
        e = st.copy()
        k0, c0 = self.F.at(ip, st, father)
        kids = app("new", "ok", mk("rk", name), ty=self.part_ty(self.F.kpath))
        chil = app("new", "ok", mk("rc", name), ty=self.part_ty(self.F.cpath))
        mark = app("new", "ok", mk("rm", name), ty=self.F.shared)
        self.steps.append({"name": name, "keys": kids, "children": chil, "mark": mark, "father": father, "index": index, "child": child,
                           "order": [up[k] for k in r["order"]], "before": (k0, c0), "deficient": self.F.at(ip, st, child), "st": st.copy(), "where": call_site(ip)})
        self.F.set(ip, st, father, kids, chil)
        ref = up[r["rec"]]
        o, pr = ip.deref(ref, self.F.rec)
        v = ip.load(st, o, pr)
        fs = [ip.field(v, k, None) for k in range(len(self.p.ty(self.F.rec)["variants"][0]["fields"]))]
        fs[self.F.role["nodes"]] = concat(as_seq(models.deep(ip, st, fs[self.F.role["nodes"]])), mkseq([mk("e", mark)]))
        ip.store(st, o, pr, agg(v.a[0] if v.op == "agg" else "adt:" + self.p.ty(self.F.rec)["path"], 0, fs))
        self.steps[-1]["after"] = st.copy()
        return [(e, err_(app("new", "err", name))), (st, ok_(father if r["gives"] else agg("tuple", 0, ())))]

    def part_ty(self, path):
        ty = self.F.lock
        for k in path:
            t = self.p.ty(ty)
            ty = t["args"][0] if t["path"].endswith(("RwLock", "Mutex")) else t["variants"][0]["fields"][k][1]
        return ty


def insertion(levels, new, leaf_at=None):
    """what an insertion of an entry into the bottom of a path gives: nested; levels: [(keys, children, index)] from the root"""
    ks, cs, i = levels[-1]
    ks, cs = ks[:i] + [new] + ks[i:], list(cs)
    for j in range(len(levels) - 1, -1, -1):
        if len(ks) <= MAXK:
            cur = (ks, cs)
            for uk, uc, ui in reversed(levels[:j]):
                uc = list(uc)
                uc[ui] = cur
                cur = (uk, uc)
            return cur
        m, h = len(ks) >> 1, len(cs) >> 1
        left, mid, right = (ks[:m], cs[:h]), ks[m], (ks[m + 1:], cs[h:])
        if j == 0:
            return [mid], [left, right]
        uk, uc, ui = levels[j - 1]
        ks, cs = uk[:ui] + [mid] + uk[ui:], list(uc[:ui]) + [left, right] + list(uc[ui + 1:])


def link(levels, bottom):
    """the path with the bottom replaced"""
    cur = bottom
    for uk, uc, ui in reversed(levels):
        uc = list(uc)
        uc[ui] = cur
        cur = (uk, uc)
    return cur


def sizes_for(length, full, matched):
    """numbers of keys along a path with so many full nodes at its end: all that matter"""
    import itertools
    free = length - full
    if matched:
        first = [range(1, MAXK + 1), (1, 4, 7, 8), (1, 8)][length - 1]
        return list(itertools.product(first, *[(4, 8)] * (length - 1)))
    if not free:
        return [(MAXK,) * length]
    one = range(0 if length == 1 else 1, MAXK)
    top = [one if length < 3 else (1, 4, 7)] + [(4, 5, 7)] * (free - 1)
    if free > 1:
        top = [(1, 4, 7)] + [(4, 7, 8)] * (free - 2) + [(4, 5, 7)]
    return [s + (MAXK,) * full for s in itertools.product(*top)]


def positions(n, last, j, length, full):
    """positions in a node with n keys: all in the nodes that change, the ends and the middle elsewhere"""
    c = range(0, n + (0 if last else 1))
    few = length == 3 and full < 3 or length > 1 and j < length - 1 - full
    return [i for i in c if not few or i in (0, n // 2, n - 1, n)]


def insertions(p, R, F, fi):
    import itertools
    for f in methods(p, "tree::Tree", "put_compare_and_swap")[:1]:
        for length in (1, 2, 3):
            for matched, inner_, full in [(True, False, 0), (True, True, 0)] + [(False, False, u) for u in range(length + 1)]:
                w = Write(p, R, F, f, length, matched, full=full, inner=inner_)
                w.run()
                key = put_key(matched, full, length)
                if not w.ok or not w.commits:
                    for q in ALL:
                        fi.add(q, key, None, w.why or "not decided")
                    continue
                if length == 1 and not matched and not full:
                    first_entry(p, F, fi, w, f)
                for sizes in sizes_for(length, full, matched):
                    for idx in itertools.product(*[positions(n, matched and j == length - 1, j, length, full) for j, n in enumerate(sizes)]):
                        put_shape(p, F, fi, w, f, sizes, idx, inner_, matched, key)


def first_entry(p, F, fi, w, f):
    """put into an empty tree: one node with the entry"""
    key = "put: the first entry"
    for st, rec, where in w.commits:
        if st.mon("tree") is not ZERO:
            continue
        ev = Evaluate(F, {}, {})
        try:
            lst, ev.seqno = w.ip.field(rec, F.role["nodes"], None), w.ip.field(rec, F.role["seq"], None)
            nodes = ev.seq(lst)
            T = Tree(F, w.ip, st, ev, nodes, ev.seqno)
            if not nodes or nodes[-1][0] != "val":
                raise Unknown("the record of nodes")
            want = ([("key", None)], [])
            judge(fi, key, T, T.nested(nodes[-1][1]), want, want, lambda x: None, "empty tree", f.span, first=1, fresh=range(0, len(nodes) - 1))
        except Unknown as e:
            for q in ALL:
                fi.add(q, key, None, "not tracked: %s" % e)


def put_key(matched, full, length):
    return "put: an entry is replaced" if matched else "put: an entry is inserted, %s" % (
        "no node is full" if not full else "the tree grows" if full == length else "%d node%s split" % (full, " is" if full == 1 else "s are"))


def put_shape(p, F, fi, w, f, sizes, idx, inner_, matched, key):
    L = len(sizes)
    shape = "path of nodes with %s keys at positions %s" % (", ".join(map(str, sizes)), ", ".join(map(str, idx)))
    ip = w.ip
    for inf, items, bases, _ in w.paths[:1]:
        names, env = {}, {}
        levels = []
        for j, (node, it) in enumerate(items):
            nc = sizes[j] + 1 if j < L - 1 or inner_ else 0
            label(names, env, node, bases[j], ("k", j), ("c", j), sizes[j], nc)
            env[it] = idx[j]
            levels.append(([(("k", j), t) for t in range(sizes[j])], [(("c", j), t) for t in range(nc)], idx[j]))
        ev = Evaluate(F, env, names)
        hits, why = settle(ev, w, [(st, "ok", (rec, where)) for st, rec, where in w.commits if through(st)])
        if hits == "stops":
            for q in ("C09",):
                fi.add(q, key, False, "the write does not happen: %s (%s)" % (why[0], shape), why[1])
            return
        if hits is None:
            for q in ALL:
                fi.add(q, key, None, why)
            return
        new = ("key", None)
        if matched:
            ks = list(levels[-1][0])
            ks[idx[-1]] = new
            want = link(levels[:-1], (ks, levels[-1][1]))
        else:
            want = insertion(levels, new)
        seen = set()
        for st, (rec, where) in hits:
            try:
                lst, seq = ip.field(rec, F.role["nodes"], None), ip.field(rec, F.role["seq"], None)
                ev.seqno = seq
                nodes = ev.seq(lst)
                T = Tree(F, ip, st, ev, nodes, seq)
                if not nodes or nodes[-1][0] != "val":
                    raise Unknown("the record of nodes")
                got = T.nested(nodes[-1][1])
                judge(fi, key, T, got, want, want, lambda x: None, shape, f.span, first=1,
                      stale=[(("c", j), idx[j]) for j in range(L - 1)], fresh=range(0, len(nodes) - 1))
            except Unknown as e:
                for q in ALL:
                    fi.add(q, key, None, "not tracked: %s" % e)


# ------------------------------------------------------------ deletion
def removal(levels, deltas, opaque):
    """what the removal of an entry from the bottom of a path gives, the repairs of single nodes aside: (nested, steps);
    opaque(j): content of the father after the j-th repair, with its last change"""
    cur = levels[-1][:2]
    steps = []
    for j in range(len(levels) - 1, 0, -1):
        if len(cur[0]) >= MINK:
            return link(levels[:j], cur), steps
        fk, fc, fi_ = levels[j - 1]
        n = len(fk) + deltas[len(steps)]
        keys, children, mark = opaque(len(steps), n)
        steps.append(((fk, fc), fi_, cur))
        cur = (keys, children)
        if j == 1 and n == 0:
            return mark, steps
    return cur, steps


def deletions(p, R, F, fi, step):
    import itertools
    for f in methods(p, "tree::Tree", "del_compare_and_swap")[:1]:
        for length, inner_, below in ((1, False, 0), (2, False, 0), (3, False, 0), (1, True, 1), (1, True, 2), (2, True, 1)):
            w = Write(p, R, F, f, length, True, below=below, step=step, inner=inner_)
            w.run()
            key = "del: an entry of %s is removed" % ("an inner node" if inner_ else "a leaf")
            if not w.ok or not w.commits:
                for q in ALL:
                    fi.add(q, key, None, w.why or "not decided")
                continue
            if length == 1:
                sizes = [(n,) for n in (range(1, MAXK + 1) if not inner_ else (1, 2, 8))]
            else:
                sizes = list(itertools.product((1, 2, 8), *[(4, 5, 8)] * (length - 1)))
            for s in sizes:
                for idx in itertools.product(*[del_positions(n, j == length - 1, length - j) for j, n in enumerate(s)]):
                    for edges in itertools.product((4, 5, 8), (4, 5, 8)) if inner_ else (None,):
                        for mids in ((4, 8) if below > 1 else (None,)):
                            del_shapes(p, F, fi, w, f, s, idx, edges, mids, key)


def del_positions(n, last, up):
    c = range(0, n if last else n + 1)
    return [i for i in c if up < 2 or i in (0, n // 2, n - 1, n)]


def del_shapes(p, F, fi, w, f, sizes, idx, edges, mid, key):
    import itertools
    depth = len(sizes) + (w.below if w.inner else 0)
    done = set()
    for deltas in itertools.product((0, -1), repeat=depth - 1):
        n = del_shape(p, F, fi, w, f, sizes, idx, edges, mid, key, deltas, done)


def del_shape(p, F, fi, w, f, sizes, idx, edges, mid, key, deltas, done):
    L = len(sizes)
    ip = w.ip
    inf, items, bases, _ = w.paths[0]
    names, env = {}, {}
    levels = []
    for j, (node, it) in enumerate(items):
        nc = sizes[j] + 1 if j < L - 1 or w.inner else 0
        label(names, env, node, bases[j], ("k", j), ("c", j), sizes[j], nc)
        env[it] = idx[j]
        levels.append(([(("k", j), t) for t in range(sizes[j])], [(("c", j), t) for t in range(nc)], idx[j]))
    ev = Evaluate(F, env, names)
    at = idx[-1]

    def chain(i, positive):
        """the nodes from child i of the node with the removed entry to its edge leaf"""
        out = []
        for d in range(w.below):
            last = d == w.below - 1
            n = edges[i - at] if last else mid
            tag = ("e", i, positive if d else None, d)
            out.append(([(("k",) + tag, t) for t in range(n)], [] if last else [(("c",) + tag, t) for t in range(n + 1)], (n - 1 if last else n) if positive else 0))
        return out
    if w.inner:
        cut = dict((n, (kids, i)) for n, o, i, kids, st in w.reads if ev.holds(st) is not False)
        for inf, items, bases, _ in w.edges:
            r = cut.get(items[0][0])
            if r is None:
                continue
            try:
                c = ev.seq(r[0])[ev.num(r[1])]
            except (Unknown, IndexError, TypeError):
                c = None
            if c is None or c[0] != ("c", L - 1) or c[1] not in (at, at + 1):
                return
            for d, (node, it) in enumerate(items):
                ks, cs, _ = chain(c[1], inf)[d]
                label(names, env, node, bases[d], ("k", "e", c[1], inf if d else None, d), ("c", "e", c[1], inf if d else None, d), len(ks), len(cs))
    ev.memo.clear()
    # the repairs that happen
    actual, seen = [], set()
    for s in w.steps:
        if s["name"] in seen or not ev.holds(s["st"]):
            continue
        seen.add(s["name"])
        if len(actual) >= len(deltas):
            break
        try:
            before = (ev.seq(s["before"][0]), ev.seq(s["before"][1]))
            x = (before, ev.num(s["index"]), (ev.seq(s["deficient"][0]), ev.seq(s["deficient"][1])), [ev.num(o) for o in s["order"]], s)
        except (Unknown, KeyError) as e:
            for q in ALL:
                fi.add(q, key, None, "not tracked: %s" % e)
            return
        j = len(actual)
        n = len(before[0]) + deltas[j]
        label(names, env, None, (s["keys"], s["children"]), ("rk", j), ("rc", j), n, n + 1)
        label(names, env, None, F.at(ip, s["after"], s["mark"]), ("mk", j), ("mc", j), 6, 0)
        ev.memo.clear()
        actual.append(x)
        w.step["passed"].add(tuple(x[3]))
    if deltas[len(actual):] != (0,) * (len(deltas) - len(actual)):
        return      # the same as another choice
    shape = "path of nodes with %s keys at positions %s%s%s" % (", ".join(map(str, sizes)), ", ".join(map(str, idx)),
        ", edge leaves with %d and %d keys" % edges if edges else "", ", %d repairs of which %d take a key from the parent" % (len(actual), -sum(deltas)) if actual else "")
    hits, why = settle(ev, w, [(st, "ok", (rec, where)) for st, rec, where in w.commits])
    if hits == "stops":
        fi.add("C09", key, False, "the entry is not removed: %s (%s)" % (why[0], shape), why[1])
        return
    if hits is None:
        for q in ALL:
            fi.add(q, key, None, why)
        return

    def opaque(j, n):
        return [(("rk", j), t) for t in range(n)], [(("rc", j), t) for t in range(n + 1)], ([(("mk", j), t) for t in range(6)], [])

    def variant(side):
        lv = [list(x) for x in levels]
        ks = list(lv[-1][0])
        if not w.inner:
            del ks[at]
            lv[-1][0] = ks
            return [tuple(x) for x in lv]
        ch = chain(at + side, not side)
        leaf = ch[-1]
        ks[at] = leaf[0][0] if side else leaf[0][-1]
        lv[-1][0] = ks
        lv[-1][2] = at + side
        return [tuple(x) for x in lv] + ch[:-1] + [(leaf[0][1:] if side else leaf[0][:-1], leaf[1], leaf[2])]
    side = 1 if w.inner and edges[0] < edges[1] else 0
    wants = [removal(variant(s), deltas + (0,) * 4, opaque) for s in ([side, 1 - side] if w.inner else [side])]

    def expand(x):
        if w.inner and x[0] == ("c", L - 1) and x[1] in (at, at + 1):
            c = chain(x[1], x[1] == at)
            return link(c[:-1], c[-1][:2])
        if x[0][0] == "rc" and deltas[x[0][1]] and len(actual[x[0][1]][0][0]) == 1:
            return opaque(x[0][1], 0)[2]
        return None
    for st, (rec, where) in hits:
        try:
            lst, seq = ip.field(rec, F.role["nodes"], None), ip.field(rec, F.role["seq"], None)
            ev.seqno = seq
            nodes = ev.seq(lst)
            T = Tree(F, ip, st, ev, nodes, seq)
            if not nodes or nodes[-1][0] != "val":
                raise Unknown("the record of nodes")
            got = T.nested(nodes[-1][1])
            marks = [j for j, n in enumerate(nodes) if any(n[1] is x[4]["mark"] for x in actual)]
            fits = [got == want and [x[:3] for x in actual] == steps for want, steps in wants]
            if not fits[0] and any(fits):
                for q in ("C08", "C09", "C10"):
                    fi.add(q, key, True)
                fi.add("C25", key, False, "the removed entry is replaced from the %s (%s)" % ("left" if side else "right", shape), f.span)
                continue
            want, steps = wants[0]
            if len(actual) < len(steps):
                small = [x for x in list(each(got))[1:] if len(x[0]) < MINK]
                if small:
                    fi.add("C09", key, False, "a node with %d keys is left as it is (%s)" % (len(small[0][0]), shape), f.span)
                for q in ALL if not small else ():
                    fi.add(q, key, None, "a repair that is not tracked")
                continue
            if len(actual) > len(steps):
                if no_op(p, F, w.step):
                    fi.add("C25", key, None, "a repair of a node that may not need it")
                    continue
                fi.add("C25", key, False, "a node with %d keys is repaired (%s)" % (len(actual[len(steps)][2][0]), shape), actual[len(steps)][4]["where"])
                continue
            wrong = next((k for k in range(len(steps)) if actual[k][:3] != steps[k]), None)
            if wrong is not None:
                a, b = actual[wrong], steps[wrong]
                text = "the repair is given %s (%s)" % ("child %d instead of %d" % (a[1], b[1]) if a[1] != b[1] else "another parent: %s instead of %s" % (
                    say(a[0]), say(b[0])) if a[0] != b[0] else "%s for the child %s" % (say(a[2]), say(b[2])), shape)
                for q in ("C08", "C10"):
                    fi.add(q, key, False, text, a[4]["where"])
                continue
            judge(fi, key, T, got, want, want, expand, shape, f.span, first=1,
                  stale=[(("c", j), idx[j]) for j in range(L - 1)], fresh=[j for j in range(len(nodes) - 1) if j not in marks])
        except Unknown as e:
            for q in ALL:
                fi.add(q, key, None, "not tracked: %s" % e)


# ------------------------------------------------------------ storing the record
def record_shapes(deep=False):
    """records of a write: (children of each node that it recorded, order of recording, recorded nodes nothing refers to)
    nodes are numbered depth first, the root is 0; the root is recorded last"""
    import itertools

    def trees(n):
        """ordered trees with n nodes as lists of subtrees"""
        if n == 1:
            return [()]
        return [f for f in forests(n - 1)]

    def forests(n):
        if n == 0:
            return [()]
        return [(t,) + r for k in range(1, n + 1) for t in trees(k) for r in forests(n - k)]

    def number_(t, out):
        me = len(out)
        out.append(None)
        out[me] = [number_(c, out) for c in t]
        return me
    for n in range(1, 7 if deep else 6):
        for t in trees(n):
            kids = []
            number_(t, kids)
            for perm in itertools.permutations(range(1, n)):
                yield kids, list(perm) + [0], 0
            if n < 5:
                yield kids, [n] + list(range(1, n)) + [0], 1        # a node that was recorded and then replaced


def commits(p, R, F, fi):
    """what is appended for a record of nodes, for small records of every shape"""
    SEQ, key = 9, "the appended block"
    fs = committers(p, F)
    if len(fs) != 1:
        for q in ("C08", "C24"):
            fi.add(q, key, None, "the function that stores a record is not found")
        return
    f = fs[0]
    k = argtypes(p, f).index(p.tys(F.rec))
    t = p.ty(F.rec)
    fields = {q["path"].split("::")[-1]: [x[0] for x in q["variants"][0]["fields"]] for q in p.types
              if q["k"] == "adt" and q.get("variants") and q["path"].endswith(("YoloIndex", "yolo_index::Level"))}
    lost = 0
    for kids, order, stray in record_shapes(R.tier == "thorough"):
        w = Outcomes(p, R, F, f, unroll=16)
        content, place = {}, {n: i for i, n in enumerate(order)}
        for n, cs in enumerate(kids + [[1] if len(kids) > 1 else []] * stray):
            refs = []
            for j, c in enumerate(cs):
                if (n + j) % 2 == 0:
                    refs.append((3 + j, len(kids) - 1 - j))        # an old node, at an offset that the block has too
                refs.append((SEQ, place[c]))
            if refs and len(refs) < 2:
                refs.append((8, 0))
            content[n] = ([100 + 10 * n + i for i in range(max(len(refs) - 1, 1 if not refs else 0))], refs)
        appended = []

        def init(ip, st, args):
            nodes = [app("new", "ok", mk("rn", C(n)), ty=F.shared) for n in order]
            for n, x in zip(order, nodes):
                ks, cs = content[n]
                pair = lambda s, o: agg("adt:Child", 0, tuple(C(s) if i == F.cf["seq"] else C(o) for i in range(2)))
                F.set(ip, st, x, mkseq([mk("e", agg("adt:KeyValue", 0, (C(q),))) for q in ks]), mkseq([mk("e", pair(*c)) for c in cs]))
            parts = [ip.field(args[k], j, None) for j in range(len(t["variants"][0]["fields"]))]
            parts[F.role["nodes"]], parts[F.role["seq"]] = mkseq([mk("e", x) for x in nodes]), C(SEQ)
            args[k] = agg("adt:" + t["path"], 0, tuple(parts))

        class A(Quiet):
            events = ("core_append",)

            def on_core_append(self, ip, st, data=None, call=None, **d):
                appended.append((data, call_site(ip)))
        w.more = [A(Report("X"))]
        w.run(init, seconds=20)
        shape = "nodes %s recorded in the order %s" % (say_kids(kids), ", ".join(map(str, order)))
        if not w.ok or not appended:
            for q in ("C08", "C24"):
                fi.add(q, key, None, w.why or "nothing is appended")
            lost += 1
            if lost > 2:
                return
            continue
        position = {}
        want = []
        for n in range(len(kids)):
            ks, cs = content[n]
            want.append((ks, [x for s, o in cs for x in (s, order[o] if s == SEQ else o)]))
        for data, where in appended:
            ix = [x for x in subterms(data) if x.op == "app" and x.a[0] == "enc" and "YoloIndex" in str(x.a[1][0].a[0])]
            try:
                if len(ix) != 1:
                    raise Unknown("the index in the block")
                got = levels_of(ix[0].a[1][1], fields)
            except Unknown as e:
                for q in ("C08", "C24"):
                    fi.add(q, key, None, "not tracked: %s" % e)
                continue
            fi.add("C24", key, got[:len(want)] == want, "%s instead of %s (%s)" % (got, want, shape), where)
            a, b = unfold(got, SEQ), unfold(want, SEQ)
            fi.add("C08", key, a == b, "the block holds %s instead of %s (%s)" % (a, b, shape), where)


def say_kids(kids):
    def go(n):
        return "%d%s" % (n, "[%s]" % " ".join(go(c) for c in kids[n]) if kids[n] else "")
    return go(0)


def levels_of(msg, fields):
    """[(keys, children)] of an index message with concrete content"""
    def numbers(v):
        if v.op != "seq" or any(q.op != "e" or not is_const(q.a[0]) for q in v.a):
            raise Unknown(show(v)[:80])
        return [cval(q.a[0]) for q in v.a]
    if msg.op != "agg":
        raise Unknown(show(msg)[:80])
    lv = msg.a[2][fields["YoloIndex"].index("levels")]
    if lv.op != "seq" or any(q.op != "e" or q.a[0].op != "agg" for q in lv.a):
        raise Unknown(show(lv)[:80])
    return [tuple(numbers(q.a[0].a[2][fields["Level"].index(x)]) for x in ("keys", "children")) for q in lv.a]


def unfold(levels, seq, at=0, depth=0):
    """the tree in a block, from its first node"""
    if not 0 <= at < len(levels) or depth > 8:
        return "missing"
    ks, cs = levels[at]
    return (ks, [unfold(levels, seq, cs[i + 1], depth + 1) if cs[i] == seq else (cs[i], cs[i + 1]) for i in range(0, len(cs) - 1, 2)])


# ------------------------------------------------------------ all of it
def decide(p, R, prop):
    """report what concerns one property"""
    F = Forest(p)
    fi = Findings()
    if F.why:
        R.open("nodes", F.why)
        return
    if prop in ("C08", "C24"):
        commits(p, R, F, fi)
    if prop == "C24":
        fi.report(R, prop)
        return
    step = repair_run(p, R, F, fi)
    insertions(p, R, F, fi)
    deletions(p, R, F, fi, step)
    if step:
        repair_shapes(p, F, fi, step)
    fi.report(R, prop)


def through(st):
    """did the state come through the search? (the tree was not empty)"""
    return st.mon("tree") is ONE


def unclear_fact(ev, st):
    if st is not None:
        for f, v in st.facts.items():
            if ev.truth(f) == "unclear":
                return show(f)[:150]
    return ""
