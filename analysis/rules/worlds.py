"""Operations on trees of given shape: the log is given (what each block decodes to), keys and values are symbolic, every
path of an operation is followed to its end and compared with what the operation is to do for the relation between the given
key and the stored ones that the path has established."""
import os
from .common import *
from .c17 import g
from .traversal import Quiet
from .restructure import levels_of
from engine import facts
from engine.models import ok as ok_, err as err_, some, NONE, OPT
from engine.term import EXPAND
from engine.models import bcmp as byte_order

MAXK, MINK = 8, 4


# ------------------------------------------------------------ a log of known content
class Log:
    """{index: list of (keys, children) | "bytes" (not decodable) | "index" (index not decodable)}"""

    def __init__(self, p, blocks, length):
        self.p, self.blocks, self.length = p, blocks, length

    def number(self, st, t):
        if is_const(t):
            return cval(t)
        for i in range(self.length + 1):
            if holds(st, eq_int(t, C(i))) is True:
                return i
        return None

    def fetch(self, ip, st, ix):
        i = self.number(st, ix)
        if i is None:
            return None
        if i >= self.length:
            return [(st, ok_(NONE))]
        st.setmon("read", ONE)
        return [(st, ok_(some(app("blk", C(i), ty=ip.vecu8))))]

    def decode(self, ip, st, b, mty):
        t = self.p.ty(mty)
        i = next((cval(x.a[1][0]) for x in subterms(b) if x.op == "app" and x.a[0] in ("blk", "ixb") and is_const(x.a[1][0])), None)
        if t["k"] != "adt" or i is None and not (b.op == "seq" and not b.a):
            return None
        name = t["path"].split("::")[-1]
        fs = [x[0] for x in t["variants"][0]["fields"]]
        what = self.blocks.get(i, [])
        if name == "Node":
            if what == "bytes":
                return err_(app("decerr", mk("const", "node")))
            vals = {"index": app("ixb", C(i), ty=ip.vecu8), "key": app("key", C(i), ty=ip.vecu8),
                    "value": app("value", C(i), ty=t["variants"][0]["fields"][fs.index("value")][1])}
            return agg("adt:" + t["path"], 0, tuple(vals[f] for f in fs))
        if name == "YoloIndex":
            if what == "index":
                return err_(app("decerr", mk("const", "index")))
            lt = next(q for q in self.p.types if q["k"] == "adt" and q["path"].endswith("yolo_index::Level"))
            lf = [x[0] for x in lt["variants"][0]["fields"]]
            num = lambda xs: mkseq([mk("e", C(x)) for x in xs])
            lv = [agg("adt:" + lt["path"], 0, tuple({"keys": num(k), "children": num(c)}[f] for f in lf)) for k, c in what]
            return agg("adt:" + t["path"], 0, (mkseq([mk("e", x) for x in lv]),))
        return None


class Run:
    """one operation on one log"""

    def __init__(self, p, R, f, log, seconds=30, unroll=12, cap=64, more=(), fncall=False):
        self.ends, self.bad, self.ip, self.f, self.log = [], [], None, f, log
        me = self

        class M(Quiet):
            events = ("panic", "assert")

            def on_panic(self, ip, st, why=None, **k):
                me.bad.append((False, "panic: %s" % (why,), call_site(ip), st.copy()))

            def on_assert(self, ip, st, cond=None, known=None, kind=None, **k):
                if known is not True:
                    s = st.copy()
                    if known is False or facts.assume(s, neg(cond)):
                        me.bad.append((False if known is False or not cond.unk else None, "panic: %s" % kind, call_site(ip), s))

        def setup(ip):
            me.ip = ip
            ip.graph = g(p)
            ip.cap, ip.errcap, ip.unroll, ip.world = cap, 1, unroll, log
            ip.relevant = g(p).reach_from([f.idx])

        def final(ip, st, v):
            me.ends += [(s, k, pay) for s, k, pay in res(ip, st, v)]
        Q = Report("X")
        EXPAND[0] = max(12, unroll)
        try:
            analyse(Q, p, f, [M(Report("X"))] + [m(Report("X")) for m in more], None, fncall=fncall, setup=setup, final=final, seconds=seconds, budget=4000000)
        finally:
            EXPAND[0] = 4
        R.steps += Q.steps
        R.fns |= Q.fns
        R.quiet |= Q.quiet
        R.paths += Q.paths
        R.roots.append(f.path)
        self.why = next(iter(Q.undec.values()), None)
        self.cut = [] if self.why else list(self.ip.cut)
        if self.cut:
            self.why = "more iterations than followed: %s" % (self.cut[:2],)


# ------------------------------------------------------------ trees
class Node:
    def __init__(self, keys, kids=(), ref=None):
        self.keys, self.kids, self.ref = list(keys), list(kids), ref

    def listing(self):
        out = []
        for i, k in enumerate(self.keys):
            if self.kids:
                out += self.kids[i].listing()
            out.append(k)
        return out + (self.kids[-1].listing() if self.kids else [])

    def copy(self):
        return Node(self.keys, self.kids)

    def leftmost(self):
        n = self
        while n.kids:
            n = n.kids[0]
        return n

    def rightmost(self):
        n = self
        while n.kids:
            n = n.kids[-1]
        return n


def plant(shape):
    """(root, blocks, length) of a tree: a number is a leaf with that many keys, a list an inner node; the entries are
    stored in blocks 1.. in an order that is not that of the keys, every node in the last block of its subtree"""
    def count(s):
        return s if isinstance(s, int) else len(s) - 1 + sum(count(x) for x in s)
    n = count(shape)
    step = next((k for k in (7, 5, 3, 11, 13, 1) if n and all(n % q or k % q for q in range(2, n + 1))), 1)
    seqs = iter([(i * step + n // 2) % n + 1 for i in range(n)])

    def make(s):
        if isinstance(s, int):
            return Node([next(seqs) for _ in range(s)])
        kids, keys = [make(s[0])], []
        for x in s[1:]:
            keys.append(next(seqs))
            kids.append(make(x))
        return Node(keys, kids)
    root = make(shape)
    length = n + 1 if n else 2
    blocks = {i: [] for i in range(1, length)}

    def top(t):
        return max([max(t.keys or [1])] + [top(c) for c in t.kids])

    def place(t):
        b = top(t)
        at = len(blocks[b])
        blocks[b].append(None)
        t.ref = (b, at)
        for c in t.kids:
            place(c)
        blocks[b][at] = (list(t.keys), [x for c in t.kids for x in c.ref])
    place(root)
    if root.ref != (length - 1, 0):
        raise ValueError("root not in the last block")
    # every other block still holds some root: the tree as it was then is of no interest here
    for b in blocks:
        if not blocks[b]:
            blocks[b] = [([b], [])]
    return root, blocks, length


def search(root, seqs, rel):
    """[(node, index)] down to the match or the leaf; rel(seq) = -1/0/1 order of the given key to that entry's"""
    path, n = [], root
    while True:
        i = next((i for i, k in enumerate(n.keys) if rel(k) <= 0), len(n.keys))
        path.append((n, i))
        if i < len(n.keys) and rel(n.keys[i]) == 0:
            return True, path
        if not n.kids:
            return False, path
        n = n.kids[i]


def rebuild(path, new):
    """the new root when the node under the last of the path is replaced"""
    for n, i in reversed(path):
        n = n.copy()
        n.kids[i] = new
        new = n
    return new


def put(root, rel, seq):
    """the tree after the put of an entry with number seq"""
    if root is None:
        return Node([seq])
    hit, path = search(root, None, rel)
    n, i = path.pop()
    n = n.copy()
    if hit:
        n.keys[i] = seq
        return rebuild(path, n)
    n.keys.insert(i, seq)
    while len(n.keys) > MAXK:
        m, c = len(n.keys) >> 1, len(n.kids) >> 1
        left, mid, right = Node(n.keys[:m], n.kids[:c]), n.keys[m], Node(n.keys[m + 1:], n.kids[c:])
        if not path:
            return Node([mid], [left, right])
        n, i = path.pop()
        n = n.copy()
        n.keys.insert(i, mid)
        n.kids[i:i + 1] = [left, right]
    return rebuild(path, n)


def delete(root, rel):
    """the tree after the delete of an entry that is there"""
    hit, path = search(root, None, rel)
    n, i = path[-1]
    path = [(x.copy(), j) for x, j in path]
    for k in range(len(path) - 1):
        path[k][0].kids[path[k][1]] = path[k + 1][0]
    n = path[-1][0]
    if n.kids:
        a, b = n.kids[i].rightmost(), n.kids[i + 1].leftmost()
        right = len(a.keys) < len(b.keys)
        j = i + 1 if right else i
        path[-1] = (n, j)
        c = n
        while c.kids:
            x = c.kids[path[-1][1]].copy()
            c.kids[path[-1][1]] = x
            path.append((x, 0 if right else len(x.kids) - 1))
            c = x
        n.keys[i] = c.keys.pop(0 if right else -1)
    else:
        n.keys.pop(i)
    while len(path) > 1:
        n = path.pop()[0]
        up, i = path[-1]
        if len(n.keys) >= MINK:
            break
        left = up.kids[i - 1] if i > 0 else None
        right = up.kids[i + 1] if i + 1 < len(up.kids) else None
        if left is not None and len(left.keys) > MINK:
            left = left.copy()
            up.kids[i - 1] = left
            n.keys.insert(0, up.keys[i - 1])
            up.keys[i - 1] = left.keys.pop()
            if left.kids:
                n.kids.insert(0, left.kids.pop())
        elif right is not None and len(right.keys) > MINK:
            right = right.copy()
            up.kids[i + 1] = right
            n.keys.append(up.keys[i])
            up.keys[i] = right.keys.pop(0)
            if right.kids:
                n.kids.append(right.kids.pop(0))
        elif left is not None:
            m = Node(left.keys + [up.keys.pop(i - 1)] + n.keys, left.kids + n.kids)
            up.kids[i - 1:i + 1] = [m]
        else:
            m = Node(n.keys + [up.keys.pop(i)] + right.keys, n.kids + right.kids)
            up.kids[i:i + 2] = [m]
        n = up
    top = path[0][0]
    if not top.keys and len(top.kids) == 1:
        return top.kids[0]
    return top


def levels(root, seq):
    """the block that holds the new nodes of a tree"""
    out = []

    def go(n):
        at = len(out)
        out.append(None)
        refs = []
        for c in n.kids:
            if c.ref is not None:
                refs += c.ref
            else:
                refs += [seq, go(c)]
        out[at] = (list(n.keys), refs)
        return at
    go(root)
    return out


def unfold(lv, seq, blocks, at=0, depth=0):
    """the tree that a block leads to, or None when a reference leads nowhere"""
    if not 0 <= at < len(lv) or depth > 9:
        return None
    ks, cs = lv[at]
    kids = []
    for i in range(0, len(cs) - 1, 2):
        s, o = cs[i], cs[i + 1]
        k = unfold(lv, seq, blocks, o, depth + 1) if s == seq else unfold(blocks.get(s, []), s, blocks, o, depth + 1)
        if k is None:
            return None
        kids.append(k)
    return Node(ks, kids)


def sound(n, root=True):
    """why the nodes break the limits of the tree, or None; and its height"""
    if len(n.keys) > MAXK:
        return "a node with %d keys" % len(n.keys), 0
    if not root and len(n.keys) < MINK:
        return "a node below the root with %d keys" % len(n.keys), 0
    if n.kids and len(n.kids) != len(n.keys) + 1:
        return "a node with %d keys and %d children" % (len(n.keys), len(n.kids)), 0
    hs = set()
    for c in n.kids:
        w, h = sound(c, False)
        if w:
            return w, 0
        hs.add(h)
    if len(hs) > 1:
        return "leaves at different depths", 0
    return None, 1 + max(hs or {0})


# ------------------------------------------------------------ what a path has established
def order(st, key, seqs, ty):
    """order of the given key to the stored ones (in key order): ("eq", i), ("gap", i), None = not settled, "no" = contradictory"""
    sign = []
    for s in seqs:
        t = byte_order(key, app("key", C(s), ty=ty))
        v = None
        for k, c in ((0, eq_int(t, ZERO)), (-1, ge0(sub(C(-1), t))), (1, ge0(sub(t, ONE)))):
            if holds(st, c) is True:
                v = k
        sign.append(v)
    lo = max([i for i, v in enumerate(sign) if v == 1], default=-1)
    hi = min([i for i, v in enumerate(sign) if v == -1], default=len(seqs))
    eq = [i for i, v in enumerate(sign) if v == 0]
    if lo >= hi or len(eq) > 1 or eq and not lo < eq[0] < hi:
        return "no"
    if eq:
        return "eq", eq[0]
    if hi == lo + 1:
        return "gap", hi
    return None


def relation(seqs, o):
    """rel(seq) for the functions above"""
    at = {s: i for i, s in enumerate(seqs)}
    if o[0] == "eq":
        return lambda s: (o[1] > at[s]) - (o[1] < at[s])
    return lambda s: 1 if at[s] < o[1] else -1


def opt_is(st, v, want):
    """is an Option the wanted one (None or a term)? None: cannot tell"""
    if v.op != "agg":
        return None
    if want is None:
        return v.a[1] == 0
    if v.a[1] == 0:
        return False
    return same(st, v.a[2][0], want)


def same(st, a, b):
    if a is b:
        return True
    if is_const(a) and is_const(b):
        return cval(a) == cval(b)
    if a.unk or b.unk:
        return None
    try:
        h = holds(st, eq_int(a, b)) if a.op in ("lin",) or b.op in ("lin",) or is_const(a) or is_const(b) else None
    except Exception:
        h = None
    if h is not None:
        return h
    known = lambda t: all(x.op != "app" or x.a[0] in ("key", "value", "at", "arg", "vf", "fld", "discr", "len", "elem") for x in subterms(t))
    return False if known(a) and known(b) else None


SHAPES = {
    "get": [0, 1, 2, 3, 5, 8, [4, 4], [5, 4, 6], [[4] * 5, [4] * 5]],
    "put": [0, 1, 3, 8, [4, 4], [8, 4], [4, 8], [4, 8, 4], [4] * 8 + [8], [8] + [4] * 8, [4, 4, 4, 8, 4, 4, 4, 4, 4], [[4] * 5, [4] * 5]],
    "del": [0, 1, 2, 8, [4, 4], [5, 4], [4, 5], [4, 4, 4], [5, 4, 5], [4, 5, 4], [5, 5, 5], [8, 4], [[4] * 5, [4] * 5], [[4] * 6, [4] * 5], [[4] * 5, [4] * 6],
            [[4, 5, 4, 4, 5], [5, 4, 4, 4, 4]]],
}


# ------------------------------------------------------------ a run of every operation
OPS = (("get", "get"), ("put", "put"), ("put_compare_and_swap", "put"), ("del", "del"), ("del_compare_and_swap", "del"))
WANTED = {  # what each property needs: operations
    "C01": ("put", "put_compare_and_swap", "del", "del_compare_and_swap"),
    "C03": ("put_compare_and_swap", "del_compare_and_swap"),
    "C07": ("get", "put", "put_compare_and_swap", "del", "del_compare_and_swap"),
    "C08": ("put", "del"), "C09": ("put", "del"), "C10": ("put", "del"), "C24": ("put", "del"), "C25": ("put", "del"),
    "C26": ("get", "put", "put_compare_and_swap", "del", "del_compare_and_swap"),
}
SMALL = {"C01", "C03"}  # for these only the number of entries matters


class Seen(Monitor):
    """what a path appends and shows to the predicate"""
    events = ("core_append", "fncall")

    def on_core_append(self, ip, st, core=None, data=None, call=None, **k):
        st.setmon("apps", tup(*(st.mon("apps").a[2] if st.mon("apps") else ()), data))

    def on_fncall(self, ip, st, f=None, args=(), call=None, result=None, **k):
        if not (f.op == "app" and f.a[0] == "arg"):
            return
        if len(args) == 1 and args[0].op == "agg" and args[0].a[0] == "tuple":
            args = args[0].a[2]
        one = tup(*[models.deep(ip, st, a) for a in args])
        st.setmon("asked", tup(*(st.mon("asked").a[2] if st.mon("asked") else ()), one))
        st.setmon("said", ip.as_bool(result))


def schema_fields(p, name):
    t = next(q for q in p.types if q["k"] == "adt" and (q["path"] == name or q["path"].endswith("::" + name)))
    return t["path"], [f[0] for f in t["variants"][0]["fields"]]


class Case:
    """one operation on one tree"""

    def __init__(self, p, R, prop, f, name, kind, shape):
        self.p, self.R, self.prop, self.name, self.kind, self.shape = p, R, prop, name, kind, shape
        self.where = f.span
        self.f = f
        self.key = "%s on the tree %s" % (f.path + ("" if not name.endswith("swap") or self.generic() else " (predicate of the library)"), shape)
        if shape is None:
            self.root, self.blocks, self.length = None, {}, 1
        elif shape == "nothing":
            self.root, self.blocks, self.length = None, {}, 0
        else:
            self.root, self.blocks, self.length = plant(shape)
        self.seqs = self.root.listing() if self.root else []
        self.given = app("at", app("arg", 1, ty=f.locals[2]), ty=p.pointee(f.locals[2]))
        self.val = app("arg", 2, ty=f.locals[3]) if kind == "put" else None
        self.reported = set()

    def expect(self, props, ok, what, why):
        if self.prop not in props and not os.environ.get("HB_ALL"):
            return
        key = "%s: %s" % (self.key, what)
        if ok is None or ok is False and not self.sure:
            self.lost.append(what)
        elif ok:
            self.good.add(what)
        else:
            self.R.expect(False, key, "%s (%s)" % (why, self.key), self.where)

    def run(self, seconds):
        self.lost, self.good = [], set()
        self.o = o = Run(self.p, self.R, self.f, Log(self.p, self.blocks, self.length), seconds, 60, 1200, more=[Seen], fncall=True)
        if o.why:
            self.R.open(self.key, o.why)
            return False
        paths = 0
        done = set()
        for st, k, pay in o.ends:
            if k == "err":
                continue
            rel = order(st, self.given, self.seqs, o.ip.vecu8)
            if rel == "no":
                continue
            if rel is None:
                # the path needs no more than that: any order that fits will do
                rels = fitting(st, self.given, self.seqs, o.ip.vecu8)
            else:
                rels = [rel]
            done |= set(rels)
            for r in rels:
                paths += 1
                self.path(st, models.deep(o.ip, st, pay), r)
        # every place of the key has a path that succeeds
        self.sure = all(sure(s) for s, k, pay in o.ends) and all(sure(s) for _, _, _, s in o.bad)
        for r in [("eq", i) for i in range(len(self.seqs))] + [("gap", i) for i in range(len(self.seqs) + 1)]:
            say = "the key of entry %d" % self.seqs[r[1]] if r[0] == "eq" else "a key before entry %d" % self.seqs[r[1]] if r[1] < len(self.seqs) else "a key after all"
            self.expect(("C26",), r in done, "it can succeed", "with %s no path succeeds (%s)" % (say, "; ".join(sorted({t for _, t, _, _ in o.bad}))[:150]))
        for w in sorted(self.good):
            self.R.expect(True, "%s: %s" % (self.key, w), "", self.where)
        for w in sorted(set(self.lost) - self.good):
            self.R.open("%s: %s" % (self.key, w), "not tracked")
        return True

    # -------------------------------------------------- one path
    def path(self, st, pay, rel):
        ip = self.o.ip
        self.sure = sure(st)
        apps = st.mon("apps").a[2] if st.mon("apps") else ()
        data = [d for d in apps if not is_header(d)]
        hit = rel[0] == "eq"
        at = self.seqs[rel[1]] if hit else None
        say = "the key of entry %s" % at if hit else "a key that is not there"
        if self.kind == "get":
            self.answer(ip, st, pay, at, say)
            return
        asked = st.mon("asked").a[2] if st.mon("asked") else ()
        yes = True
        own = self.name.endswith("swap") and asked
        if own:
            yes = holds(st, st.mon("said"))
        due = self.kind == "put" or hit
        if self.name.endswith("swap") and self.generic():
            self.expect(("C03",), len(asked) == (1 if due else 0), "asked once", "with %s the predicate is called %d times" % (say, len(asked)))
            if asked:
                self.shown(ip, st, asked[0].a[2], at, say)
        if due and yes is None:
            self.expect(("C01", "C03", "C07", "C08", "C09", "C10", "C24", "C25", "C26"), None, "the answer", "")
            return
        change = due and yes
        self.expect(("C01", "C26"), len(data) == (1 if change else 0), "blocks appended",
                    "with %s %d blocks are appended" % (say if yes else say + " and a refusal", len(data)))
        self.told(ip, st, pay, at, change, due, say)
        if change and len(data) == 1:
            self.block(ip, st, data[0], rel, at, say)

    def generic(self):
        """is the predicate the caller's (not a function of the library)?"""
        return self.p.ty(self.f.locals[self.f.nargs])["k"] not in ("fndef", "fnptr", "closure")

    def answer(self, ip, st, pay, at, say):
        if pay.op != "agg":
            self.expect(("C07", "C26"), None, "the answer", "")
            return
        self.expect(("C07", "C26"), (pay.a[1] == 1) is (at is not None), "found or not", "with %s the answer is %s" % (say, show(pay)[:60]))
        if pay.a[1] == 1 and at is not None:
            x = pay.a[2][0]
            self.expect(("C07", "C26"), same(st, fieldv(ip, x, 0), C(at)), "the number", "with %s the number is %s" % (say, show(fieldv(ip, x, 0))[:60]))
            v = fieldv(ip, x, 1)
            self.expect(("C07", "C26"), self.is_value(st, v, at), "the value", "with %s the value is %s" % (say, show(v)[:80]))

    def is_value(self, st, v, at):
        """is v the value stored with entry at?"""
        t = next((x for x in subterms(v) if x.op == "app" and x.a[0] == "value"), None)
        if v.op == "app" and v.a[0] == "value":
            return v.a[1][0] is C(at)
        if v.op == "agg" and v.a[0] == "adt:" + OPT_PATH:
            whole = app("value", C(at), ty=self.valty())
            h = holds(st, eq_int(app("discr", whole), C(v.a[1])))
            if h is not True:
                return h
            if v.a[1] == 1:
                if t is not None and v.a[2][0].op == "app" and v.a[2][0].a[0] in ("vf", "fld"):
                    return t.a[1][0] is C(at)
                return None
            return True
        return None

    def valty(self):
        t = next(q for q in self.p.types if q["k"] == "adt" and q["path"].endswith("messages::Node"))
        return next(x[1] for x in t["variants"][0]["fields"] if x[0] == "value")

    def shown(self, ip, st, args, at, say):
        path, fs = schema_fields(self.p, "KeyValueData")
        new = None
        if self.kind == "put":
            if len(args) != 2:
                return
            old, new = args
            if old.op != "agg":
                self.expect(("C03",), None, "entry shown", "")
                return
            if old.a[0] == "adt:" + OPT_PATH:
                self.expect(("C03",), (old.a[1] == 1) is (at is not None), "entry shown or none", "with %s the predicate is shown %s as the stored entry" % (say, show(old)[:80]))
                old = old.a[2][0] if old.a[1] == 1 else None
        else:
            old = args[0]
        if old is not None and at is not None:
            if old.op != "agg":
                self.expect(("C03",), None, "entry shown", "")
            else:
                d = dict(zip(fs, old.a[2]))
                t = "with %s the predicate is shown as stored entry %s" % (say, show(old)[:120])
                self.expect(("C03",), same(st, d["seq"], C(at)), "number of the entry shown", t)
                self.expect(("C03",), self.is_key(st, d["key"], at), "key of the entry shown", t)
                self.expect(("C03",), self.is_value(st, d["value"], at), "value of the entry shown", t)
        if new is not None and new.op == "agg":
            d = dict(zip(fs, new.a[2]))
            t = "with %s the predicate is shown as new entry %s" % (say, show(new)[:120])
            self.expect(("C03",), same(st, d["seq"], C(self.next())), "number of the new entry", t)
            self.expect(("C03",), self.is_given(st, d["key"]), "key of the new entry", t)
            self.expect(("C03",), self.is_written(ip, st, d["value"]), "value of the new entry", t)

    def next(self):
        return max(self.length, 1)

    def is_key(self, st, t, at):
        if t.op == "app" and t.a[0] == "key":
            return t.a[1][0] is C(at)
        # the given key is equal to it
        return True if t is self.given else None

    def is_given(self, st, t):
        if t is self.given:
            return True
        if t.op == "app" and t.a[0] == "key":
            return True if holds(st, eq_int(byte_order(self.given, t), ZERO)) is True else False
        return None if t.unk or t.op == "app" and t.a[0] not in ("sub", "slice") else False

    def is_written(self, ip, st, v):
        """is v the value the caller gave?"""
        if v is self.val:
            return True
        if v.op != "agg" or v.a[0] != "adt:" + OPT_PATH:
            return None
        h = holds(st, eq_int(app("discr", self.val), C(v.a[1])))
        if h is None:
            return None
        if h is False:
            return False
        if v.a[1] == 0:
            return True
        x = v.a[2][0]
        given = variant_field(ip, st, self.val)
        return True if x is given or x is ip.at(st, given) else None if x.unk else self.other(x)

    def other(self, x):
        return False if all(y.op != "app" or y.a[0] in ("key", "value", "at", "arg", "vf", "fld", "len", "slice", "sub") for y in subterms(x)) else None

    def told(self, ip, st, pay, at, change, due, say):
        """the result"""
        new, n = C(self.next()), self.name
        props = ("C07", "C26")
        t = "with %s the result is %s" % (say, show(pay)[:80])
        if n in ("put", "put_compare_and_swap"):
            self.expect(props, opt_is(st, fieldv(ip, pay, 0), C(at) if at is not None else None), "the number of the entry replaced", t)
            b = fieldv(ip, pay, 1)
            if n == "put":
                self.expect(props, same(st, b, new), "the number of the entry", t)
            else:
                self.expect(props + ("C03", "C01"), opt_is(st, b, new if change else None), "the number of the entry", t)
        elif n == "del":
            self.expect(props + ("C01",), opt_is(st, pay, C(at) if at is not None else None), "the number of the entry removed", t)
        else:
            if pay.op != "agg":
                self.expect(props, None, "the result", t)
                return
            self.expect(props + ("C03",), (pay.a[1] == 1) is due, "a result or none", t)
            if pay.a[1] == 1 and due:
                x = pay.a[2][0]
                f = ip.as_bool(fieldv(ip, x, 0))
                h = holds(st, f)
                self.expect(("C01", "C03", "C07", "C26"), None if h is None else h is bool(change), "changed or not", t)
                self.expect(props, same(st, fieldv(ip, x, 1), C(at)), "the number of the entry removed", t)

    def block(self, ip, st, data, rel, at, say):
        """what is appended"""
        ms = [x for x in subterms(data) if x.op == "app" and x.a[0] == "enc" and str(x.a[1][0].a[0]).endswith("::Node")]
        ix = [x for x in subterms(data) if x.op == "app" and x.a[0] == "enc" and "YoloIndex" in str(x.a[1][0].a[0])]
        if len(ms) != 1 or len(ix) != 1 or ms[0].a[1][1].op != "agg":
            self.expect(("C07", "C08", "C09", "C10", "C24", "C25", "C26"), None, "the block", "")
            return
        _, fs = schema_fields(self.p, "messages::Node")
        d = dict(zip(fs, ms[0].a[1][1].a[2]))
        t = "with %s the block holds %s" % (say, show(ms[0].a[1][1])[-120:])
        self.expect(("C07", "C26"), self.is_given(st, d["key"]), "key of the block", t)
        if self.kind == "put":
            self.expect(("C07", "C26"), self.is_written(ip, st, d["value"]), "value of the block", t)
        try:
            from .restructure import Unknown
            got = levels_of(ix[0].a[1][1], {x: schema_fields(self.p, x)[1] for x in ("YoloIndex", "Level")})
        except Unknown as e:
            self.expect(("C08", "C09", "C10", "C24", "C25", "C26"), None, "the nodes of the block", "")
            return
        seq = self.next()
        r = relation(self.seqs, rel)
        if self.kind == "put":
            want = put(self.root, r, seq)
        else:
            want = delete(self.root, r)
        wl = levels(want, seq)
        t = "with %s the block holds the nodes %s" % (say, ["%s>%s" % (a, b) for a, b in got])
        tree = unfold(got, seq, self.blocks)
        listing = tree.listing() if tree else None
        self.expect(("C08", "C26"), tree is not None, "every reference leads to a node", t)
        if tree is None:
            return
        # the node of every new block number is part of it, and nothing else is
        self.expect(("C10", "C26"), listing == want.listing(), "the entries in order", t + ", in order %s instead of %s" % (listing, want.listing()))
        self.expect(("C08",), sorted(listing) == sorted(want.listing()), "the entries", t + ", entries %s instead of %s" % (sorted(listing), sorted(want.listing())))
        w = sound(tree)[0]
        self.expect(("C09",), not w, "limits of the nodes", "%s, %s" % (t, w))
        self.expect(("C08",), not w or not w.startswith("leaves"), "depth of the leaves", "%s, %s" % (t, w))
        fresh = self.fresh(got, seq)
        self.expect(("C08",), fresh is None, "every node of the block is linked once", "%s, node %s is not" % (t, fresh))
        if not w and listing == want.listing():
            self.expect(("C25",), profile(tree) == profile(want), "the shape of the tree", "%s, a tree of shape %s instead of %s" % (t, profile(tree), profile(want)))
            if profile(tree) == profile(want):
                self.expect(("C24",), [(list(a), list(b)) for a, b in got] == wl or fresh is not None and None, "root first, depth first", "%s instead of %s" % (t, wl))

    def fresh(self, got, seq):
        """the first node of the block that is not linked exactly once from the nodes of the block (the root: never)"""
        n = [0] * len(got)
        for ks, cs in got:
            for i in range(0, len(cs) - 1, 2):
                if cs[i] == seq and cs[i + 1] < len(n):
                    n[cs[i + 1]] += 1
        for i, k in enumerate(n):
            if k != (0 if i == 0 else 1):
                return i
        return None


KNOWN = {"bcmp", "key", "value", "at", "arg", "lowest", "highest", "vf", "fld", "discr", "res"}


def sure(st):
    """is the path taken on conditions that are all understood (orders of keys, presence of values, the predicate, failures)?
    Otherwise it may be one that cannot happen."""
    for f in st.facts:
        for x in subterms(f):
            if x.unk or x.op == "app" and x.a[0] not in KNOWN:
                if os.environ.get("HB_F"):
                    print("UNSURE", show(x)[:100], show(f)[:200])
                return False
    return True


def variant_field(ip, st, v):
    for s, k, fs in variants(ip, st, v):
        if k == 1:
            return fs[0]


def profile(n):
    return [profile(c) for c in n.kids] if n.kids else len(n.keys)


def fitting(st, key, seqs, ty):
    """the places of the key among the stored ones that are consistent with what the path knows"""
    may = []
    for s in seqs:
        t = byte_order(key, app("key", C(s), ty=ty))
        ok = {-1, 0, 1}
        for k, c in ((0, eq_int(t, ZERO)), (-1, ge0(sub(C(-1), t))), (1, ge0(sub(t, ONE)))):
            h = holds(st, c)
            if h is True:
                ok &= {k}
            elif h is False:
                ok.discard(k)
        may.append(ok)
    n = len(seqs)
    up = [0]
    for i in range(n):
        up.append(up[-1] + (1 not in may[i]))
    down = [0] * (n + 1)
    for i in range(n - 1, -1, -1):
        down[i] = down[i + 1] + (-1 not in may[i])
    out = [("eq", i) for i in range(n) if 0 in may[i] and not up[i] and not down[i + 1]]
    return out + [("gap", i) for i in range(n + 1) if not up[i] and not down[i]]


RULE = ("Also: the operations, interpreted as a whole with the key, the stored keys and values symbolic, on logs that hold a tree "
        "of each of a list of shapes (none, a lone header, leaves, two and three levels, full and minimal nodes); every path is compared "
        "with what the operation is to do for the order of the given key to the stored ones that the path has established: "
        "the answer, what the predicate is shown, the blocks appended and the nodes in them.")
OPT_PATH = "std::option::Option"


def weight(s):
    return (s if isinstance(s, int) else 1) if not isinstance(s, list) else sum(weight(x) for x in s) + 2 if isinstance(s[0], list) else sum(s) + 2


def deeper(kind):
    """further shapes: leaves of all critical sizes next to each other, full and minimal inner nodes"""
    import itertools
    sizes = {"get": (4, 8), "put": (4, 7, 8), "del": (4, 5, 8)}[kind]
    out = [[a, b] for a in sizes for b in sizes]
    out += [list(x) for x in itertools.product(sizes[:2], repeat=3)]
    out += [[[4] * 5, [4] * 5, [4] * 5], [[4] * 9, [4] * 5], [[5] + [4] * 4, [4] * 6]]
    if kind == "put":
        out += [[[8] + [4] * 8, [4] * 5], [[4] * 5, [4] * 8 + [8]], [[8] * 5, [8] * 5]]
    return out


def decide(p, R, prop, seconds=40):
    """obligations of one property on the trees of the list"""
    R.rule = " ".join((R.rule or "").split()) + " " + RULE
    jobs = []
    for name, kind in OPS:
        if name not in WANTED[prop]:
            continue
        shapes = list(SHAPES[kind])
        if R.tier == "thorough":
            shapes += [s for s in deeper(kind) if s not in shapes]
        if prop in SMALL or name.endswith("swap"):
            shapes = [s for s in shapes if weight(s) < 20]
        for f in methods(p, "tree::Tree", name):
            jobs += [(f, name, kind, s) for s in [None, "nothing"] + shapes]
    jobs.sort(key=lambda j: -weight(j[3]))
    spread(R, jobs, lambda Q, j: Case(p, Q, prop, *j).run(seconds), seconds)


def spread(R, jobs, work, seconds):
    """the jobs on all cores; their reports are merged in the order of the jobs"""
    import pickle
    import time
    n = max(1, min(8, len(os.sched_getaffinity(0)), len(jobs)))
    end = time.time() + seconds * (4 if R.tier == "thorough" else 1)
    kids = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                out = []
                for i in range(w, len(jobs), n):
                    if time.time() > end:
                        break
                    Q = Report(R.pid, R.tier)
                    try:
                        work(Q, jobs[i])
                    except Exception as e:
                        Q.open(str(jobs[i])[:120], "%s: %s" % (type(e).__name__, e))
                    out.append((i, {k: getattr(Q, k) for k in ("obl", "viol", "undec", "fns", "quiet", "roots", "steps", "paths")}))
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(out, fh)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    got = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            raw = fh.read()
        os.waitpid(pid, 0)
        if raw:
            got += pickle.loads(raw)
    for i, d in sorted(got, key=lambda x: x[0]):
        for k in ("obl", "viol", "undec"):
            for a, b in d[k].items():
                getattr(R, k).setdefault(a, b)
        R.fns |= d["fns"]
        R.quiet |= d["quiet"]
        R.roots += d["roots"]
        R.steps += d["steps"]
        R.paths += d["paths"]
    if len(got) < len(jobs):
        R.assume.append("%d of %d cases were run within the time given" % (len(got), len(jobs)))
    return len(got)
