"""Abstract interpreter over MIR: trace-partitioned states of symbolic values and linear facts.

Values are interned terms (value numbers), memory maps objects to values, facts are linear inequalities
and enum tags.  States are merged when memory agrees; loops are generalised to an inductive state."""
import heapq
import time
from .term import *
from . import term, facts
from .facts import holds, assume, entails
from .prog import *


class Undecided(Exception):
    pass


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """this path cannot continue"""


def loc(d, n):
    return mk("loc", d, n)


MON = {}


def monobj(name):
    return mk("mon", name)


class State:
    __slots__ = ("mem", "facts", "_lins", "locks", "fams", "quant")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self._lins = {}
        self.locks = ()
        self.fams = ()      # (q, lo, hi, obj template, content template)
        self.quant = ()     # (q, lo, hi, fact templates)

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s._lins = dict(self._lins)
        s.locks, s.fams, s.quant = self.locks, self.fams, self.quant
        return s

    def lins(self):
        return self._lins

    def set_fact(self, t, v):
        if self.facts.get(t) is v:
            return
        self.facts[t] = v
        if v:
            if t.op == "ge0":
                self._index(t.a[0])
            elif t.op == "eqz":
                self._index(t.a[0])
                self._index(scale(t.a[0], -1))

    def _index(self, l):
        for a, _ in lin_parts(l)[1]:
            self._lins[a] = self._lins.get(a, ()) + (l,)

    def set_facts(self, fs):
        self.facts = {}
        self._lins = {}
        for t, v in fs.items():
            self.set_fact(t, v)

    def mon(self, name, default=None):
        return self.mem.get(monobj(name), default)

    def setmon(self, name, v):
        self.mem[monobj(name)] = v


EPOCH = monobj("epoch")
ENUMLIKE = ("adt:std::option::Option", "adt:std::result::Result")


def ok_(v):
    return agg("adt:std::result::Result", 0, (v,))


def err_(v):
    return agg("adt:std::result::Result", 1, (v,))


class Frame:
    __slots__ = ("body", "ctx", "depth", "locs", "names")

    def __init__(self, body, ctx, depth):
        self.body, self.ctx, self.depth = body, ctx, depth

    def with_ctx(self, ctx):
        return Frame(self.body, ctx, self.depth)


class Call:
    __slots__ = ("ip", "fr", "bb", "callee", "args", "dty", "span", "ctx", "path", "name", "argtys")

    def fresh(self, what="r", ty=-1, *extra):
        return app("new", what, self.ctx, *extra, ty=self.dty if ty == -1 else ty)

    def newobj(self, k=0):
        return mk("obj", self.ctx, k)


TRANSPARENT = {"std::pin::Pin", "std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::pin::unsafe_pinned::UnsafePinned",
               "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeDangling"}

CAP = 6
DEPTH = 100
EXTERN_TRAITS = ("std::future::", "prost::", "std::fmt::", "futures_lite::", "hypercore::", "futures_core::", "tokio_stream::", "core::fmt::")


class Interp:
    def __init__(self, prog, monitors=(), budget=200000, deadline=None):
        self.p = prog
        self.monitors = list(monitors)
        self.steps = 0
        self.budget = budget
        self.deadline = deadline
        self.objty = {}
        self.stack = []
        self.unmodelled = {}
        self.imprecise = {}
        self.templates = {}
        self.visited = set()
        self.handlers = {}
        self.last_err = None
        for m in self.monitors:
            for n in m.events:
                self.handlers.setdefault(n, []).append(m)
        term.ELEM_TY[0] = prog.elem_ty
        term.FIELD_TY[0] = self.field_ty
        term.DISCR[0] = self.agg_discr
        from . import models
        self.m = models
        self.stubs = {}           # index of a body -> what stands in for it: f(ip, c, st, body, args) -> [(state, value)]
        self.hooks = {}           # name of the called function -> what stands in for it
        self.cap = CAP            # states kept apart at one place
        self.errcap = 1           # the same for returned errors
        self.relevant = None      # bodies to enter; None: all
        self.leaf = ()            # bodies never to enter
        self.world = None         # a log of known content: fetch(ip, st, index), decode(ip, st, bytes, message type), length, cached
        self.unroll = 0           # follow this many iterations of each loop instead of generalising
        self.cut = []             # loops with iterations left then
        self.pure = ()            # summarised bodies that change nothing the rule looks at
        self.blob = False         # keep the concatenation of slices as one opaque sequence
        self.graph = None
        self.quiet = set()
        self.tryfrom_fails = False
        self.encode_fails = True
        self.itv_src = {}
        self.leaf_types = {}
        ids = {}
        for i, t in enumerate(prog.types):
            ids.setdefault(t["s"], i)
        self.usize, self.u64, self.boolty = ids.get("usize"), ids.get("u64"), ids.get("bool")
        self.vecu8, self.ordering = ids.get("std::vec::Vec<u8>"), ids.get("std::cmp::Ordering")
        self.tyid = ids

    # ------------------------------------------------------------ types
    def field_ty(self, ty, variant, i):
        if ty is None:
            return None
        t = self.p.types[ty]
        if t["k"] == "adt" and t["path"] in ("tokio::sync::RwLock", "std::sync::RwLock", "tokio::sync::Mutex") and i == 0:
            return t["args"][0]
        return self.p.field_ty(ty, variant, i)

    def agg_discr(self, a):
        k, v, f = a.a
        if not k.startswith("adt:"):
            return None
        d = self.p.discrs.get(k[4:])
        if d is None or v >= len(d):
            return C(v)
        return C(d[v])

    # ------------------------------------------------------------ events
    def event(self, st, name, /, **d):
        for m in self.handlers.get(name, ()):
            m.on(self, st, name, d)

    def where(self, span=None):
        """call path, innermost last"""
        return [(b.short, s) for b, s in self.stack] + ([(None, span)] if span else [])

    # ------------------------------------------------------------ memory
    def load_obj(self, st, o):
        v = st.mem.get(o)
        if v is not None:
            return v
        if o.op == "der":
            if st.fams:
                v = self.family(st, o)
                if v is not None:
                    return v
            ty = self.objty.get(o)
            if ty is None and o.a[0].op == "app":
                ty = self.p.pointee(o.a[0].a[2])
            e = st.mem.get(EPOCH)
            if e is not None and not (ty is not None and o.a[0].op == "app" and o.a[0].a[2] is not None
                                      and self.p.freeze(ty) and not self.p.ty(o.a[0].a[2]).get("mut")):
                return app("at", o.a[0], e, ty=ty)
            return app("at", o.a[0], ty=ty)
        if o.op == "cst":
            return o.a[0]
        if o.op == "obj":
            v = self.family(st, o)
            if v is not None:
                return v
            return mk("app", "unk", (mk("objv", o),), None)
        return UNINIT

    def family(self, st, o):
        for q, lo, hi, ot, ct in reversed(st.fams):
            m = match(ot, o, q)
            if m is None:
                continue
            r1, r2 = holds(st, le(lo, m)), holds(st, lt(m, hi))
            if r1 is False or r2 is False:
                continue
            if r1 and r2:
                return subst(ct, {q: m})
            return mk("app", "unk", (mk("objv", o),), None)
        return None

    def get(self, st, v, proj):
        for e in proj:
            if e[0] == "f":
                v = self.field(v, e[1], e[2])
            elif e[0] == "i":
                v = self.seq_at(st, v, e[1])
            elif e[0] == "sl":
                v = self.slice(st, v, e[1], e[2])
        return v

    def field(self, v, i, k):
        op = v.op
        if op == "agg":
            f = v.a[2]
            if v.a[1] != (k or 0) and v.a[0].startswith("adt:"):
                return UNINIT
            return f[i] if i < len(f) else UNINIT
        if op == "app":
            return fld(v, i) if k is None else vf(v, k, i)
        if op == "ptr":
            return v
        if op == "uninit":
            return v
        return mk("app", "unk", (mk("proj", v, i),), None)

    def set(self, st, v, proj, x, ty=None):
        if not proj:
            return x
        e = proj[0]
        if e[0] == "f":
            i, k = e[1], e[2]
            if v.op == "agg" and v.a[1] == (k or 0):
                fs = list(v.a[2])
                while len(fs) <= i:
                    fs.append(UNINIT)
                fs[i] = self.set(st, fs[i], proj[1:], x)
                return agg(v.a[0], v.a[1], fs)
            if v.op == "app":
                t = self.p.ty(v.a[2])
                if t["k"] == "adt" and t.get("variants"):
                    n = len(t["variants"][k or 0]["fields"])
                    fs = [fld(v, j) if k is None else vf(v, k, j) for j in range(n)]
                    fs[i] = self.set(st, fs[i], proj[1:], x)
                    return agg("adt:" + t["path"], k or 0, fs)
                if t["k"] == "tuple":
                    fs = [fld(v, j) for j in range(len(t["elems"]))]
                    fs[i] = self.set(st, fs[i], proj[1:], x)
                    return agg("tuple", 0, fs)
                if t["k"] == "adt" and "RwLock" in t["path"] and i == 0:
                    return agg("adt:" + t["path"], 0, [self.set(st, fld(v, 0), proj[1:], x)])
                self.note_imprecise("write into opaque value of type " + t["s"])
                return mk("app", "unk", (mk("upd", v, i, x),), v.a[2])
            if v.op == "ptr":
                return self.set(st, v, proj[1:], x)
            if v.op == "uninit":
                fs = [UNINIT] * (i + 1)
                fs[i] = self.set(st, UNINIT, proj[1:], x)
                return mk("agg", "tuple", k or 0, tuple(fs))
            return v
        if e[0] == "i":
            s, i, rest = self.seq_split(st, v, e[1])
            cur = self.seq_first(st, rest)
            new = self.set(st, cur, proj[1:], x)
            _, _, tail = self.seq_split(st, rest, ONE)
            return concat(s, mkseq([elem_e(new)]), tail)
        if e[0] == "sl":
            a, _, r = self.seq_split(st, v, e[1])
            b, _, c = self.seq_split(st, r, sub(e[2], e[1]))
            return concat(a, self.set(st, b, proj[1:], x), c)
        return v

    def store_quiet(self, st, o, proj, x):
        if o.op == "cst":
            return
        st.mem[o] = self.set(st, self.load_obj(st, o), proj, x) if proj else x

    def rename_obj(self, st, ptr, name):
        """the object is known by the opaque pointer from now on"""
        m = {ptr: name}
        st.mem.pop(ptr.a[0], None)

        def f(x):
            if x is ptr:
                return name
            if x.op == "ptr" and x.a[0] is ptr.a[0]:
                return mk("ptr", mk("der", name), x.a[1])
            return None
        if ptr.a[0] in self.objty or True:
            self.objty.setdefault(mk("der", name), self.p.pointee(name.a[2]))
        for o, v in list(st.mem.items()):
            if ptr.a[0] in objs_of(v):
                st.mem[o] = map_terms(v, f)
        st.locks = tuple(tuple(map_terms(y, f) if isinstance(y, T) else y for y in l) for l in st.locks)

    def ty_s(self, ty):
        return mk("const", self.p.tys(ty))

    def seq_ty_of(self, *vs):
        for v in vs:
            if v.op == "app":
                return v.a[2]
        return None

    def save_monitors(self):
        return [m.save() for m in self.monitors]

    def restore_monitors(self, s):
        for m, x in zip(self.monitors, s):
            m.restore(x)

    def load(self, st, o, proj):
        return self.get(st, self.load_obj(st, o), proj)

    def store(self, st, o, proj, x):
        if o.op == "cst":
            return
        if not proj:
            st.mem[o] = x
            if o.op != "loc":
                self.event(st, "store", obj=o, proj=proj, val=x)
            return
        old = self.load_obj(st, o)
        nv = self.set(st, old, proj, x)
        st.mem[o] = nv
        if o.op != "loc":
            self.event(st, "store", obj=o, proj=proj, val=x)

    def deref(self, v, ty=None):
        """object and projection a pointer value leads to"""
        if v.op == "ptr":
            return v.a[0], v.a[1]
        if v.op == "uninit":
            raise Dead()
        if v.op == "agg" and len(v.a[2]) == 1:
            return self.deref(v.a[2][0], ty)
        if v.op == "agg" or v.op == "seq":
            return mk("cst", v), ()
        o = mk("der", v)
        if o not in self.objty:
            t = ty
            if t is None and v.op == "app":
                t = self.p.pointee(v.a[2])
            self.objty[o] = t
        return o, ()

    def at(self, st, v, ty=None):
        """value behind a pointer"""
        o, pr = self.deref(v, ty)
        return self.load(st, o, pr)

    def put_at(self, st, v, x, ty=None):
        o, pr = self.deref(v, ty)
        self.store(st, o, pr, x)

    # ------------------------------------------------------------ sequences under facts
    def decide(self, st, c):
        h = holds(st, c)
        if h is None:
            raise NeedFork(c)
        return h

    def seq_at(self, st, v, i):
        if v.op == "ptr":
            v = self.at(st, v)
        if v.op == "app":
            r = elem(v, i)
            self.touch(st, r)
            return r
        if v.op != "seq":
            return mk("app", "unk", (mk("elemof", v, i),), None)
        off = ZERO
        for p in v.a:
            d = sub(i, off)
            n = part_len(p)
            inside = holds(st, lt(d, n))
            if inside is True:
                if p.op == "e":
                    if holds(st, ge0(d)) is True:
                        return p.a[0]
                elif holds(st, ge0(d)) is True:
                    r = part_at(p, add(p.a[1], d))
                    self.touch(st, r)
                    return r
                break
            if inside is None:
                break
            off = add(off, n)
        r = app("elem", v, i, ty=None)
        return r

    def touch(self, st, r):
        """an element of a sequence is used: what is known of every element holds of it"""
        if not st.quant:
            return
        subs = None
        for e in st.quant:
            trig = triggers(e)
            if not trig:
                continue
            if subs is None:
                subs = [x for x in subterms(r) if x.op in ("app", "ctxit")]
            q, lo, hi, fs = e
            done = set()
            for tp in trig:
                for x in subs:
                    m = match(tp, x, q)
                    if m is None or m in done or q in m.syms:
                        continue
                    done.add(m)
                    if holds(st, le(lo, m)) and holds(st, lt(m, hi)):
                        for f, v in fs:
                            self.assume_quiet(st, subst(f, {q: m}), v)

    def assume_quiet(self, st, f, v):
        g = f if v else neg(f)
        if holds(st, g) is None:
            assume(st, g)

    def seq_split(self, st, v, i):
        """(before i, i, from i on); forks when the position is not determined"""
        v = as_seq(v)
        if i is ZERO:
            return EMPTY_SEQ, i, v
        pre, off = [], ZERO
        parts = v.a
        for k, p in enumerate(parts):
            d = sub(i, off)
            if d is ZERO:
                return mkseq(pre), i, mkseq(parts[k:])
            n = part_len(p)
            if p.op == "e":
                if not self.decide(st, lt(ZERO, d)):
                    return mkseq(pre), i, mkseq(parts[k:])
                pre.append(p)
            else:
                if sub(d, n) is ZERO or self.decide(st, le(n, d)):
                    pre.append(p)
                else:
                    lvl, lo, hi, tm = p.a
                    if holds(st, eq_int(d, ZERO)) is True:
                        return mkseq(pre), i, mkseq(parts[k:])
                    m = add(lo, d)
                    return (mkseq(pre + [mk("c", lvl, lo, m, tm)]), i,
                            mkseq([mk("c", lvl, m, hi, tm)] + list(parts[k + 1:])))
            off = add(off, n)
        return mkseq(pre), i, EMPTY_SEQ

    def seq_first(self, st, v):
        v = as_seq(v)
        while v.a:
            p = v.a[0]
            if p.op == "e":
                return p.a[0]
            if self.decide(st, lt(p.a[1], p.a[2])):
                r = part_at(p, p.a[1])
                self.touch(st, r)
                return r
            v = mk("seq", *v.a[1:])
        return UNINIT

    def slice(self, st, v, lo, hi):
        if v.op == "app" and lo is ZERO and hi is app("len", v):
            return v
        _, _, r = self.seq_split(st, v, lo)
        if hi is seq_len(v):
            return r
        m, _, _ = self.seq_split(st, r, sub(hi, lo))
        return m

    def nonempty(self, st, v):
        """is the sequence non-empty (forks)"""
        v = as_seq(v)
        for p in v.a:
            if p.op == "e":
                return True
        n = seq_len(v)
        return self.decide(st, lt(ZERO, n))

    # ------------------------------------------------------------ places and operands
    def place(self, fr, st, pl):
        """(object, projection, type)"""
        o, proj = loc(fr.depth, pl[0]), ()
        ty = fr.body.locals[pl[0]]
        var = None
        types = self.p.types
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.load(st, o, proj)
                to = self.p.pointee(ty) if ty is not None else None
                o, proj = self.deref(v, to)
                ty = to
                var = None
            elif k == "f":
                t = types[ty] if ty is not None else None
                if t is not None and t["k"] == "adt" and (t["path"] in TRANSPARENT or t["path"] == "std::boxed::Box"):
                    ty = e[2]
                    continue
                if t is not None and t["k"] in ("ref", "ptr"):
                    ty = e[2]
                    continue
                proj = proj + (("f", e[1], var),)
                ty = e[2]
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                proj = proj + (("i", self.load(st, loc(fr.depth, e[1]), ())),)
                ty = self.p.elem_ty(ty)
            elif k == "c":
                if e[2]:
                    n = seq_len(self.load(st, o, proj))
                    i = sub(n, C(e[1]))
                else:
                    i = C(e[1])
                proj = proj + (("i", i),)
                ty = self.p.elem_ty(ty)
            elif k == "s":
                hi = C(e[2]) if not e[3] else sub(seq_len(self.load(st, o, proj)), C(e[2]))
                proj = proj + (("sl", C(e[1]), hi),)
            else:
                raise Undecided("projection %r" % (e,))
        return o, proj, ty

    def operand(self, fr, st, o):
        k = o["k"]
        if k == "const":
            return self.const(fr, st, o)
        ob, pr, ty = self.place(fr, st, o["p"])
        v = self.load(st, ob, pr)
        if v.op == "app" and v.a[2] is None and v.a[0] in ("at", "fld", "vf", "elem", "new", "unk") and ty is not None:
            nv = mk("app", v.a[0], v.a[1], ty)
            v = nv
        if k == "move" and ob.op == "loc":
            if not pr:
                st.mem.pop(ob, None)
            elif ob in st.mem and all(e[0] == "f" for e in pr) and st.mem[ob].op in ("agg",):
                st.mem[ob] = self.set(st, st.mem[ob], pr, UNINIT)
        return v

    def const(self, fr, st, o):
        if "fn" in o:
            return mk("agg", "fn", self.p.callee_id(o["fn"]), ())
        if "promoted" in o:
            b = self.p.promoted(fr.body.idx, o["promoted"]) if fr.body.kind != "promoted" else None
            if b is None:
                return app("unkconst")
            return self.eval_promoted(b, fr)
        return self.cval(o.get("val"), o.get("ty"), o)

    def eval_promoted(self, b, fr):
        key = ("prom", b.idx, id(b))
        r = MON.get(key)
        if r is None:
            st = State()
            f = Frame(b, mk("ctx", "promoted", b.idx, b.names and 0 or 0, id(b)), 900)
            rets = []
            work = [(0, st)]
            while work:
                bb, s = work.pop()
                for kind, tgt, s2 in self.exec_block(f, bb, s):
                    if kind == "ret":
                        rets.append(s2)
                    else:
                        work.append((tgt, s2))
            v = rets[0].mem[loc(900, 0)]
            # a promoted value is a reference to a constant: freeze it
            r = self.freeze(rets[0], v)
            MON[key] = r
        return r

    def freeze(self, st, v):
        if v.op == "ptr" and v.a[0].op != "cst":
            x = self.freeze(st, self.load(st, v.a[0], v.a[1]))
            return mk("ptr", mk("cst", x), ())
        if v.op == "agg":
            return agg(v.a[0], v.a[1], [self.freeze(st, y) for y in v.a[2]])
        if v.op == "seq":
            return mkseq([elem_e(self.freeze(st, q.a[0])) if q.op == "e" else q for q in v.a])
        return v

    def cval(self, val, ty, o=None):
        if val is None:
            return app("constv", (o or {}).get("name") or "?", ty=ty)
        if isinstance(val, str):
            if val == "zst":
                t = self.p.ty(ty)
                if t["k"] == "adt":
                    return agg("adt:" + t["path"], 0, ())
                if t["k"] == "closure":
                    return mk("agg", "closure", t.get("inst", 0), ())
                if t["k"] == "array":
                    return EMPTY_SEQ
                return UNIT
            return app("constv", val, ty=ty)
        if "int" in val:
            n = val["int"]
            return B(n) if self.p.ty(ty)["k"] == "bool" else C(n)
        if "bool" in val:
            return B(val["bool"])
        if "str" in val:
            return mkseq([elem_e(C(b)) for b in val["str"].encode()]) if len(val["str"]) < 200 else app("str", val["str"])
        if "bytes" in val:
            return mkseq([elem_e(C(b)) for b in val["bytes"]])
        if "ref" in val:
            return mk("ptr", mk("cst", self.cval(val["ref"], self.p.pointee(ty))), ())
        if "static" in val:
            s = self.p.statics.get(val["static"])
            if s is not None and s.get("val") is not None:
                return mk("ptr", mk("cst", self.cval(s["val"], s["ty"])), ())
            return app("static", val["static"], ty=ty)
        if "zst" in val:
            return self.cval("zst", ty)
        if "adt" in val or "fields" in val:
            t = self.p.ty(ty)
            fs = val.get("fields", [])
            v = val.get("variant", 0)
            return agg("adt:" + t.get("path", "?") if t["k"] == "adt" else "tuple", v,
                       [self.cval(x, self.p.field_ty(ty, v, i)) for i, x in enumerate(fs)])
        return app("constv", repr(val), ty=ty)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dty):
        k = r["k"]
        if k == "use":
            return self.operand(fr, st, r["o"])
        if k == "ref":
            o, pr, ty = self.place(fr, st, r["p"])
            # a reborrow of an opaque pointer is that pointer
            if o.op == "der" and not pr and o not in st.mem:
                v = o.a[0]
                if v.op == "app":
                    return v
            return mk("ptr", o, pr)
        if k == "cast":
            v = self.operand(fr, st, r["o"])
            if r["kind"].startswith("IntToInt"):
                if v.op in ("b", "ge0", "eqz", "eq", "not", "and", "or"):
                    return ONE if v is TRUE else ZERO if v is FALSE else app("b2i", v, ty=dty)
                return self.narrow(st, v, dty)
            return v
        if k == "bin":
            a, b = self.operand(fr, st, r["a"]), self.operand(fr, st, r["b"])
            return self.binop(st, r["op"], a, b, dty)
        if k == "un":
            a = self.operand(fr, st, r["o"] if "o" in r else r["a"])
            op = r["op"]
            if op == "Not":
                if self.p.ty(dty)["k"] == "bool":
                    return neg(self.as_bool(a))
                return app("bitnot", a, ty=dty)
            if op == "Neg":
                return scale(a, -1)
            if op == "PtrMetadata":
                return seq_len(self.at(st, a))
            return app("un:" + op, a, ty=dty)
        if k == "discr":
            o, pr, ty = self.place(fr, st, r["p"])
            v = self.load(st, o, pr)
            return self.discr(v)
        if k == "agg":
            kd = r["kind"]
            ops = [self.operand(fr, st, x) for x in r["ops"]]
            if kd["k"] == "array":
                return mkseq([elem_e(x) for x in ops])
            if kd["k"] == "tuple":
                return tup(*ops)
            if kd["k"] == "adt":
                t = self.p.ty(kd["ty"])
                if t["path"] in TRANSPARENT and len(ops) == 1:
                    return ops[0]
                return agg("adt:" + t["path"], kd.get("variant", 0) or 0, ops)
            if kd["k"] in ("closure", "coroutine"):
                return mk("agg", kd["k"], kd["inst"], tuple(ops))
            if len(ops):
                return ops[0]
            return UNIT
        if k == "repeat":
            v = self.operand(fr, st, r["o"])
            n = r.get("n")
            if isinstance(n, int) and n <= 4:
                return mkseq([elem_e(v)] * n)
            return mkseq([seg(ZERO, C(n) if isinstance(n, int) else app("unk", "replen"), lambda i: v)])
        if k == "len":
            o, pr, ty = self.place(fr, st, r["p"])
            return seq_len(self.load(st, o, pr))
        return app("unk", "rvalue", fr.ctx, ty=dty)

    def discr(self, v):
        if v.op == "agg":
            d = self.agg_discr(v)
            return d if d is not None else C(v.a[1])
        if v.op == "app" and v.a[0] == "ofint":
            return v.a[1][0]
        return app("discr", v)

    def as_bool(self, v):
        if v.op in ("b", "ge0", "eqz", "eq", "not", "and", "or"):
            return v
        if v.op == "lin":
            return neg(eq_int(v, ZERO))
        return v

    def narrow(self, st, v, ty):
        """an integer in a type that may not hold it"""
        t = self.p.ty(ty)
        bits = {"8": 8, "16": 16, "32": 32, "128": 128}.get(t.get("s", "")[1:], 64)
        signed = t.get("s", "u")[:1] == "i"
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
        if is_const(v):
            n = cval(v)
            return v if lo <= n <= hi else C((n - lo) % 2 ** bits + lo)
        if bits < 64:
            src = self.p.ty(v.a[2]).get("s", "") if v.op == "app" and isinstance(v.a[2], int) else ""
            if src[1:] in ("8", "16", "32") and int(src[1:]) < bits or src == t.get("s"):
                return v
            if not (holds(st, le(C(lo), v)) is True and holds(st, le(v, C(hi))) is True):
                return app("unk", "narrowed", v, ty=ty)
        return v

    def binop(self, st, op, a, b, dty):
        over = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        isb = lambda x: x.op in ("b", "ge0", "eqz", "eq", "not", "and", "or")
        if o in ("Eq", "Ne"):
            if isb(a) or isb(b):
                r = self.iff(a, b)
            elif self.intish(a) and self.intish(b):
                r = eq_int(a, b)
            else:
                r = eq_term(a, b)
            return r if o == "Eq" else neg(r)
        if o == "Lt":
            return lt(a, b)
        if o == "Le":
            return le(a, b)
        if o == "Gt":
            return lt(b, a)
        if o == "Ge":
            return le(b, a)
        if o in ("BitAnd", "BitOr", "BitXor") and (isb(a) or isb(b) or self.p.ty(dty)["k"] == "bool"):
            a, b = self.as_bool(a), self.as_bool(b)
            if o == "BitAnd":
                return conj(a, b)
            if o == "BitOr":
                return disj(a, b)
            return neg(self.iff(a, b))
        ety = self.p.types[dty]["elems"][0] if over and dty is not None and self.p.types[dty]["k"] == "tuple" else dty
        if o == "Cmp":
            return app("ofint", app("icmp", sub(a, b)), ty=dty)
        flag = FALSE
        if o == "Add":
            v = add(a, b)
        elif o == "Sub":
            v = sub(a, b)
            if over and (ety in facts.UNSIGNED):
                flag = neg(ge0(v))
        elif o == "Mul":
            if is_const(b):
                v = scale(a, cval(b))
            elif is_const(a):
                v = scale(b, cval(a))
            else:
                v = app("mul", a, b, ty=ety)
        elif o == "Div":
            v = app("div", a, b, ty=ety)
        elif o == "Rem":
            v = sub(a, scale(app("div", a, b, ty=ety), cval(b))) if is_const(b) and cval(b) else app("rem", a, b, ty=ety)
        elif o == "Shr" and is_const(b):
            v = app("div", a, C(1 << cval(b)), ty=ety)
        elif o == "Shl" and is_const(b):
            v = scale(a, 1 << cval(b))
        elif o == "BitAnd" and is_const(b) and (cval(b) + 1) & cval(b) == 0:
            v = sub(a, scale(app("div", a, C(cval(b) + 1), ty=ety), cval(b) + 1))
        elif o == "BitOr" and is_const(b) and cval(b) == 1:
            # sets the lowest bit
            v = add(scale(app("div", a, C(2), ty=ety), 2), ONE)
        elif o == "Offset":
            v = app("offset", a, b, ty=dty)
        else:
            v = app("op:" + o, a, b, ty=ety)
        return tup(v, flag) if over else v

    def intish(self, v):
        if v.op in ("lin", "it", "bv"):
            return True
        if v.op == "app":
            if v.a[0] in ("len", "discr", "div", "bcmp", "icmp", "b2i"):
                return True
            t = self.p.ty(v.a[2])
            return t["k"] in ("int", "char")
        return False

    def iff(self, a, b):
        a, b = self.as_bool(a), self.as_bool(b)
        if b.op == "b":
            return a if b.a[0] else neg(a)
        if a.op == "b":
            return b if a.a[0] else neg(b)
        if a is b:
            return TRUE
        return eq_term(a, b)

    # ------------------------------------------------------------ blocks
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("step budget")
        if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Undecided("time budget")

    def note_imprecise(self, why):
        self.imprecise[why] = self.imprecise.get(why, 0) + 1

    def exec_block(self, fr, bb, st):
        """[(kind, target, state)]; statements, then the terminator, re-executed after a fork"""
        self.tick()
        body = fr.body
        blk = body.blocks[bb]
        todo = [(0, st)]
        out = []
        while todo:
            i, s = todo.pop()
            ok = True
            stm = blk["s"]
            while i < len(stm):
                x = stm[i]
                k = x[0]
                if k == "=":
                    snap = None
                    try:
                        self.assign(fr, s, x)
                    except NeedFork as f:
                        todo.extend((i, y) for y in self.split(s, f.cond))
                        ok = False
                        break
                    except Dead:
                        ok = False
                        break
                elif k == "dead" or k == "sl":
                    s.mem.pop(loc(fr.depth, x[1]), None)
                elif k == "sd":
                    pass
                i += 1
            if not ok:
                continue
            try:
                out.extend(self.term(fr, bb, blk["t"], s))
            except Dead:
                pass
        return out

    def split(self, st, cond):
        r = []
        a, b = st.copy(), st
        if assume(a, cond):
            r.append(a)
        if assume(b, neg(cond)):
            r.append(b)
        if not (holds(a, cond) or r and holds(r[-1], cond) is not None):
            pass
        return r

    def assign(self, fr, st, x):
        _, pl, rv, span = x[0], x[1], x[2], x[3] if len(x) > 3 else None
        # forks must not observe a half-executed statement: moves are the only side effect before the store
        saved = None
        if pl[1] or rv["k"] in ("use", "agg", "ref", "discr", "len", "un", "bin"):
            saved = {}
            for o in ops_of(rv):
                if o["k"] == "move":
                    l = loc(fr.depth, o["p"][0])
                    saved[l] = st.mem.get(l)
        try:
            dty = fr.body.locals[pl[0]] if not pl[1] else None
            if pl[1]:
                # the type of the destination is the type of its last projection
                for e in reversed(pl[1]):
                    if e[0] == "f":
                        dty = e[2]
                        break
                    if e[0] in ("d", "v"):
                        break
            v = self.rvalue(fr, st, rv, dty)
            if v.depth > DEPTH:
                v = self.shallow(v, dty)
            if not pl[1]:
                st.mem[loc(fr.depth, pl[0])] = v
            else:
                o, pr, ty = self.place(fr, st, pl)
                self.cur = (fr, span)
                self.store(st, o, pr, v)
        except NeedFork:
            if saved:
                for l, v in saved.items():
                    if v is None:
                        st.mem.pop(l, None)
                    else:
                        st.mem[l] = v
            raise

    def shallow(self, v, ty=None, d=0):
        """forget values whose description has grown too large"""
        if v.depth <= DEPTH - 4 * d:
            return v
        if v.op == "agg" and v.a[0] not in ("guard", "fn") and d < 8:
            return agg(v.a[0], v.a[1], [self.shallow(x, None, d + 1) for x in v.a[2]])
        if v.op == "agg":
            return v
        self.note_imprecise("description too large")
        if v.op == "app":
            ty = v.a[2]
        return mk("app", "unk", (mk("big", v.uid),), ty)

    def branch(self, st, cond):
        """(state where cond holds or None, state where it does not or None)"""
        h = holds(st, cond)
        if h is True:
            return st, None
        if h is False:
            return None, st
        a = st.copy()
        if not assume(a, cond):
            a = None
        if not assume(st, neg(cond)):
            st = None
        return a, st

    def term(self, fr, bb, t, st):
        k = t[0]
        if k == "goto":
            return [("go", t[1], st)]
        if k == "return":
            return [("ret", None, st)]
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "drop":
            while True:
                self.drop_place(fr, st, t[1], t[3] if len(t) > 3 else None)
                return [("go", t[2], st)]
        if k == "call":
            return self.call_term(fr, bb, t, st)
        if k == "assert":
            return self.assert_term(fr, bb, t, st)
        if k in ("unreachable", "yield", "other"):
            return []
        raise Undecided("terminator " + k)

    def assert_term(self, fr, bb, t, st):
        todo, out = [st], []
        while todo:
            st = todo.pop()
            snap = st.copy()
            try:
                c = self.as_bool(self.operand(fr, st, t[1]))
            except NeedFork as f:
                todo.extend(self.split(snap, f.cond))
                continue
            if not t[2]:
                c = neg(c)
            self.cur = (fr, t[5] if len(t) > 5 else None)
            h = holds(st, c)
            self.event(st, "assert", cond=c, known=h, kind=t[3], frame=fr, span=t[5] if len(t) > 5 else None)
            if h is False:
                self.event(st, "panic", why=str(t[3]), frame=fr, span=t[5] if len(t) > 5 else None)
                continue
            if assume(st, c):
                out.append(("go", t[4], st))
        return out

    def switch(self, fr, t, st):
        todo, out = [st], []
        while todo:
            st = todo.pop()
            snap = None
            try:
                v = self.operand(fr, st, t[1])
            except NeedFork as f:
                todo.extend(self.split(st, f.cond))
                continue
            ty = self.p.ty(t[4])
            isbool = ty["k"] == "bool"
            cur = st
            for val, tgt in t[2]:
                if isbool:
                    c = neg(self.as_bool(v)) if val == 0 else self.as_bool(v)
                else:
                    c = eq_int(v, C(val))
                a, cur = self.branch(cur, c)
                if a is not None:
                    out.append(("go", tgt, a))
                if cur is None:
                    break
            if cur is not None and not (fr.body.blocks[t[3]] and fr.body.blocks[t[3]]["t"][0] == "unreachable"
                                        and not fr.body.blocks[t[3]]["s"]):
                if not self.exhausted(cur, v):
                    out.append(("go", t[3], cur))
        return out

    def exhausted(self, st, v):
        """every variant of the switched value is excluded"""
        if v.op == "app" and v.a[0] == "discr":
            x = v.a[1][0]
            if x.op == "app":
                t = self.p.ty(x.a[2])
                if t["k"] == "adt" and t.get("variants") and t["enum"]:
                    rest = [d["discr"] for d in t["variants"] if holds(st, eq_int(v, C(d["discr"]))) is not False]
                    if not rest:
                        return True
                    if len(rest) == 1:
                        assume(st, eq_int(v, C(rest[0])))
        elif v.op == "app" and v.a[0] == "bcmp" or v.op == "app" and v.a[0] == "icmp":
            return all(holds(st, eq_int(v, C(k))) is False for k in (-1, 0, 1))
        return False

    # ------------------------------------------------------------ drops
    def drop_place(self, fr, st, pl, span=None):
        try:
            o, pr, ty = self.place(fr, st, pl)
            v = self.load(st, o, pr)
        except NeedFork:
            return
        self.cur = (fr, span)
        if v is not UNINIT and "drop" in self.handlers:
            self.event(st, "drop", val=v, ty=ty, frame=fr)
        self.drop_value(st, v)
        if o.op == "loc":
            if not pr:
                st.mem.pop(o, None)

    def drop_value(self, st, v, depth=0):
        if v.op == "agg":
            if v.a[0] == "guard":
                self.release(st, v)
            elif depth < 6:
                if v.a[0].startswith("fut:") or v.a[0] == "closure":
                    pass
                for f in v.a[2]:
                    if has_guard(f):
                        self.drop_value(st, f, depth + 1)

    def release(self, st, g):
        gid = g.a[2][0]
        st.locks = tuple(l for l in st.locks if l[0] is not gid)
        self.event(st, "release", gid=gid, lock=g.a[2][1])

    # ------------------------------------------------------------ calls
    def call_term(self, fr, bb, t, st):
        _, fop, aops, dpl, tgt, span = t[:6]
        todo, out = [st], []
        multi = False
        while todo:
            st = todo.pop()
            snap = st.copy()
            try:
                c = Call()
                c.ip, c.fr, c.bb, c.span = self, fr, bb, span
                c.ctx = mk("ctxc", fr.ctx, bb)
                f = self.operand(fr, st, fop)
                c.args = [self.operand(fr, st, a) for a in aops]
                c.argtys = [self.op_ty(fr, a) for a in aops]
                dty = fr.body.locals[dpl[0]]
                for e in dpl[1]:
                    if e[0] == "f":
                        dty = e[2]
                    elif e[0] == "d":
                        dty = self.p.pointee(dty)
                c.dty = dty
                self.cur = (fr, span)
                self.stack.append((fr.body, span))
                try:
                    res = self.apply(c, st, f, c.args)
                finally:
                    self.stack.pop()
                if res is None:
                    continue
                for s2, v in res:
                    if tgt is None:
                        continue
                    if v is None:
                        continue
                    if v.depth > DEPTH:
                        v = self.shallow(v, dty)
                    if not dpl[1]:
                        s2.mem[loc(fr.depth, dpl[0])] = v
                    else:
                        o, pr, ty = self.place(fr, s2, dpl)
                        self.store(s2, o, pr, v)
                    out.append(("go", tgt, s2))
            except NeedFork as f:
                todo.extend(self.split(snap, f.cond))
            except Dead:
                pass
        return out

    def op_ty(self, fr, o):
        if o["k"] == "const":
            return o.get("ty")
        ty = fr.body.locals[o["p"][0]]
        for e in o["p"][1]:
            if e[0] == "f":
                ty = e[2]
            elif e[0] == "d":
                ty = self.p.pointee(ty)
            elif e[0] == "i" or e[0] == "c":
                ty = self.p.elem_ty(ty)
        return ty

    def apply(self, c, st, f, args):
        """call function value f; [(state, result)] or None when it does not return"""
        if f.op == "agg" and f.a[0] == "fn":
            return self.apply_callee(c, st, self.p.callees[f.a[1]], args)
        if f.op == "agg" and f.a[0] == "closure":
            return self.run(c, st, f.a[1], [f] + list(args))
        if f.op == "ptr":
            return self.apply(c, st, self.at(st, f), args)
        r = self.m.opaque_call(self, c, st, f, args)
        self.event(st, "fncall", f=f, args=args, call=c, result=r)
        return [(st, r)]

    def apply_callee(self, c, st, callee, args):
        c.callee = callee
        path = callee.get("rpath") or callee["path"]
        c.path = path
        c.name = callee.get("name") or callee["path"].split("::")[-1]
        tr = callee.get("trait") or ""
        h = self.hooks.get(c.name)
        if h is not None:
            r = h(self, c, st, args)
            if r is not NotImplemented:
                return self.wrap(st, r)
        if callee.get("ctor") is not None:
            ty, var = callee["ctor"][0], callee["ctor"][1]
            t = self.p.ty(ty)
            return [(st, agg("adt:" + t["path"], var, args))]
        if tr.startswith(EXTERN_TRAITS):
            m = self.m.lookup(callee)
            if m is not None:
                r = m(self, c, st, args)
                if r is not NotImplemented:
                    return self.wrap(st, r)
        if "closure" in callee:
            return self.call_closure(c, st, args, callee["closure"])
        if "fnval" in callee:
            a = args[1] if len(args) > 1 else UNIT
            return self.apply_callee(c, st, callee["fnval"], self.spread(a))
        inst = callee.get("inst")
        if inst is None:
            inst = self.local_impl(c, st, callee, args)
        if inst is not None:
            return self.run(c, st, inst, args)
        m = self.m.lookup(callee)
        if m is not None:
            r = m(self, c, st, args)
            if r is not NotImplemented:
                return self.wrap(st, r)
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            fv = args[0]
            if fv.op == "ptr":
                fv = self.at(st, fv)
            a = self.spread(args[1]) if len(args) > 1 else []
            if fv.op == "agg" and fv.a[0] in ("fn", "closure"):
                return self.call_value(c, st, fv, a)
            r = self.m.opaque_call(self, c, st, fv, a)
            self.event(st, "fncall", f=fv, args=a, call=c, result=r)
            return self.wrap(st, r)
        return self.wrap(st, self.m.unknown(self, c, st, args))

    def call_value(self, c, st, f, args):
        if f.op == "ptr":
            f = self.at(st, f)
        if f.op == "agg" and f.a[0] == "fn":
            return self.apply_callee(c, st, self.p.callees[f.a[1]], args)
        if f.op == "agg" and f.a[0] == "closure":
            return self.run(c, st, f.a[1], self.closure_args(st, f, args, c))
        r = self.m.opaque_call(self, c, st, f, args)
        self.event(st, "fncall", f=f, args=args, call=c, result=r)
        return self.wrap(st, r)

    def call_fun(self, st, f, args, b=None):
        """call a function value from outside any body (to learn what it does)"""
        c = Call()
        b = b or self.p.body(f.a[1])
        c.ip, c.fr, c.bb, c.span = self, Frame(b, mk("ctx", "outside"), 40), 0, None
        c.ctx = mk("ctxc", c.fr.ctx, 0)
        c.args, c.argtys, c.dty = list(args), [None] * len(args), b.locals[0]
        c.path = c.name = ""
        return self.call_value(c, st, f, list(args))

    def closure_args(self, st, f, args, c):
        b = self.p.body(f.a[1])
        env_ty = b.locals[1]
        env = f
        if self.p.ty(env_ty)["k"] in ("ref", "ptr"):
            o = mk("obj", c.ctx, ("env", f.a[1]))
            st.mem[o] = f
            env = mk("ptr", o, ())
        if b.spread is not None or b.nargs == 2 and len(args) != 1 and False:
            return [env, tup(*args)]
        if b.nargs == 1 + len(args):
            return [env] + list(args)
        return [env, tup(*args)]

    def spread(self, a):
        if a.op == "agg" and a.a[0] == "tuple":
            return list(a.a[2])
        if a.op == "app":
            t = self.p.ty(a.a[2])
            if t["k"] == "tuple":
                return [fld(a, i) for i in range(len(t["elems"]))]
        return [a]

    def call_closure(self, c, st, args, inst):
        f = args[0]
        if f.op == "ptr":
            f = self.at(st, f)
        a = self.spread(args[1]) if len(args) > 1 else []
        if f.op == "agg" and f.a[0] == "closure":
            return self.run(c, st, f.a[1], self.closure_args(st, f, a, c))
        return self.run(c, st, inst, [args[0]] + a)

    def local_impl(self, c, st, callee, args):
        tr = callee.get("trait")
        if not tr or callee.get("rpath"):
            return None
        name = callee.get("name") or callee["path"].split("::")[-1]
        st_ty = callee.get("self")
        if st_ty is None:
            return None
        s = self.p.tys(st_ty) if isinstance(st_ty, int) else st_ty
        c2 = self.p.impl(tr, name, s)
        if len(c2) == 1:
            return c2[0]
        return None

    def wrap(self, st, r):
        if r is None:
            return None
        if isinstance(r, T):
            return [(st, r)]
        return r

    def is_rec(self, inst):
        n = 0
        for b, _ in self.stack:
            if b.idx == inst:
                n += 1
        return n >= 1

    def run(self, c, st, inst, args):
        b = self.p.body(inst)
        if len(self.stack) > 60:
            raise Undecided("call depth")
        if self.is_rec(inst):
            self.event(st, "recursion", body=b, args=args, call=c)
            return self.wrap(st, self.m.unknown(self, c, st, args))
        if inst in self.stubs:
            self.quiet.add(inst)
            return self.stubs[inst](self, c, st, b, args)
        if inst in self.leaf or self.relevant is not None and inst not in self.relevant and not self.small(b):
            return self.summary(c, st, b, args)
        return self.exec_fn(b, args, st, mk("ctxf", c.ctx, inst), c.fr.depth + 1)

    def small(self, b):
        if b.kind == "closure" or b.kind == "fn" and not b.loops and len(b.blocks) <= 8:
            return True
        t = self.p.ty(b.locals[0])
        if t["k"] in ("coroutine",):
            return True
        return b.kind == "fn" and t["k"] == "adt" and t["path"] == "std::pin::Pin" and "dyn" in t["s"]

    def summary(self, c, st, b, args):
        """a function that cannot do anything of interest: an opaque result of its type"""
        self.quiet.add(b.idx)
        ty = b.locals[0]
        self.event(st, "quiet_call", body=b, args=args, call=c)
        if b.idx in self.graph.mutators() and b.idx not in self.pure:
            self.mods = self.graph.mods(b.idx)
            try:
                self.havoc(st, args, mk("ctxf", c.ctx, b.idx), b.locals[1:1 + b.nargs])
            finally:
                self.mods = None
        t = self.p.ty(ty)
        name = mk("ctxf", c.ctx, b.idx)
        if t["k"] == "adt" and t["path"] == "std::result::Result" and t.get("args"):
            okv = ok_(app("new", "ok", name, ty=t["args"][0]))
            if b.idx not in self.graph.mayfail():
                return [(st, okv)]
            s1 = st.copy()
            e = self.last_err = app("new", "err", name, ty=t["args"][1])
            self.event(s1, "failure", kind="call " + b.short, call=c)
            return [(s1, err_(e)), (st, okv)]
        if t["k"] == "tuple" and not t["elems"]:
            return [(st, UNIT)]
        return [(st, app("new", "ret", name, ty=ty))]

    def havoc(self, st, args, name, tys=None):
        """anything reachable from args may have changed"""
        seen = set()
        work = []

        def add(v, ty):
            t = self.p.ty(ty)
            if ty is not None and self.p.frozen(ty):
                return
            if t["k"] in ("coroutine", "closure", "tuple") and v.op == "agg":
                tys = t.get("upvars") or t.get("elems") or ()
                for i, x in enumerate(v.a[2]):
                    add(x, tys[i] if i < len(tys) else None)
                return
            if t["k"] == "adt" and t["path"] == "std::pin::Pin" and t.get("args") and isinstance(t["args"][0], int):
                return add(v, t["args"][0])
            if t["k"] == "ref" and v.op == "ptr" and self.p.ty(t["to"])["k"] in ("coroutine", "closure"):
                return add(self.at(st, v), t["to"])
            work.extend(objs_of(v))
        for i, a in enumerate(args):
            add(a, tys[i] if tys and i < len(tys) else None)
        while work:
            o = work.pop()
            if o in seen or o.op in ("cst",):
                continue
            seen.add(o)
            v = st.mem.get(o)
            if v is not None:
                work.extend(objs_of(v))
        for o in seen:
            if o.op == "loc":
                # a reference to a local: only through &mut
                v = st.mem.get(o)
                if v is not None:
                    st.mem[o] = self.forget(v, name, o, ())
            elif o.op == "obj" and o in st.mem:
                st.mem[o] = self.forget(st.mem[o], name, o, ())
        for o in [o for o in st.mem if o.op == "der"]:
            st.mem[o] = self.forget(st.mem[o], name, o, ())
        e = st.mem.get(EPOCH, ZERO)
        st.mem[EPOCH] = name

    mods = None

    def unmodified(self, v):
        """fields that the summarised function cannot write"""
        if not self.mods or not v.a[0].startswith("adt:"):
            return ()
        path = v.a[0][4:]
        t = self.p.adt(path)
        if t is None or t["enum"] or (path, None) in self.mods or not any(path == x for x, _ in self.mods) and path.startswith(("std::", "tokio::")):
            return ()
        return {i for i, f in enumerate(t["variants"][0]["fields"]) if (path, i) not in self.mods and self.p.frozen(f[1])}

    def forget(self, v, name, o, path):
        """opaque contents, keeping structure that code cannot change: pointers and locks"""
        if v.op == "agg":
            if v.a[0] in ("guard", "fn", "closure", "coroutine") or v.a[0].startswith("fut:"):
                return v
            keep = self.unmodified(v)
            return mk("agg", v.a[0], v.a[1], tuple(x if i in keep else self.forget(x, name, o, path + (i,)) for i, x in enumerate(v.a[2]))) \
                if v.a[0] == "tuple" or v.a[0].startswith("adt:") and v.a[0] not in ENUMLIKE else mk("app", "unk", (mk("hv", name, o, path),), None)
        if v.op == "ptr":
            return v
        ty = v.a[2] if v.op == "app" else None
        if v.op == "seq":
            ty = self.seq_ty_of(v)
        return app("new", "hv", mk("hv", name, o, path), ty=ty)

    def exec_fn(self, b, args, st, ctx, depth):
        self.visited.add(b.idx)
        if b.tainted:
            self.note_imprecise("body with type errors: " + b.path)
        fr = Frame(b, ctx, depth)
        if b.spread is not None and len(args) != b.nargs:
            n = b.nargs - 1
            args = list(args[:n]) + [tup(*args[n:])]
        for i, a in enumerate(args):
            st.mem[loc(depth, i + 1)] = a
        self.event(st, "enter", body=b, args=args, frame=fr)
        exits, backs, rets = self.region(fr, {0: [st]}, None, None)
        out = []
        for s in rets:
            v = s.mem.get(loc(depth, 0), UNIT)
            for k in [k for k in s.mem if k.op == "loc" and k.a[0] >= depth]:
                del s.mem[k]
            self.event(s, "leave", body=b, ret=v, frame=fr)
            out.append((s, v))
        return self.merge_rets(out, ctx)

    # ------------------------------------------------------------ merging
    def gc(self, st, extra=()):
        mem = st.mem
        seen = set()
        work = [v for o, v in mem.items() if o.op != "obj"]
        work.extend(extra)
        for l in st.locks:
            work.append(l[1])
        while work:
            v = work.pop()
            for o in objs_of(v):
                if o not in seen:
                    seen.add(o)
                    if o in mem:
                        work.append(mem[o])
                    elif o.op == "obj" and st.fams:
                        work.append(self.load_obj(st, o))
                    elif o.op == "der":
                        pass
        dead = [o for o in mem if o.op == "obj" and o not in seen]
        for o in dead:
            del mem[o]

    def merge_rets(self, rets, ctx):
        if len(rets) <= 1:
            return rets
        for s, v in rets:
            self.gc(s, (v,))
        groups = {}
        for s, v in rets:
            s.mem[mk("retv")] = v
            key = (sig(v, 3), s.locks, tuple(sorted(((o.uid, x.uid) for o, x in s.mem.items() if o.op == "mon"))))
            groups.setdefault(key, []).append(s)
        out = []
        for key, ss in groups.items():
            err = is_err(ss[0].mem[mk("retv")])
            ss = self.merge(ss, self.errcap if err else self.cap, ctx)
            for s in ss:
                out.append((s, s.mem.pop(mk("retv"))))
        return out

    def merge(self, states, cap, ctx):
        """merge states with the same memory; when more than cap remain, join the rest"""
        if len(states) <= 1:
            return states
        out = []
        for s in states:
            for i, t in enumerate(out):
                if t.locks == s.locks and t.mem == s.mem and t.fams == s.fams:
                    m = self.merge_facts(t, s)
                    if m is not None:
                        out[i] = m
                        break
            else:
                out.append(s)
        if len(out) > cap:
            # first drop facts
            out2 = []
            for s in out:
                for i, t in enumerate(out2):
                    if t.locks == s.locks and t.mem == s.mem and t.fams == s.fams:
                        out2[i] = self.join_facts(t, s)
                        break
                else:
                    out2.append(s)
            out = out2
        if len(out) > cap:
            g = {}
            for s in out:
                g.setdefault(self.coarse(s), []).append(s)
            per = max(1, cap // len(g))
            out = []
            for k, ss in g.items():
                while len(ss) > per:
                    a, b = ss.pop(), ss.pop()
                    ss.append(self.join(a, b, ctx))
                out.extend(ss)
        return out

    def coarse(self, s):
        """what must agree for two states to be joined: locks, monitor states, enum tags of the values held"""
        out = []
        for o, v in s.mem.items():
            if o.op == "mon":
                out.append((-1, o.uid, v.uid))
            elif o.op == "loc":
                if v.op == "agg" and not is_err(v):
                    out.append((o.a[0], o.a[1], sig(v, 2)))
                elif v.op == "b":
                    out.append((o.a[0], o.a[1], v.a[0]))
                elif v.op in ("uninit",):
                    out.append((o.a[0], o.a[1], "u"))
                elif is_err(v):
                    out.append((o.a[0], o.a[1], "err"))
            elif o.op == "retv":
                out.append((-2, 0, "err" if is_err(v) else sig(v, 3)))
        out.sort(key=lambda x: (x[0], x[1]))
        return (s.locks, tuple(out))

    def merge_facts(self, a, b):
        """exact when the facts of one imply those of the other; None otherwise"""
        fa, fb = a.facts, b.facts
        da = [(t, v) for t, v in fa.items() if fb.get(t) is not v]
        db = [(t, v) for t, v in fb.items() if fa.get(t) is not v]
        if not da:
            return a
        if not db:
            return b
        if len(da) < 6 and all(holds(b, t) is v for t, v in da):
            return a
        if len(db) < 6 and all(holds(a, t) is v for t, v in db):
            return b
        # complementary single facts cancel
        if len(da) == 1 and len(db) == 1 and da[0][0] is db[0][0]:
            return self.join_facts(a, b)
        return None

    def join_facts(self, a, b):
        keep = {}
        da, db = [], []
        for t, v in a.facts.items():
            if b.facts.get(t) is v:
                keep[t] = v
            else:
                da.append((t, v))
        for t, v in b.facts.items():
            if a.facts.get(t) is not v:
                db.append((t, v))
        for t, v in da:
            if holds(b, t) is v:
                keep[t] = v
        for t, v in db:
            if holds(a, t) is v:
                keep[t] = v
        s = a.copy()
        s.set_facts(keep)
        return s

    def join(self, a, b, ctx):
        s = self.join_facts(a, b)
        mem = {}
        for o in a.mem:
            if o in b.mem:
                x, y = a.mem[o], b.mem[o]
                mem[o] = x if x is y else self.join_val(x, y, ctx, o, ())
            elif o.op in ("der",):
                mem[o] = self.join_val(a.mem[o], self.load_obj(b, o), ctx, o, ())
            elif o.op == "obj":
                mem[o] = a.mem[o]
        for o in b.mem:
            if o not in a.mem:
                if o.op == "der":
                    mem[o] = self.join_val(self.load_obj(a, o), b.mem[o], ctx, o, ())
                elif o.op == "obj":
                    mem[o] = b.mem[o]
        s.mem = mem
        if a.fams != b.fams:
            s.fams = tuple(f for f in a.fams if f in b.fams)
        s.quant = tuple(f for f in a.quant if f in b.quant)
        return s

    def join_val(self, x, y, ctx, o, path):
        if x is y:
            return x
        if x.op == "agg" and y.op == "agg" and x.a[:2] == y.a[:2] and len(x.a[2]) == len(y.a[2]) and x.a[0] != "guard":
            return agg(x.a[0], x.a[1], [self.join_val(p, q, ctx, o, path + (i,)) for i, (p, q) in enumerate(zip(x.a[2], y.a[2]))])
        ty = x.a[2] if x.op == "app" else y.a[2] if y.op == "app" else None
        return mk("app", "unk", (mk("phi", ctx, o, path),), ty)

    # ------------------------------------------------------------ regions
    def trim(self, fr, bb, st):
        live = fr.body.live[bb]
        addr = fr.body.addr
        d = fr.depth
        for k in [k for k in st.mem if k.op == "loc" and k.a[0] == d]:
            n = k.a[1]
            if n not in live and n not in addr:
                v = st.mem[k]
                if not has_guard(v):
                    del st.mem[k]

    def region(self, fr, entries, region, head):
        body = fr.body
        rpo = body.rpo
        pend = {b: list(s) for b, s in entries.items()}
        exits, backs, rets = [], [], []
        first = True
        while pend:
            bb = min(pend, key=lambda b: rpo[b])
            sts = pend.pop(bb)
            if len(sts) > 1:
                for s in sts:
                    self.trim(fr, bb, s)
                    self.gc(s)
                sts = self.merge(sts, self.cap, mk("ctxm", fr.ctx, bb))
            for s in sts:
                if bb in body.loops and not (bb == head):
                    res = self.loop(fr, bb, s)
                else:
                    res = self.exec_block(fr, bb, s)
                for kind, tgt, s2 in res:
                    if kind == "ret":
                        rets.append(s2)
                    elif tgt == head:
                        backs.append(s2)
                    elif region is not None and tgt not in region:
                        exits.append(("go", tgt, s2))
                    else:
                        pend.setdefault(tgt, []).append(s2)
        return exits, backs, rets

    def loop(self, fr, head, st):
        from .loops import summarise
        return summarise(self, fr, head, st)


def ops_of(rv):
    k = rv["k"]
    if k in ("use", "cast", "repeat"):
        return [rv["o"]]
    if k == "bin":
        return [rv["a"], rv["b"]]
    if k == "un":
        return [rv["o"] if "o" in rv else rv["a"]]
    if k == "agg":
        return rv["ops"]
    return []


_objs = {}


def objs_of(t):
    """objects a value points to"""
    r = _objs.get(t)
    if r is None:
        s = set()
        if t.op == "ptr":
            s.add(t.a[0])
            for e in t.a[1]:
                for y in e[1:]:
                    if isinstance(y, T):
                        s |= objs_of(y)
        if t.op != "obj":
            _objs_t(t.a, s)
        r = frozenset(s)
        _objs[t] = r
    return r


def _objs_t(a, s):
    for x in a:
        if isinstance(x, T):
            if x.op == "obj":
                s.add(x)
            elif x.op not in ("ctxc", "ctxf", "ctxit", "ctx"):
                s |= objs_of(x)
        elif isinstance(x, tuple):
            _objs_t(x, s)


_hg = {}


def has_guard(v):
    r = _hg.get(v)
    if r is None:
        r = v.op == "agg" and (v.a[0] == "guard" or any(has_guard(f) for f in v.a[2]))
        _hg[v] = r
    return r


def sig(v, d):
    if v.op == "agg":
        return (v.a[0], v.a[1]) + (tuple(sig(f, d - 1) for f in v.a[2]) if d > 0 else ())
    if v.op == "b":
        return v.a[0]
    return "*"


def is_err(v):
    return v.op == "agg" and v.a[0] == "adt:std::result::Result" and v.a[1] == 1


def match(pat, x, q):
    """value of q for which pattern pat is x, or None"""
    sol = []

    def go(p, y):
        if p is y:
            return True
        if not isinstance(p, T) or not isinstance(y, T):
            if isinstance(p, tuple) and isinstance(y, tuple) and len(p) == len(y):
                return all(go(a, b) for a, b in zip(p, y))
            return p == y
        if q not in p.syms:
            return p is y
        if p.op in ("lin", "it"):
            c, ps = lin_parts(p)
            k = dict(ps).get(q)
            if k in (1, -1):
                rest = add(p, scale(q, k), -1)
                sol.append(scale(sub(y, rest), k))
                return True
            return False
        if p.op != y.op or len(p.a) != len(y.a):
            return False
        return all(go(a, b) for a, b in zip(p.a, y.a))

    if not go(pat, x) or not sol:
        return None
    return sol[0] if all(s is sol[0] for s in sol) else None


_trig = {}


def triggers(e):
    r = _trig.get(e)
    if r is None:
        q = e[0]
        r = set()
        for f, _ in e[3]:
            for x in subterms(f):
                if x.op in ("app", "ctxit") and q in x.syms:
                    if not any(y is not x and y.op in ("app", "ctxit") and q in y.syms for y in subterms(x)):
                        r.add(x)
        r = _trig[e] = tuple(r)
    return r


_itn = {}


def iter_names(t):
    """(ctx, head, index) of the loop iterations that the names in t mention"""
    r = _itn.get(t)
    if r is None:
        s = set()
        for x in subterms(t):
            if x.op == "ctxit":
                s.add(x.a)
        r = frozenset(s)
        _itn[t] = r
    return r
