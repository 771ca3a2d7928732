"""The analysed program: bodies, types, control flow."""
import json
from . import term, facts


class Body:
    def __init__(self, prog, idx, j, m, kind):
        self.prog, self.idx, self.kind = prog, idx, kind
        self.path = j["path"]
        self.name = j.get("name")
        self.pub = j.get("pub")
        self.trait = j.get("trait")
        self.selfty = j.get("selfty")
        self.args = j.get("args")
        self.abi = j.get("abi")
        self.tainted = j.get("tainted")
        self.nargs = m["nargs"]
        self.locals = m["locals"]
        self.blocks = m["blocks"]
        self.names = m["names"]
        self.span = m.get("span") or j.get("span")
        self.spread = m.get("spread")
        self.short = short(self.path)
        self._cfg()

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []  # return / unreachable / yield / other

    def _cfg(self):
        succ = {}
        order, seen = [], set()
        st = [(0, None)]
        seen.add(0)
        succ[0] = self.succ(0)
        st = [(0, iter(succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    succ[s] = self.succ(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        self.succs, self.preds = succ, preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._meet(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        loops = {}
        for b in order:
            for s in succ[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self.loops = loops
        self._live()

    def _meet(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _live(self):
        """live locals at block entry; locals whose address is taken are live while storage is"""
        addr = set()
        use, defs = {}, {}
        for b in self.order:
            u, d = set(), set()

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def wr(p):
                if p[1]:
                    rd(p)
                else:
                    d.add(p[0])

            def op(o):
                if o["k"] in ("copy", "move"):
                    rd(o["p"])

            bl = self.blocks[b]
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r["k"]
                    if k == "use" or k == "cast" or k == "repeat":
                        op(r["o"])
                    elif k == "ref":
                        rd(r["p"])
                        if not any(e[0] == "d" for e in r["p"][1]):
                            addr.add(r["p"][0])
                    elif k == "discr":
                        rd(r["p"])
                    elif k == "bin":
                        op(r["a"])
                        op(r["b"])
                    elif k == "un":
                        op(r["a"])
                    elif k == "agg":
                        for o in r["ops"]:
                            op(o)
                    wr(s[1])
                elif s[0] == "sd":
                    rd(s[1])
                elif s[0] == "dead":
                    d.add(s[1])
            t = bl["t"]
            if t[0] == "switch" or t[0] == "assert":
                op(t[1])
            elif t[0] == "drop":
                rd(t[1])
            elif t[0] == "call":
                op(t[1])
                for o in t[2]:
                    op(o)
                wr(t[3])
            elif t[0] == "return":
                u.add(0) if 0 not in d else None
            use[b], defs[b] = u, d
        live = {b: set(use[b]) for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succs[b]:
                    o |= live[s]
                n = use[b] | (o - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.addr = addr


def short(path):
    p = path.replace("::{closure#0}", "")
    return p


class Prog:
    def __init__(self, fn):
        d = json.load(open(fn))
        self.types = d["types"]
        self.errors = d["errors"]
        self.statics = {s["path"]: s for s in d["statics"]}
        self.roots = d["roots"]
        self.raw = d["bodies"]
        self._b = {}
        self._frozen = {}
        self._p = {}
        self.callees = []
        self._callee_ids = {}
        term.KIND_OF_TY.clear()
        term.NFIELDS.clear()
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t.get("variants") and not t["enum"]:
                term.KIND_OF_TY[i] = "adt:" + t["path"]
                term.NFIELDS[i] = len(t["variants"][0]["fields"])
            if t["k"] == "int" and t["s"][0] == "u":
                facts.UNSIGNED.add(i)
        self.discrs = {}
        for t in self.types:
            if t["k"] == "adt" and t.get("variants") and t["enum"]:
                if t["path"] == "std::cmp::Ordering":
                    for v in t["variants"]:
                        v["discr"] = -1 if v["discr"] == 255 else v["discr"]
                self.discrs[t["path"]] = [v["discr"] for v in t["variants"]]
        self.by_path = {}
        self.impls = {}
        for i, b in enumerate(self.raw):
            self.by_path.setdefault(b["path"], []).append(i)
            if b.get("trait") and b.get("selfty") is not None:
                self.impls.setdefault((b["trait"], b["name"]), []).append(i)

    def body(self, i):
        b = self._b.get(i)
        if b is None:
            j = self.raw[i]
            b = self._b[i] = Body(self, i, j, j["mir"], j["kind"])
        return b

    def promoted(self, i, n):
        b = self._p.get((i, n))
        if b is None:
            j = self.raw[i]
            b = self._p[(i, n)] = Body(self, i, j, j["promoted"][n], "promoted")
        return b

    def callee_id(self, c):
        k = id(c)
        n = self._callee_ids.get(k)
        if n is None:
            n = self._callee_ids[k] = len(self.callees)
            self.callees.append(c)
        return n

    def ty(self, i):
        return self.types[i] if i is not None else {"k": "?", "s": "?"}

    def tys(self, i):
        return self.types[i]["s"] if i is not None else "?"

    def pointee(self, i):
        if i is None:
            return None
        t = self.types[i]
        if t["k"] in ("ref", "ptr"):
            return t["to"]
        if t["k"] == "adt" and t["args"] and t["path"] in POINTERS:
            a = t["args"][0]
            if t["path"] == "std::pin::Pin":
                return self.pointee(a)
            return a
        return None

    def field_ty(self, i, variant, n):
        if i is None:
            return None
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            vs = t.get("variants")
            if vs and variant < len(vs) and n < len(vs[variant]["fields"]):
                return vs[variant]["fields"][n][1]
            return None
        if k == "tuple":
            return t["elems"][n] if n < len(t["elems"]) else None
        if k in ("closure", "coroutine"):
            return t["upvars"][n] if n < len(t["upvars"]) else None
        return None

    def adt(self, path):
        """a type of the analysed crate by its path"""
        if not hasattr(self, "_adts"):
            self._adts = {}
            for t in self.types:
                if t["k"] == "adt" and t.get("variants"):
                    self._adts.setdefault(t["path"], t)
        return self._adts.get(path)

    def frozen(self, i):
        """values of the type cannot change behind a shared reference"""
        r = self._frozen.get(i)
        if r is None:
            self._frozen[i] = True
            t = self.types[i]
            k = t["k"]
            if k in ("int", "bool", "char", "str", "never", "fndef", "fnptr"):
                r = True
            elif k in ("slice", "array"):
                r = self.frozen(t["elem"] if "elem" in t else t["to"] if "to" in t else self.elem_ty(i))
            elif k == "tuple":
                r = all(self.frozen(x) for x in t["elems"])
            elif k == "ref":
                r = not t.get("mut") and self.frozen(t["to"])
            elif k == "adt":
                if t["path"] in ("std::vec::Vec", "std::string::String", "std::option::Option", "std::collections::VecDeque", "std::boxed::Box"):
                    r = all(self.frozen(x) for x in t["args"][:1] if isinstance(x, int))
                elif t.get("variants"):
                    r = all(self.frozen(f[1]) for v in t["variants"] for f in v["fields"])
                else:
                    r = False
            else:
                r = False
            self._frozen[i] = r
        return r

    def freeze(self, i):
        """the value itself (not what lies behind reference counted pointers in it) cannot change behind a shared reference"""
        t = self.types[i]
        if t["k"] == "adt":
            if t["path"] in ("std::sync::Arc", "std::rc::Rc"):
                return True
            if t["path"] in ("std::vec::Vec", "std::option::Option", "std::collections::VecDeque", "std::boxed::Box"):
                return all(self.freeze(x) for x in t["args"][:1] if isinstance(x, int))
            if t.get("variants"):
                key = ("fz", i)
                if key not in self._frozen:
                    self._frozen[key] = True
                    self._frozen[key] = all(self.freeze(f[1]) for v in t["variants"] for f in v["fields"])
                return self._frozen[key]
        if t["k"] == "tuple":
            return all(self.freeze(x) for x in t["elems"])
        return self.frozen(i)

    def elem_ty(self, i):
        if i is None:
            return None
        t = self.types[i]
        if t["k"] in ("slice", "array"):
            return t["to"]
        if t["k"] == "adt" and t["args"] and t["path"].split("::")[-1] in ("Vec", "VecDeque"):
            return t["args"][0]
        return None

    def is_seq_ty(self, i):
        if i is None:
            return False
        t = self.types[i]
        return t["k"] in ("slice", "array") or t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::collections::VecDeque")

    def find(self, path):
        return [self.body(i) for i in self.by_path.get(path, [])]

    def impl(self, trait, name, selfty_s, args=None):
        """instances of a trait method implemented in the crate for the given type"""
        out = []
        for i in self.impls.get((trait, name), []):
            if self.tys(self.raw[i]["selfty"]) == selfty_s:
                out.append(i)
        return out


POINTERS = {"std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::pin::Pin", "std::mem::ManuallyDrop"}
