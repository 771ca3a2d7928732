"""Which functions can, transitively, do what a property is about.

A function that cannot reach any construct of interest is summarised by its type: an opaque result of the
return type (and, for a Result that can be an error at all, both outcomes)."""
import re
from .models import norm


LOCK = re.compile(r"sync::(RwLock|Mutex)::(read|write|lock|blocking_read|blocking_write|blocking_lock|read_owned|write_owned|lock_owned)$")


class Graph:
    def __init__(self, prog):
        self.p = prog
        n = len(prog.raw)
        self.succ = [set() for _ in range(n)]
        self.ext = [set() for _ in range(n)]     # normalised external callees
        self.fncall = [False] * n                # calls a function value it was given
        self.mutating = [False] * n
        self.errs = [False] * n
        self.resext = [False] * n                # an external call returns a Result
        self.acq = [set() for _ in range(n)]     # (class, kind) of the locks acquired
        for i, r in enumerate(prog.raw):
            for m in [r["mir"]] + list(r.get("promoted") or ()):
                if m:
                    self.scan(i, r, m)

    def callee(self, i, c):
        if "inst" in c:
            self.succ[i].add(c["inst"])
        elif "closure" in c:
            self.succ[i].add(c["closure"])
        elif "fnval" in c:
            self.callee(i, c["fnval"])
        elif c.get("ctor") is not None:
            pass
        else:
            tr, s = c.get("trait"), c.get("self")
            if tr and s is not None and not c.get("rpath"):
                for k in self.p.impl(tr, c.get("name") or c["path"].split("::")[-1], self.p.tys(s) if isinstance(s, int) else s):
                    self.succ[i].add(k)
            if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
                self.fncall[i] = True
            self.ext[i].add(norm(c.get("rpath") or c["path"]))
            self.ext[i].add(norm(c["path"]))

    def scan(self, i, r, m):
        p = self.p
        body_kind = r["kind"]
        for b in m["blocks"]:
            if not b:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    rv = s[2]
                    if rv["k"] == "agg":
                        k = rv["kind"]
                        if k["k"] in ("closure", "coroutine") and k.get("inst") is not None:
                            self.succ[i].add(k["inst"])
                        if k["k"] == "adt":
                            t = p.types[k["ty"]]
                            if t.get("path") == "std::result::Result" and k["variant"] == 1:
                                self.errs[i] = True
                    self.consts(i, rv)
            t = b["t"]
            if t and t[0] == "call":
                f = t[1]
                if f.get("k") == "const" and f.get("fn") is not None:
                    c = f["fn"]
                    self.callee(i, c)
                    if LOCK.search(norm(c["path"])) and c.get("args"):
                        nm = c["path"].split("::")[-1]
                        self.acq[i].add((p.tys(c["args"][0]), "r" if "read" in nm else "w"))
                    if "inst" not in c and "closure" not in c:
                        d = t[3]
                        if not d[1]:
                            ty = p.types[m["locals"][d[0]]]
                            if ty.get("path") == "std::result::Result":
                                self.resext[i] = True
                            if ty.get("path") == "std::task::Poll" and ty.get("args") and p.types[ty["args"][0]].get("path") == "std::result::Result":
                                self.resext[i] = True
                else:
                    self.fncall[i] = True
                for a in t[2]:
                    self.operand(i, a)
        nargs = m["nargs"]
        if body_kind != "coroutine":
            for a in range(1, nargs + 1):
                t = p.types[m["locals"][a]]
                if t["k"] == "ref" and t.get("mut"):
                    self.mutating[i] = True
        if "tokio::sync::RwLock::write" in self.ext[i] or "sync::RwLock::write" in self.ext[i]:
            self.mutating[i] = True

    def operand(self, i, o):
        if isinstance(o, dict) and o.get("k") == "const" and o.get("fn") is not None:
            self.callee(i, o["fn"])

    def consts(self, i, rv):
        for k in ("o", "a", "b"):
            if isinstance(rv.get(k), dict):
                self.operand(i, rv[k])
        for o in rv.get("ops") or ():
            self.operand(i, o)

    def closure(self, seeds):
        """bodies from which a seed body is reachable"""
        pred = {}
        for i, ss in enumerate(self.succ):
            for s in ss:
                pred.setdefault(s, set()).add(i)
        out = set(seeds)
        work = list(seeds)
        while work:
            x = work.pop()
            for q in pred.get(x, ()):
                if q not in out:
                    out.add(q)
                    work.append(q)
        return out

    def reaching(self, ext_pred, fncall=False, body_pred=None):
        seeds = [i for i in range(len(self.succ))
                 if any(ext_pred(e) for e in self.ext[i]) or fncall and self.fncall[i] or body_pred and body_pred(i)]
        return self.closure(seeds)

    def reach_from(self, roots):
        out = set(roots)
        work = list(roots)
        while work:
            x = work.pop()
            for q in self.succ[x]:
                if q not in out:
                    out.add(q)
                    work.append(q)
        return out

    def mayfail(self):
        if not hasattr(self, "_mf"):
            self._mf = self.closure([i for i in range(len(self.succ)) if self.errs[i] or self.resext[i]])
        return self._mf

    def acquires(self, i):
        """{(class, kind)} acquired by body i or anything it can reach"""
        if not hasattr(self, "_acqs"):
            self._acqs = {}
        if i not in self._acqs:
            out = set()
            for k in self.reach_from([i]):
                out |= self.acq[k]
            self._acqs[i] = out
        return self._acqs[i]

    def mutators(self):
        if not hasattr(self, "_mu"):
            self._mu = self.closure([i for i in range(len(self.succ)) if self.mutating[i]])
        return self._mu

    # ---- fields of the program's own types that a body may write through a reference
    def _mods(self, i):
        p = self.p
        out = set()

        def ty_of(m, pl):
            """[(type before the projection, projection)], final type"""
            t = m["locals"][pl[0]]
            steps = []
            for x in pl[1]:
                steps.append((t, x))
                k = x[0]
                ty = p.ty(t) if t is not None else {"k": "?"}
                if k == "d":
                    t = ty.get("to") if ty["k"] in ("ref", "ptr") else (ty.get("args") or [None])[0]
                elif k == "f":
                    t = x[2]
                elif k == "v":
                    pass
                else:
                    t = ty.get("to") or ty.get("elem") or (ty.get("args") or [None])[0]
                    t = t if isinstance(t, int) else None
            return steps, t

        def write(m, pl, whole=True):
            steps, t = ty_of(m, pl)
            for bt, x in steps:
                bty = p.ty(bt) if bt is not None else {"k": "?"}
                if x[0] == "f" and bty["k"] == "adt":
                    out.add((bty["path"], x[1]))
            if whole and steps and any(x[0] == "d" for _, x in steps):
                ty = p.ty(t) if t is not None else {"k": "?"}
                if ty["k"] == "adt":
                    out.add((ty["path"], None))
        r = p.raw[i]
        for m in [r["mir"]] + list(r.get("promoted") or ()):
            if not m:
                continue
            for b in m["blocks"]:
                if not b:
                    continue
                for s in b["s"]:
                    if s[0] == "=":
                        write(m, s[1])
                        rv = s[2]
                        if rv["k"] in ("ref", "rawptr", "addr") and rv.get("mut"):
                            write(m, rv["p"], False)
                t = b["t"]
                if not t:
                    continue
                if t[0] == "call":
                    write(m, t[3])
                    f = t[1]
                    c = f.get("fn") if f.get("k") == "const" else None
                    if c is None or "inst" not in c and "closure" not in c:
                        for a in t[2]:
                            if a.get("k") in ("move", "copy"):
                                _, ty = ty_of(m, a["p"])
                                ty = p.ty(ty) if ty is not None else {"k": "?"}
                                if ty["k"] in ("ref", "ptr") and ty.get("mut"):
                                    to = p.ty(ty["to"])
                                    if to["k"] == "adt":
                                        out.add((to["path"], None))
                elif t[0] == "drop":
                    pass
        return out

    def mods(self, i):
        """{(type, field or None for all)} that body i or anything it reaches may write"""
        if not hasattr(self, "_md"):
            self._md, self._mdc = {}, {}
        if i not in self._mdc:
            out = set()
            for k in self.reach_from([i]):
                if k not in self._md:
                    self._md[k] = self._mods(k)
                out |= self._md[k]
            self._mdc[i] = out
        return self._mdc[i]
