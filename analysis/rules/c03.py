"""Typestate of the caller's predicate along every path of put/del_compare_and_swap (abstract interpretation,
loops generalised): the opaque predicate is called at most once, before any data append; a data append and a
result that reports a change need the recorded answer to be true on that path, a result that reports no change
although an entry was offered needs it to be false; the entry offered as new is the one with the caller's key
and value under the sequence number of the block to be appended, and the entry offered as stored is the one
at the position the search reported."""
from .common import *
from . import worlds


def some_(x):
    return models.some(x)


class Cas(Monitor):
    events = ("fncall", "appended", "core_append", "quiet_call")

    def __init__(self, R, pred, name):
        super().__init__(R)
        self.pred, self.name = pred, name
        self.keyv = self.valv = None
        self.calls = {}

    def on_fncall(self, ip, st, f, args, call, result):
        if f is not self.pred:
            return
        n = cval(st.mon("cas", ZERO))
        if n >= 1:
            self.bad(ip, "predicate called again", "the predicate is called a second time on this path")
        else:
            self.ok("predicate called once")
        st.setmon("cas", C(n + 1))
        st.setmon("answer", ip.as_bool(result))
        d = cval(st.mon("data", ZERO))
        if d:
            self.bad(ip, "predicate after append", "the predicate is called after a data block was appended")
        self.args(ip, st, args)

    def on_quiet_call(self, ip, st, body, args, call):
        v = mk("ctxf", call.ctx, body.idx)
        self.calls[v] = tup(*[models.deep(ip, st, a) for a in args], *args)
        if self.is_search(ip, body):
            st.setmon("search", v)

    def is_search(self, ip, body):
        """returns (match, path)"""
        t = ip.p.ty(body.locals[0])
        if t["k"] == "adt" and t["path"] == "std::result::Result":
            t = ip.p.ty(t["args"][0])
        if t["k"] != "tuple" or len(t["elems"]) != 2:
            return False
        a, b = ip.p.ty(t["elems"][0]), ip.p.ty(t["elems"][1])
        return a.get("path") == "std::option::Option" and b.get("path") == "std::vec::Vec" and ip.p.ty(b["args"][0])["k"] == "tuple"

    def args(self, ip, st, args):
        if len(args) == 1 and args[0].op == "agg" and args[0].a[0] == "tuple":
            args = list(args[0].a[2])
        vs = [models.deep(ip, st, a) for a in args]
        old, new = (vs[0], vs[1]) if len(vs) == 2 else (None, None)
        if new is not None:
            self.entry_args(ip, st, new)
        srch = st.mon("search")
        if old is None:
            old = some_(vs[0])
        if srch is None:
            if old.op == "agg":
                # no search was made: the tree is empty
                self.R.expect(old.a[1] == 0, "%s: empty tree offers no entry" % self.root, "without a search, the predicate is shown a stored entry", call_site(ip))
            return
        ok = app("new", "ok", srch, ty=None)
        found = None
        for f, val in st.facts.items():
            # the fact that the search matched or not
            for x in subterms(f):
                if x.op == "app" and x.a[0] == "discr" and f.op == "eqz":
                    y = x.a[1][0]
                    if y.op == "app" and y.a[0] == "fld" and y.a[1][1] is ZERO and y.a[1][0].op == "app" and y.a[1][0].a[1][-1] is srch:
                        h1, h0 = holds(st, eq_int(x, ONE)), holds(st, eq_int(x, ZERO))
                        if h1 is True or h0 is False:
                            found = True
                        elif h0 is True or h1 is False:
                            found = False
        if found is None:
            self.R.open(self.root + ": stored entry", "the match of the search is not tracked")
            return
        if old.op != "agg":
            self.R.open(self.root + ": stored entry", "the offered entry is not tracked")
            return
        self.R.expect((old.a[1] == 1) is found, "%s: stored entry offered iff found" % self.root,
                      "the predicate is shown %s although the search %s" % ("an entry" if old.a[1] else "no entry", "matched" if found else "did not match"), call_site(ip))
        if old.a[1] == 1 and found:
            x = old.a[2][0]
            if x.op == "app" and x.a[0] == "new" and x.a[1][0] is not None:
                rec = self.calls.get(x.a[1][-1])
                if rec is not None:
                    self.position(ip, st, rec, srch)

    def position(self, ip, st, rec, srch):
        """the entry was read from the last element of the path the search returned"""
        for t in subterms(rec):
            if t.op == "app" and t.a[0] == "elem":
                base, i = t.a[1]
                if base.op == "app" and base.a[0] == "fld" and base.a[1][0].op == "app" and base.a[1][0].a[1][-1:] == (srch,):
                    last = sub(app("len", base), ONE)
                    h = holds(st, eq_int(i, last))
                    if h is not None:
                        self.R.expect(h, "%s: entry read where the search ended" % self.root, "the offered entry is read from another node of the path than the one matched", call_site(ip))

    def entry_args(self, ip, st, new):
        t = next((t for t in ip.p.types if t["k"] == "adt" and new.op == "agg" and "adt:" + t["path"] == new.a[0]), None)
        if t is None:
            return
        names = [f[0] for f in t["variants"][0]["fields"]]
        d = dict(zip(names, new.a[2]))
        if "key" in d and self.keyv is not None:
            self.same(ip, st, d["key"], self.keyv, "key of the new entry")
        if "value" in d and self.valv is not None:
            for s, k, fs in variants(ip, st, self.valv):
                if d["value"].op != "agg":
                    continue
                if holds(s, eq_int(app("discr", self.valv), C(k))) is True and holds(st, eq_int(app("discr", self.valv), C(k))) is True:
                    if d["value"].a[1] != k:
                        self.bad(ip, "value of the new entry", "the predicate is shown a new entry with%s value" % ("out" if k else " a"))
                    elif k:
                        self.same(ip, s, d["value"].a[2][0], ip.at(s, fs[0]), "value of the new entry")
        if "seq" in d:
            st.setmon("newseq", d["seq"])

    def same(self, ip, st, a, b, what):
        if a is b:
            self.ok(what, "is the caller's")
        elif a.unk or b.unk or any(x.op == "app" and x.a[0] in ("new", "itv", "res", "unk") for x in subterms(a)):
            self.R.open("%s: %s" % (self.root, what), show(a)[:80])
        else:
            self.bad(ip, what, "%s is not the caller's (%s)" % (what, show(a)[:100]))

    def on_core_append(self, ip, st, core, data, call):
        if is_header(data):
            return
        a = st.mon("answer")
        if a is None:
            self.bad(ip, "append without asking", "a data block is appended on a path that did not call the predicate")
            return
        h = holds(st, a)
        if h is True:
            self.ok("append only after a yes")
        elif not a.unk:
            self.bad(ip, "append after a no", "a data block is appended although the predicate's answer is not known to be true")

    def on_appended(self, ip, st, core, data, index, call):
        if is_header(data):
            return
        st.setmon("data", ONE)
        q = st.mon("newseq")
        if q is not None and not q.unk and not index.unk:
            h = holds(st, eq_int(q, index))
            if h is None and not any(x.op == "app" and x.a[0] != "loglen" for x in subterms(sub(q, index))):
                h = False
            self.R.expect(h, "%s: number of the new entry" % self.root, "the entry shown as new carries number %s, the block is appended as %s" % (show(q), show(index)), call_site(ip))


def check(p, R):
    for h, name, b in write_roots(p, HANDLES, ("put_compare_and_swap", "del_compare_and_swap")):
        k = b.nargs - 1
        m = Cas(R, app("arg", k, ty=b.locals[k + 1]), name)

        if h != "prefixed::Prefixed" and b.nargs >= 3:
            m.keyv = app("at", app("arg", 1, ty=b.locals[2]), ty=p.pointee(b.locals[2]))
            if name.startswith("put"):
                m.valv = app("arg", 2, ty=b.locals[3])

        def final(ip, st, v):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                for s2, ch in changed(ip, s, pay, name):
                    a = s2.mon("answer")
                    key = "%s: result %s" % (b.path, "changed" if ch else "unchanged")
                    if a is None:
                        none = name.startswith("del") and all(k == 0 for _, k, _ in variants(ip, s2, pay))
                        R.expect(none, key + " unasked", "a path reports %s without calling the predicate" % ("a change" if ch else "no change"), b.span)
                    else:
                        hh = holds(s2, a)
                        if hh is None and a.unk:
                            R.open(key, "the answer is not tracked on some path")
                        else:
                            R.expect(hh is ch, key, "a path reports %s when the answer was %s" % ("a change" if ch else "no change", hh), b.span)
        analyse(R, p, b, [m], lambda e: APPEND(e) or INFO(e), fncall=True, final=final)
    worlds.decide(p, R, "C03")
