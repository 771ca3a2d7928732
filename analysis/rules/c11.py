"""Truth tables of every comparison between a bound and bytes are derived by abstract interpretation and compared with
the order of byte strings extended by the two infinities. The position found inside a node is proven by inductive
invariants of the loop: everything below the lower end compares below the key, everything from the upper end on above
it; the result follows from them at each exit, and a match needs an entry known to compare equal. The descent takes the
child at that position and passes on the caller's key."""
from .common import *
from .c07 import SEARCH, INDEX, ENTRY, NODE, Calls, okof, decided, equal, matched
from .c17 import g, by_signature, fields_of, result_ty

LESS, EQUAL, GREATER = -1, 0, 1
WANT = {"lt": (LESS,), "le": (LESS, EQUAL), "gt": (GREATER,), "ge": (GREATER, EQUAL), "eq": (EQUAL,), "ne": (LESS, GREATER)}


# ------------------------------------------------------------ comparisons
def pointee(p, i):
    t = p.ty(i)
    while t["k"] in ("ref", "ptr"):
        t = p.ty(t["to"])
    return t


def is_bytes(p, i):
    t = pointee(p, i)
    return t["k"] in ("slice", "array") and p.tys(t["to"]) == "u8" or t["k"] == "adt" and t["path"] == "std::vec::Vec" and t["args"] and p.tys(t["args"][0]) == "u8"


def infinity(name):
    n = name.lower()
    return 1 if n.startswith("pos") or n.startswith("plus") or n == "max" else -1 if n.startswith("neg") or n.startswith("minus") or n == "min" else None


def which(p, ip, st, v, ty, d=0):
    """[(state, 'below' | 'above' | ('bytes', value) | None)] for a bound"""
    t = p.ty(ty)
    if t["k"] != "adt" or d > 3:
        return [(st, None)]
    if t["path"] == "std::vec::Vec":
        return [(st, ("bytes", v))]
    vs = t.get("variants") or []
    if not t.get("enum") and len(vs) == 1:
        fs = vs[0]["fields"]
        return which(p, ip, st, ip.field(v, 0, None), fs[0][1], d + 1) if len(fs) == 1 else [(st, None)]
    out = []
    for s, k, fs in variants(ip, st, v):
        n = vs[k]["name"] if k < len(vs) else ""
        if not vs[k]["fields"]:
            x = infinity(n)
            out.append((s, None if x is None else "above" if x > 0 else "below"))
        elif len(vs[k]["fields"]) == 1:
            out.extend(which(p, ip, s, fs[0], vs[k]["fields"][0][1], d + 1))
        else:
            out.append((s, None))
    return out


def bytes_of(ip, st, v):
    v = seqform(models.deep(ip, st, v))
    return v


def sign_of(ip, st, v):
    """an Ordering value as a term whose sign it is"""
    if v.op == "agg" and v.a[0].endswith("Ordering"):
        return C(v.a[1] - 1)
    if v.op == "app" and v.a[0] == "ofint":
        return v.a[1][0]
    return None


def compares(st, t, a, b):
    """does term t compare a with b?  1: in this order, -1: the other way round, 0: equality only"""
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and abs(t.a[1][0][1]) == 1:
        d = compares(st, t.a[1][0][0], a, b)
        return d and d * t.a[1][0][1]
    if t.op == "app" and t.a[0] in ("cmp", "bcmp") and len(t.a[1]) == 2:
        x, y = seqform(t.a[1][0]), seqform(t.a[1][1])
        if x is a and y is b:
            return 1
        if x is b and y is a:
            return -1
    return None


def has_infinity(p, t, d=0):
    if t["k"] != "adt" or t["path"].startswith(("std::", "core::", "alloc::")) or d > 3:
        return False
    return any(infinity(v["name"]) is not None and not v["fields"] or len(v["fields"]) == 1 and has_infinity(p, p.ty(v["fields"][0][1]), d + 1)
               for v in t.get("variants") or ())


def table(p, R):
    n = 0
    for i, r in enumerate(p.raw):
        tr = (r.get("trait") or "").split("::")[-1]
        if r["kind"] != "fn" or tr not in ("PartialEq", "PartialOrd", "Ord") or r["name"] not in ("eq", "ne", "partial_cmp", "cmp", "lt", "le", "gt", "ge"):
            continue
        b = p.body(i)
        if b.nargs != 2:
            continue
        tys = [b.locals[1], b.locals[2]]
        by = [is_bytes(p, x) for x in tys]
        if by[0] == by[1]:
            continue
        side = by.index(False)
        bound = pointee(p, tys[side])
        if not has_infinity(p, bound):
            continue
        n += 1
        bi = next(k for k, t in enumerate(p.types) if t is bound)
        sgn = 1 if side == 0 else -1

        def final(ip, st, v, b=b, side=side, bi=bi, sgn=sgn, name=r["name"]):
            args = [app("arg", k, ty=b.locals[k + 1]) for k in (0, 1)]
            key = bytes_of(ip, st, ip.at(st, args[1 - side]))
            bound = ip.at(st, args[side])
            for s, w in which(p, ip, st, bound, bi):
                if w is None:
                    R.open(b.path, "a bound of unknown meaning")
                    continue
                label = w if isinstance(w, str) else "finite"
                k = "%s: %s bound" % (b.path, label)
                for s2, got in outcome(ip, s, v, name):
                    if got is None:
                        R.open(k, "the result is not tracked")
                        continue
                    if isinstance(w, str):
                        want = sgn if w == "above" else -sgn
                        if name in WANT:
                            want = want in WANT[name]
                        if isinstance(got, T):
                            R.expect(False if decided(got) else None, k, "the result depends on %s" % show(got)[:80], b.span)
                            continue
                        R.expect(got == want, k, "a bound %s every key compares as %s" % (w, got), b.span)
                        continue
                    x = bytes_of(ip, s2, w[1])
                    a, c = (x, key) if side == 0 else (key, x)
                    finite(R, ip, s2, got, a, c, k, name, b)
        def setup(ip):
            ip.graph = g(p)
            ip.cap = 64
        analyse(R, p, b, [Monitor(R)], None, setup=setup, final=final)
    R.expect(n > 0 or None, "comparisons between bounds and bytes", "", "")


def outcome(ip, st, v, name):
    """[(state, python number/bool or a term)]"""
    if name in WANT:
        c = ip.as_bool(v)
        h = holds(st, c)
        return [(st, h if h is not None else c)]
    if name == "partial_cmp":
        out = []
        for s, k, fs in variants(ip, st, v):
            if k == 0:
                out.append((s, "incomparable"))
                continue
            t = sign_of(ip, s, fs[0])
            out.append((s, None if t is None else cval(t) if cval(t) is not None else t))
        return out
    t = sign_of(ip, st, v)
    return [(st, None if t is None else cval(t) if cval(t) is not None else t)]


def relation(st, a, b):
    """possible signs of a compared with b, or None when nothing compares them"""
    poss = {-1, 0, 1}
    seen = False
    for f, val in list(st.facts.items()):
        for t in subterms(f):
            if t.op != "app":
                continue
            if t.a[0] == "eq" or t.op == "eq":
                pass
            d = compares(st, t, a, b)
            if d is not None:
                seen = True
                for s in (-1, 0, 1):
                    if s in poss and holds(st, eq_int(t, C(s * d))) is False:
                        poss.discard(s)
    for f, val in st.facts.items():
        q = f
        if q.op in ("eq",) or q.op == "app" and q.a[0] == "eq":
            x = q.a if q.op == "eq" else q.a[1]
            if {seqform(x[0]), seqform(x[1])} == {a, b}:
                seen = True
                poss &= {0} if val else {-1, 1}
    if holds(st, eq_int(length(st, a), length(st, b))) is False:
        seen = True
        poss &= {-1, 1}
    return poss if seen else None


def length(st, a):
    """length of a byte string as the facts name it"""
    for f in st.facts:
        for t in subterms(f):
            if t.op == "app" and t.a[0] == "len" and len(t.a[1]) == 1 and seqform(t.a[1][0]) is a:
                return t
    return seq_len(a)


def finite(R, ip, st, got, a, b, k, name, body):
    """the result of comparing the bytes a with b"""
    rel = relation(st, a, b)
    if isinstance(got, T):
        d = compares(st, got, a, b)
        if d is not None and name not in WANT:
            R.expect(d == 1, k, "bytes are compared in the wrong direction", body.span)
            return
        if name in WANT:
            t = next((x for x in subterms(got) if compares(st, x, a, b) is not None), None)
            if t is not None:
                d = compares(st, t, a, b)
                res = []
                for s in (-1, 0, 1):
                    m = subst(got, {t: C(s * d)})
                    res.append(holds(st, m) == (s in WANT[name]) if holds(st, m) is not None else None)
                R.expect(False if False in res else None if None in res else True, k, "bytes are compared as %s" % show(got)[:80], body.span)
                return
            e = got
            pos = True
            while e.op == "not":
                e, pos = e.a[0], not pos
            x = e.a if e.op == "eq" else e.a[1] if e.op == "app" and e.a[0] == "eq" else None
            if x is not None and {seqform(x[0]), seqform(x[1])} == {a, b}:
                R.expect(name == ("eq" if pos else "ne"), k, "equality of bytes is returned for %s" % name, body.span)
                return
        R.expect(wrong(got, a, b), k, "finite bounds compare by %s" % show(got)[:100], body.span)
        return
    if rel is None:
        R.expect(False if not any(t.unk for t in st.facts) else None, k, "the result %s does not depend on the bytes" % got, body.span)
        return
    if name in WANT:
        ok = all((s in WANT[name]) == got for s in rel)
    else:
        ok = rel == {got}
    R.expect(ok, k, "bytes that compare as one of %s give %s" % (sorted(rel), got), body.span)


def wrong(t, a, b):
    """a decided result that is no comparison of the whole of both byte strings"""
    if not decided(t):
        return None
    xs = set(subterms(t))
    for x in xs:
        if x.op == "app" and x.a[0] in ("cmp", "bcmp", "eq"):
            return False
        if x.op == "app" and x.a[0] in ("len", "pure", "starts_with"):
            return False
    return None


# ------------------------------------------------------------ position in a node
class Entries(Calls):
    def key_of(self, p, t):
        """entry call whose key t is"""
        t = seqform(t)
        while t.op == "app" and t.a[0] == "at":
            t = t.a[1][0]
        f = fields_of(p, "KeyValueData").get("key")
        if t.op == "app" and t.a[0] == "fld" and cval(t.a[1][1]) == f:
            v = okof(t.a[1][0])
            if v is not None and v in self.calls and self.calls[v][0] == "entry":
                return v
        return None


def is_key(t):
    """the caller's key as a whole"""
    t = bare(t)
    while t.op == "app" and t.a[0] in ("at", "vf"):
        t = t.a[1][0]
    return t.op == "app" and t.a[0] == "arg" and cval(t.a[1][0] if isinstance(t.a[1][0], T) else C(t.a[1][0])) == 1


def numbers(call):
    """position argument of an entry call"""
    return next((a for a in reversed(call[1][1:]) if a.op in ("lin", "it", "bv") or a.op == "app" and a.a[0] != "at"), None)


def compared(p, st, m):
    """{entry call: possible signs of its key compared with the searched one}"""
    out = {}
    for f, val in st.facts.items():
        for t in [f] if f.op == "eq" else []:
            pair(p, st, m, t.a[0], t.a[1], None, val, out, t)
        for t in subterms(f):
            if t.op == "app" and t.a[0] in ("cmp", "bcmp") and len(t.a[1]) == 2:
                pair(p, st, m, t.a[1][0], t.a[1][1], t, None, out, t)
            elif t.op == "app" and t.a[0] == "eq" and t is f:
                pair(p, st, m, t.a[1][0], t.a[1][1], None, val, out, t)
    return out


def pair(p, st, m, x, y, t, val, out, whole):
    for a, b, d in ((x, y, 1), (y, x, -1)):
        v = m.key_of(p, a)
        if v is None or not is_key(b):
            continue
        s = out.setdefault(v, {-1, 0, 1})
        if t is None:
            s &= {0} if val else {-1, 1}
        else:
            for k in (-1, 0, 1):
                if k in s and holds(st, eq_int(t, C(k * d))) is False:
                    s.discard(k)
        return


class Side:
    """lower: every entry before x is below the key.  upper: every entry from x on is above it"""

    def __init__(self, lower, n):
        self.lower, self.n = lower, n

    def given(self, st, m, rel, x):
        """does x satisfy the claim by what was compared?  True / 'no' (contradicted) / None"""
        if self.lower:
            if holds(st, le(x, ZERO)):
                return True
        elif self.n is not None and holds(st, le(self.n, x)):
            return True
        out = None
        for v, s in rel.items():
            pos = numbers(m.calls[v])
            if pos is None:
                continue
            if self.lower:
                if s == {-1} and holds(st, le(x, add(pos, ONE))):
                    return True
                if -1 not in s and holds(st, le(add(pos, ONE), x)):
                    out = "no"
            else:
                if s == {1} and holds(st, le(pos, x)):
                    return True
                if 1 not in s and holds(st, le(x, pos)):
                    out = "no"
        return out

    def implied(self, st, x, y):
        """claim for x follows from the claim for y"""
        return holds(st, le(x, y) if self.lower else le(y, x)) is True


def at_path(v, path):
    for i in path:
        if isinstance(i, tuple):
            if v is None or v.op != "seq" or i[1] >= len(v.a) or v.a[i[1]].op != "e":
                return None
            v = v.a[i[1]].a[0]
        else:
            if v is None or v.op != "agg" or i >= len(v.a[2]):
                return None
            v = v.a[2][i]
    return v


def is_num(v):
    return v is not None and (v.op == "lin" or v.op == "app" and v.a[0] not in ("new", "at") or v.op in ("it",))


def invariants(p, ip, m, n, log):
    """{(lower?, leaf value at the head, offset)} that hold at every loop head, and whether every step was understood"""
    proven, understood = [], True
    for fr, head, S1s, base, modes, Gk, mine, q, n0, key, L in log:
        leaves = [(lambda s: C(n0), lambda s: add(q, ONE), q)]        # the number of the iteration
        for (o, path), mode in modes.items():
            if o.op == "mon" or o not in Gk.mem:
                continue
            v = at_path(Gk.mem[o], path)
            if not is_num(v):
                continue
            if mode[0] == "itv" and not v.unk or mode[0] in ("affine",):
                def now(s, o=o, path=path):
                    x = at_path(s.mem[o], path) if o in s.mem else None
                    return x if x is not None and (is_num(x) or cval(x) is not None) else None
                leaves.append((now, now, v))
        for lower in (True, False):
            sd = Side(lower, n)
            for first, after, v in leaves:
                for c in (-1, 0, 1):
                    ok = True
                    for s, step in [(s, False) for s in S1s] + [(s, True) for s in mine]:
                        x = after(s) if step else first(s)
                        if x is None:
                            ok = False
                            break
                        x = add(x, C(c))
                        if step and sd.implied(s, x, add(v, C(c))):
                            continue
                        if sd.given(s, m, compared(p, s, m), x) is not True:
                            ok = False
                            break
                    if ok:
                        proven.append((lower, v, c))
        for first, after, v in leaves:
            for s in mine:
                x = after(s)
                if x is None:
                    understood = False
                    continue
                if x is v:
                    continue
                rel = compared(p, s, m)
                if is_const(sub(x, v)):
                    continue
                if not any(numbers(m.calls[e]) is not None and is_const(sub(x, numbers(m.calls[e]))) for e in rel):
                    understood = False
    return proven, understood


def placing(p, R):
    done = 0
    for b in by_signature(p, [NODE, r"^&"], INDEX):
        if p.tys(b.locals[2]) not in ("&[u8]",):
            continue
        done += 1
        m = Entries(R)
        log = []
        outs = []

        def final(ip, st, v):
            outs.append((st, v))

        def setup(ip, b=b, log=log):
            ip.graph = g(p)
            ip.cap = 64
            ip.loop_log = log
            ent = {i for i, r in enumerate(p.raw) if r["kind"] == "fn" and re.search(ENTRY, p.tys(result_ty(p, i) if result_ty(p, i) is not None else p.body(i).locals[0]))}
            ip.relevant = {i for i in g(p).reach_from([b.idx]) if i not in ent and not any(p.raw[i]["path"].startswith(p.raw[e]["path"]) for e in ent)}
        ips = []

        def keep(ip, st, v, final=final, ips=ips):
            ips.append(ip)
            final(ip, st, v)
        analyse(R, p, b, [m], None, setup=setup, final=keep)
        if not outs:
            continue
        ip = ips[0]
        keys = keys_of(p, outs)
        inv, und = invariants(p, ip, m, keys, log)
        for st, v in outs:
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                opt, ix = fieldv(ip, pay, 0), fieldv(ip, pay, 1)
                rel = compared(p, s, m)
                for s2, k, fs in variants(ip, s, opt):
                    if k == 1:
                        match_result(p, R, b, m, s2, fs[0], ix, rel)
                    else:
                        miss_result(p, R, b, m, s2, ix, rel, inv, und, keys)
    if not done:
        R.open("position in a node", "no search of a node by byte string was found")


def keys_of(p, outs):
    """number of keys of the node that is searched"""
    f = fields_of(p, "Node").get("keys")
    found = []
    for st, v in outs:
        for x in [v] + list(st.facts):
            for t in subterms(x):
                if t.op == "app" and t.a[0] == "len" and not t.unk and len(t.a[1]) == 1 and t.a[1][0].op == "app" and t.a[1][0].a[0] == "fld" \
                        and cval(t.a[1][0].a[1][1]) == f and t not in found:
                    found.append(t)
    return found[0] if found else None


def match_result(p, R, b, m, st, num, ix, rel):
    key = "%s: a match compares equal" % b.path
    hit = [v for v in rel if numbers(m.calls[v]) is not None and equal(st, numbers(m.calls[v]), ix) is True]
    if any(rel[v] == {0} for v in hit):
        R.ok(key, "an equal key")
    elif hit:
        R.bad(key, "a match is reported for a key that may be %s the searched one" % " or ".join({-1: "below", 1: "above"}[s] for s in sorted(rel[hit[0]]) if s), b.span)
    elif decided(ix) and not any(f.unk for f in st.facts):
        R.bad(key, "a match is reported although the key there was not compared", b.span)
    else:
        R.open(key, "the comparison behind the match is not tracked")


def miss_result(p, R, b, m, st, ix, rel, inv, und, n):
    if n is None:
        R.open("%s: position without a match" % b.path, "the number of keys is not tracked")
        return
    for lower in (True, False):
        key = "%s: position without a match, %s side" % (b.path, "lower" if lower else "upper")
        sd = Side(lower, n)
        gv = sd.given(st, m, rel, ix)
        if gv is True:
            R.ok(key, "by a comparison with the entry next to it")
            continue
        if gv == "no":
            R.bad(key, "position %s is returned although a key on its %s side compares %s" % (show(ix)[:80], "lower" if lower else "upper", "above the searched one" if lower else "below the searched one"), b.span)
            continue
        if any(lo == lower and sd.implied(st, ix, add(v, C(c))) for lo, v, c in inv):
            R.ok(key, "by an invariant of the loop")
            continue
        if ix.unk or not und or any(f.unk and not any(t.op == "app" and t.a[0] == "itv" for t in subterms(f)) for f in st.facts):
            R.open(key, show(ix)[:80])
            continue
        R.bad(key, "position %s is returned, but nothing shows that the keys %s it are %s the searched one" % (
            show(ix)[:80], "before" if lower else "from", "below" if lower else "above"), b.span)


# ------------------------------------------------------------ descent
class Descent(Calls):
    CHILD = r"^std::result::Result<std::sync::Arc<tokio::sync::RwLock<Node>>"

    def on_quiet_call(self, ip, st, body, args, call):
        super().on_quiet_call(ip, st, body, args, call)
        v = mk("ctxf", call.ctx, body.idx)
        s = ip.p.tys(result_ty(ip.p, body.idx) if result_ty(ip.p, body.idx) is not None else body.locals[0])
        if v in self.calls:
            kind, deep, raw = self.calls[v]
            if kind == "index":
                key = self.root + ": searched key"
                self.expect_key(ip, st, deep[-1] if len(deep) > 1 else None, raw[-1] if len(raw) > 1 else None, key, call)
            return
        if not re.search(self.CHILD, s):
            return
        ops = args
        if len(args) == 2 and args[0].op in ("agg", "ptr"):
            c = models.deep(ip, st, args[0])
            if c.op == "agg" and c.a[0].startswith("coroutine"):
                ops = list(c.a[2])
        if len(ops) < 2:
            return
        ix = models.deep(ip, st, ops[1])
        key = self.root + ": child descended into"
        x = ix.op == "app" and ix.a[0] == "fld" and cval(ix.a[1][1]) == 1 and okof(ix.a[1][0]) or None
        if x is None or x not in self.calls or self.calls[x][0] != "index":
            bases = [okof(t.a[1][0]) for t in subterms(ix) if t.op == "app" and t.a[0] == "fld" and okof(t.a[1][0]) in self.calls]
            self.R.expect(False if decided(ix) or bases and not ix.unk and ix.op == "lin" else None, key,
                          "the child at %s is searched, not the one the comparison indicates" % show(ix)[:80], call_site(ip))
            return
        self.R.ok(key, "the position found in the node")
        # a match ends the search
        M = fld(ix.a[1][0], 0)
        ks = {k for _, k, _ in variants(ip, st.copy(), ip.field(ix.a[1][0], 0, None))}
        self.R.expect(ks == {0}, self.root + ": a match ends the search", "the search goes on below a node although it may have matched there", call_site(ip))

    def expect_key(self, ip, st, d, raw, key, call):
        if d is None:
            return
        if is_key(d) or raw is not None and is_key(raw):
            self.R.ok(key, "the caller's key")
        else:
            self.R.expect(False if not d.unk and any(t.op == "app" and t.a[0] == "arg" for t in subterms(d)) and not any(t.op == "app" and t.a[0] in ("new", "itv") for t in subterms(d)) else None, key,
                          "a node is searched for %s instead of the caller's key" % show(d)[:80], call_site(ip))


def descending(p, R):
    from .c07 import run
    for b in by_signature(p, [NODE, r"^&"], SEARCH):
        m = Descent(R)

        def final(ip, st, v, b=b, m=m):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                M = fieldv(ip, pay, 0)
                for s2, k, fs in variants(ip, s, M):
                    if k == 0 and M.op == "agg":
                        idx = [x for x, c in m.calls.items() if c[0] == "index"]
                        R.expect(None if idx else False, "%s: no match without a comparison" % b.path, "no match is reported without searching a node", b.span)
        run(p, R, b, m, final)
    for n in ("get", "put_compare_and_swap", "del_compare_and_swap", "put", "del"):
        for b in methods(p, "tree::Tree", n):
            m = Asked(R)
            run(p, R, b, m, None)


class Asked(Calls):
    """the first search of an operation is for the caller's key"""

    def seen(self, ip, st, v, kind):
        if kind != "search" or st.mon("asked") is not None:
            return
        st.setmon("asked", ONE)
        _, deep, raw = self.calls[v]
        if len(deep) < 2:
            return
        Descent.expect_key(self, ip, st, deep[1], raw[1], self.root + ": searched key", None)


def check(p, R):
    g(p)
    table(p, R)
    placing(p, R)
    descending(p, R)
