"""Value flow with sequence terms. Every sub-tree operation hands the tree the key prefix ++ separator ++ given key.
For a traversal the bounds handed to the tree are compared, case by case, with the ones the property needs: a finite
bound is prefixed and keeps its inclusiveness; an open lower end becomes prefix ++ separator, inclusive; an open upper
end becomes, exclusively, the least byte string above every key with that prefix (the prefix cut after its last byte
other than 0xFF, that byte incremented), or stays open only where all its bytes are known to be 0xFF; direction is
kept; each yielded key loses exactly the length of prefix ++ separator and nothing else changes."""
from .common import *
from .c21 import Calls, Log, leaves, OPS, TREE
from engine.term import mkseq, seq_len, concat, part_at

SUB = "prefixed::Prefixed"
BOUNDS = "traverse::TraverseConfig"


def adt(p, path):
    return next((t for t in p.types if t["k"] == "adt" and t["path"] == path), None)


def fields(p, path, variant=0):
    t = adt(p, path)
    return [f[0] for f in t["variants"][variant]["fields"]] if t else []


def vname(p, path, k):
    return adt(p, path)["variants"][k]["name"]


def own(ip, st, b):
    """(prefix, separator) of the sub-tree"""
    p = ip.p
    s = ip.at(st, app("arg", 0, ty=b.locals[1]), p.pointee(b.locals[1]))
    t = adt(p, SUB)
    pre = sep = None
    for i, (name, ty) in enumerate(t["variants"][0]["fields"]):
        x = p.ty(ty)
        if x.get("path") == "std::vec::Vec":
            pre = ip.field(s, i, None)
        elif x["k"] == "adt" and x["path"] == "prefixed::PrefixedConfig":
            sep = ip.field(ip.field(s, i, None), 0, None)
    return pre, sep


def flat(t):
    return seqform(t)


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    leaf = leaves(p)
    log = Log()
    log.core = g.reaching(lambda e: e.startswith("hypercore::") and e.endswith(("::append", "::append_batch", "::get", "::info")))
    rel = (set(range(len(p.raw))) - log.core) | g.closure(list(leaf))
    if adt(p, SUB) is None:
        R.open("sub-trees", "no type " + SUB)
        return
    for h in (SUB, "ffi::Prefixed"):
        for n in OPS + ("delete",):
            for b in methods(p, h, n)[:1]:
                root(p, R, g, b, n, leaf, rel, log, h)


def root(p, R, g, b, n, leaf, rel, log, h):
    def setup(ip):
        ip.graph, ip.relevant, ip.leaf, ip.cap, ip.blob = g, rel, leaf, 64, True

    def final(ip, st, v):
        lc = st.mon("call")
        if lc is None:
            return                          # C21: one call
        op, vs, nm, idx = lc.a
        if not feasible(st):
            return
        if n == "traverse":
            if op == "traverse" and len(vs) > 1 and h == SUB:
                bounds(ip, st, b, vs[1], R)
                result(ip, st, b, v, nm, R)
            return
        if op not in ("get", "put", "put_compare_and_swap", "del", "del_compare_and_swap") or len(vs) < 2:
            return
        key(ip, st, b, vs[1], R)

    m = Calls(R, p, leaf, log)
    analyse(R, p, b, [m], None, setup=setup, final=final)


def holder(ip, st, b):
    """where the prefix and separator are kept: the sub-tree behind the handle"""
    pre, sep = own(ip, st, b) if b.path.startswith(SUB) else (None, None)
    return pre, sep


def key(ip, st, b, k, R):
    k = flat(k)
    what = b.path + ": key"
    mine = flat(app("arg", 1, ty=b.locals[2]))
    if b.path.startswith(SUB):
        pre, sep = own(ip, st, b)
        want = concat(flat(pre), flat(sep), mine)
        R.expect(True if k is want else None if k.unk else False, what, "the tree is given the key %s, not prefix, separator and key" % show(k)[:140], b.span)
        return
    # a foreign handle: the sub-tree's fields are read through a lock; the key must end in the given one
    parts = k.a if k.op == "seq" else ()
    ok = len(parts) == 3 and parts[2] is flat_part(mine)
    R.expect(True if ok else None if k.unk else False, what, "the tree is given the key %s, not prefix, separator and key" % show(k)[:140], b.span)


def flat_part(s):
    from engine.term import as_seq
    q = as_seq(s)
    return q.a[0] if len(q.a) == 1 else None


def feasible(st):
    """no element is known to be two things under two names of one position"""
    el = {}
    for f, val in st.facts.items():
        if f.op == "eqz":
            for x in subterms(f):
                if x.op == "app" and x.a[0] == "elem":
                    el.setdefault(x.a[1][0], set()).add(x.a[1][1])
    for base, ix in el.items():
        for sym, lo, hi, fs in st.quant:
            for f, val in fs:
                for i in ix:
                    if holds(st, conj(ge0(sub(i, lo)), ge0(sub(sub(hi, i), ONE)))) is True:
                        h = holds(st, subst(f, {sym: i}))
                        if h is not None and h is not val:
                            return False
        ix = list(ix)
        for a in range(len(ix)):
            for c in range(a):
                if holds(st, eq_int(ix[a], ix[c])) is True:
                    for f, val in st.facts.items():
                        if any(x.op == "app" and x.a[0] == "elem" and x.a[1] == (base, ix[a]) for x in subterms(f)):
                            g2 = replace_elem(f, base, ix[a], ix[c])
                            h = holds(st, g2)
                            if h is not None and h is not val:
                                return False
    return True


def replace_elem(f, base, i, j):
    m = {}
    for x in subterms(f):
        if x.op == "app" and x.a[0] == "elem" and x.a[1] == (base, i):
            m[x] = app("elem", base, j, ty=x.a[2])
    return subst(f, m)


def limit(ip, st, v):
    """[(state, 'Finite'|'Positive'|'Negative', bytes)]"""
    p = ip.p
    out = []
    for s, k, fs in variants(ip, st, v):
        if vname(p, "traverse::LimitValue", k) == "Finite":
            out.append((s, "Finite", fs[0]))
        else:
            for s2, k2, _ in variants(ip, s, fs[0]):
                out.append((s2, vname(p, "keys::InfiniteKeys", k2), None))
    return out


def bounds(ip, st, b, conf, R):
    p = ip.p
    names = fields(p, BOUNDS)
    given = ip.at(st, app("arg", 1, ty=b.locals[2]), p.pointee(b.locals[2]))
    conf = models.deep(ip, st, conf)
    if conf.op != "agg":
        R.open(b.path + ": bounds", show(conf)[:80])
        return
    G = {n: ip.field(given, i, None) for i, n in enumerate(names)}
    H = {n: ip.field(conf, i, None) for i, n in enumerate(names)}
    pre, sep = own(ip, st, b)
    P = concat(flat(pre), flat(sep))
    boolean(ip, st, b, "direction", H["reversed"], ip.as_bool(G["reversed"]), R)
    for end, gi in (("min", "Negative"), ("max", "Positive")):
        for s, kind, key in limit(ip, st, G[end + "_value"]):
            for s2, kind2, key2 in limit(ip, s, H[end + "_value"]):
                one(ip, s2, b, end, kind, key, kind2, key2, ip.as_bool(G[end + "_inclusive"]), H[end + "_inclusive"], P, R)


def boolean(ip, st, b, what, x, want, R):
    x = ip.as_bool(x)
    if x is want:
        h = True
    elif x.unk:
        h = None
    else:
        hx, hw = holds(st, x), holds(st, want)
        h = hx == hw if hx is not None and hw is not None else False
    R.expect(h, "%s: %s" % (b.path, what), "%s: the bounds given to the tree have %s instead of %s" % (what, show(x)[:60], show(want)[:60]), b.span)


def one(ip, st, b, end, kind, key, kind2, key2, inc, inc2, P, R):
    what = "%s bound, given %s" % (end, kind.lower())
    k = "%s: %s" % (b.path, what)

    def value(want):
        if kind2 != "Finite":
            R.bad(k, "%s: the tree gets an infinite bound" % what, b.span)
            return False
        x = flat(key2)
        R.expect(True if x is want else None if x.unk else False, k, "%s: the tree gets the bound %s" % (what, show(x)[:120]), b.span)
        return x is want

    if kind == "Finite":
        if value(concat(P, flat(key))):
            boolean(ip, st, b, what + ", inclusiveness", inc2, inc, R)
    elif end == "min" and kind == "Negative":
        if value(P):
            boolean(ip, st, b, what + ", inclusiveness", inc2, TRUE, R)
    elif end == "max" and kind == "Positive":
        upper(ip, st, b, what, k, kind2, key2, inc2, P, R)
    else:
        # an empty range: it must stay empty
        R.expect(True if kind2 == kind else None, k, "%s: another bound is given" % what)


def base_of(v, P):
    """the opaque sequence that stands for prefix ++ separator in v"""
    for x in subterms(v):
        if x.op == "app" and x.a[0] == "cat" and flat(x) is P:
            return x
    return None


def upper(ip, st, b, what, k, kind2, key2, inc2, P, R):
    if kind2 == "Positive":
        for sym, lo, hi, fs in st.quant:
            for f, val in fs:
                if val is True and f.op == "eqz" and lo is ZERO:
                    for x in subterms(f):
                        if x.op == "app" and x.a[0] == "elem" and x.a[1][1] is sym and flat(x.a[1][0]) is P and bare(hi) is bare(app("len", x.a[1][0])) \
                                and f is eq_int(x, C(255)):
                            R.ok(k + ", all bytes 0xFF", "no key beyond the prefix's")
                            return
        looped = any(ip.p.raw[i]["kind"] != "coroutine" and ip.p.body(i).loops for i in ip.visited)
        if looped or any(f.unk or any(x.op == "it" or x.op == "app" and x.a[0] == "trip" for x in subterms(f)) for f in st.facts):
            R.open(k, "open end on a path that is not understood")
        else:
            R.bad(k, "%s: the tree gets no upper bound although the prefix may have a byte below 0xFF" % what, b.span)
        return
    if kind2 == "Negative":
        R.bad(k, "%s: nothing is traversed" % what, b.span)
        return
    v = key2
    S = base_of(v, P)
    if v.unk or any(x.op == "it" for x in subterms(v)):
        R.open(k, show(v)[:100])
        return
    if S is None or v.op != "seq":
        # assembled in a way that does not show the prefix as one value, or something else altogether
        fv = flat(v)
        if fv is P or not any(x.op == "app" and x.a[0] == "cat" for x in subterms(v)) and known_wrong(fv, P):
            R.bad(k, "%s: the tree gets the upper bound %s" % (what, show(fv)[:120]), b.span)
        else:
            R.open(k, show(v)[:100])
        return
    parts = v.a
    last = parts[-1]
    good = None
    if last.op == "e":
        for x in [last.a[0]] + [x for x in subterms(last.a[0])]:
            if x.op == "app" and x.a[0] == "elem" and x.a[1][0] is S and add(x, ONE) is last.a[0]:
                i = x.a[1][1]
                head = mkseq(parts[:-1])
                if len(parts) == 2 and parts[0].op == "c" and parts[0].a[1] is ZERO and parts[0].a[3].op == "app" and parts[0].a[3].a[0] == "elem" and parts[0].a[3].a[1][0] is S \
                        and holds(st, eq_int(parts[0].a[2], i)) is True or len(parts) == 1 and holds(st, eq_int(i, ZERO)) is True:
                    good = i, x
    if good is None:
        R.bad(k, "%s: the tree gets the upper bound %s" % (what, show(v)[:120]), b.span)
        return
    i, x = good
    below = any(val is False and f.op == "eqz" and f is eq_int(y, C(255)) and holds(st, eq_int(y.a[1][1], i)) is True
                for f, val in st.facts.items() for y in subterms(f) if y.op == "app" and y.a[0] == "elem" and y.a[1][0] is S)
    n = app("len", S)
    rest = holds(st, eq_int(i, sub(n, ONE))) is True or any(
        val is True and f is eq_int(y, C(255)) and y.a[1][1] is sym and holds(st, ge0(sub(add(i, ONE), lo))) is True and holds(st, ge0(sub(hi, n))) is True
        for sym, lo, hi, fs in st.quant for f, val in fs for y in subterms(f) if y.op == "app" and y.a[0] == "elem" and y.a[1][0] is S)
    if below and rest:
        R.ok(k, "least string above the prefix")
        boolean(ip, st, b, what + ", inclusiveness", inc2, FALSE, R)
    elif not below:
        R.bad(k, "%s: a byte is incremented that may be 0xFF" % what, b.span)
    else:
        R.bad(k, "%s: the upper bound is cut after a byte that need not be the last one below 0xFF" % what, b.span)


def known_wrong(fv, P):
    """only pieces of the prefix alone, or constants: cannot depend on the separator"""
    if fv.op != "seq":
        return False
    bases = {x.a[1][0] for x in subterms(fv) if x.op == "app" and x.a[0] == "elem"}
    pieces = {x.a[1][0] for x in subterms(P) if x.op == "app" and x.a[0] == "elem"}
    return bases < pieces


def result(ip, st, b, v, nm, R):
    """what is yielded: the tree's items with the prefix and separator cut off their keys"""
    for s, k, pay in res(ip, st, v):
        if k == "err":
            continue
        v = models.deep(ip, s, pay)
        src, fs = v, []
        while src.op == "agg" and src.a[0] == "streammap":
            fs.append(src.a[2][1])
            src = src.a[2][0]
        what = b.path + ": items"
        if not (src.op == "app" and src.a[0] == "new" and src.a[1][1] is nm):
            R.open(what, "stream " + show(src)[:80])
            continue
        if not fs:
            R.bad(what, "the tree's items are yielded with their full keys", b.span)
            continue
        item(ip, s, b, list(reversed(fs)), what, R)


def item(ip, st, b, fs, what, R):
    p = ip.p
    pre, sep = own(ip, st, b)
    n = bare(seq_len(concat(flat(pre), flat(sep))))
    kt = next((i for i, t in enumerate(p.types) if t["k"] == "adt" and t["path"] == "std::result::Result" and t.get("args") and isinstance(t["args"][0], int)
               and p.ty(t["args"][0]).get("path") == "traverse::KeyValueData"), None)
    if kt is None:
        kt = next((i for i, t in enumerate(p.types) if t["k"] == "adt" and t["path"] == "std::result::Result" and t.get("args") and isinstance(t["args"][0], int)
                   and p.ty(t["args"][0]).get("path", "").endswith("KeyValueData")), None)
    if kt is None:
        R.open(what, "no item type")
        return
    t = p.ty(kt)
    kv = app("new", "item", ty=t["args"][0])
    e = app("new", "itemerr", ty=t["args"][1])
    for good, arg in ((True, ok_(kv)), (False, err_(e))):
        states = [(st.copy(), arg)]
        for f in fs:
            nxt = []
            for s, x in states:
                r = call_closure(ip, s, f, [x])
                if r is None:
                    R.open(what, "the mapping is not understood")
                    return
                nxt += r
            states = nxt
        for s, x in states:
            for s2, k, pay in res(ip, s, x):
                pay = models.deep(ip, s2, pay)
                if k != ("ok" if good else "err"):
                    R.bad(what, "an item that is %s becomes %s" % ("an entry" if good else "an error", k), b.span)
                elif not good:
                    R.expect(True if pay is e else None, what + ", errors", "an error is replaced by " + show(pay)[:80], b.span)
                elif pay.unk:
                    R.open(what, show(pay)[:80])
                else:
                    names = fields(p, t_path(p, t["args"][0]))
                    for i, name in enumerate(names):
                        y, w = bare(ip.field(pay, i, None)), bare(ip.field(kv, i, None))
                        if name != "key":
                            R.expect(True if y is w else False, "%s, %s" % (what, name), "the %s of an entry becomes %s" % (name, show(y)[:80]), b.span)
                            continue
                        want = bare(mkseq([mk("c", 1, n, app("len", ip.field(kv, i, None)), app("elem", ip.field(kv, i, None), mk("bv", 1)))]))
                        R.expect(True if same_tail(s2, y, ip.field(kv, i, None), n) else None if y.unk else False, "%s, key" % what,
                                 "the key of an entry becomes %s, not what follows prefix and separator" % show(y)[:100], b.span)


def t_path(p, i):
    return p.ty(i)["path"]


def same_tail(st, y, key, n):
    """y = key[n..]"""
    if y.op == "seq" and not y.a:
        return barely(st, sub(n, bare(app("len", key))))
    if y is bare(key):
        return n is ZERO or barely(st, n)
    if y.op != "seq" or len(y.a) != 1 or y.a[0].op != "c":
        return False
    _, lo, hi, tm = y.a[0].a
    if not (tm.op == "app" and tm.a[0] == "elem" and tm.a[1][0] is bare(key)):
        return False
    i0 = part_at(y.a[0], lo).a[1][1]
    return bare(i0) is n and bare(add(i0, sub(hi, lo))) is bare(app("len", key))


def barely(st, l):
    """is the difference known to be zero, whatever types the facts carry?"""
    s = type(st)()
    for f, v in st.facts.items():
        s.set_fact(bare_fact(f), v)
    return holds(s, eq_int(l, ZERO)) is True


def bare_fact(f):
    if f.op in ("ge0", "eqz"):
        return mk(f.op, bare(f.a[0]))
    return bare(f)


def call_closure(ip, st, f, args):
    keep = ip.monitors, ip.handlers
    ip.monitors, ip.handlers = [], {}
    try:
        return ip.call_fun(st, f, args)
    except Exception:
        return None
    finally:
        ip.monitors, ip.handlers = keep
