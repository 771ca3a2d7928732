import re
from engine.report import *
from engine import entry, models
from engine.models import variants, norm
from engine.term import *
from engine.term import mkseq, lin, concat, seq_len
from engine.facts import holds
from engine.interp import EPOCH, monobj
from engine.interp import ok_, err_

APPEND = lambda e: e.startswith("hypercore::") and e.endswith(("::append", "::append_batch"))
GET = lambda e: e.startswith("hypercore::") and e.endswith("::get")
INFO = lambda e: e.startswith("hypercore::") and e.endswith("::info")
WRITES = ("put", "put_compare_and_swap", "del", "del_compare_and_swap", "create_header")
HANDLES = ("tree::Tree", "hb::Hyperbee", "prefixed::Prefixed")


def methods(p, ty, name):
    """bodies of ty::name (however the impl block is placed); generic instances first"""
    last = ty.split("::")[-1]
    out = []
    for i, r in enumerate(p.raw):
        if r["kind"] != "fn" or r.get("trait"):
            continue
        path = r["path"]
        if path == ty + "::" + name or path.endswith("<impl %s>::%s" % (ty, name)):
            out.append(p.body(i))
    return out


def public_methods(p, ty):
    out = {}
    for i, r in enumerate(p.raw):
        if r["kind"] != "fn" or r.get("trait") or not r.get("pub"):
            continue
        path = r["path"]
        if path.startswith(ty + "::") and "::" not in path[len(ty) + 2:] or "<impl %s>::" % ty in path and "::" not in path.split(">::", 1)[1]:
            out.setdefault(path.split("::")[-1], []).append(p.body(i))
    return out


def is_header(data):
    """does the appended block hold an encoded header message?"""
    for x in subterms(data):
        if x.op == "app" and x.a[0] in ("enc",) and x.a[1][0].op == "const":
            return x.a[1][0].a[0].endswith("Header")
    return False


def res(ip, st, v):
    """[(state, 'ok'|'err', payload)] of a returned Result; non-Result values count as ok"""
    t = ip.p.ty(v.a[2]) if v.op == "app" else None
    if v.op == "agg" and v.a[0] != "adt:std::result::Result" or t and (t["k"] != "adt" or t["path"] != "std::result::Result"):
        return [(st, "ok", v)]
    return [(s, "ok" if k == 0 else "err", fs[0]) for s, k, fs in variants(ip, st, v)]


def changed(ip, st, v, name):
    """[(state, True/False)]: does the payload of a write's result report a change?"""
    def option(st, v):
        return [(s, k == 1, fs) for s, k, fs in variants(ip, st, v)]
    if name == "put":
        return [(st, True)]
    if name == "put_compare_and_swap":
        return [(s, b) for s, b, _ in option(st, fieldv(ip, v, 1))]
    if name == "del":
        return [(s, b) for s, b, _ in option(st, v)]
    if name == "del_compare_and_swap":
        out = []
        for s, b, fs in option(st, v):
            if not b:
                out.append((s, False))
                continue
            f = fieldv(ip, fs[0], 0)
            for c in (True, False):
                s2 = s.copy()
                h = holds(s2, ip.as_bool(f))
                if h is None:
                    from engine.facts import assume
                    if assume(s2, ip.as_bool(f) if c else neg(ip.as_bool(f))):
                        out.append((s2, c))
                elif h is c:
                    out.append((s2, c))
        return out
    return [(st, True)]


def fieldv(ip, v, i):
    return ip.field(v, i, None)


def write_roots(p, handles=("tree::Tree",), names=("put", "put_compare_and_swap", "del", "del_compare_and_swap")):
    for h in handles:
        for n in names:
            bs = methods(p, h, n)
            if bs:
                yield h, n, bs[0]


_bare = {}


def bare(t):
    """the term without type annotations, sequences in one form"""
    r = _bare.get(t)
    if r is None:
        if t.op == "app":
            a = _bare_x(t.a[1])
            if t.a[0] == "cat":
                r = concat(*a)
            elif t.a[0] == "len" and len(a) == 1 and a[0].op == "seq":
                r = seq_len(a[0])
            else:
                r = mk("app", t.a[0], a, None)
        elif t.op == "lin":
            r = C(t.a[0])
            for x, k in t.a[1]:
                r = add(r, bare(x), k)
        elif t.op == "seq":
            ps = []
            for p in t.a:
                p = mk(p.op, *_bare_x(p.a))
                if p.op == "c" and p.a[3].op == "app" and p.a[3].a[0] == "elem" and p.a[3].a[1][0].op == "seq" and p.a[3].a[1][1].op == "bv" \
                        and p.a[1] is ZERO and p.a[2] is seq_len(p.a[3].a[1][0]):
                    ps.extend(p.a[3].a[1][0].a)
                else:
                    ps.append(p)
            r = mkseq(ps)
        else:
            r = mk(t.op, *_bare_x(t.a))
        _bare[t] = r
    return r


def _bare_x(x):
    if isinstance(x, T):
        return bare(x)
    if isinstance(x, tuple):
        return tuple(_bare_x(y) for y in x)
    return x


def seqform(t):
    """bytes behind references to opaque slices count as the slice"""
    b = bare(t)
    while b.op == "app" and b.a[0] == "at" and len(b.a[1]) == 1:
        b = b.a[1][0]
    return b
