"""Every path of the traversal's poll function that yields a key it read is derived by abstract interpretation; on each,
the conditions taken must exclude every relation of the key to the bounds in which it lies outside (a table over below /
equal / above, inclusive / exclusive and the infinities). The bounds reach children and the listing of positions
unchanged. The builder's checks are derived as a decision table over the relation of both bounds and compared with the
specified one."""
from .common import *
from . import scans
from .traversal import *
from .c17 import g
from .c11 import which


def yielding(p, R, m):
    proven = None
    cf = config_fields(p)
    for x in m.reached:
        out = m.item(x)
        L = m.label(x)
        kc = m.at("config")
        R.expect(True if same(x.post[kc], m.before[kc], x.st) else None if unclear(x) or not decided(x.post[kc]) else False, "poll: the bounds stay as they are",
                 "the bounds of the traversal change (%s)" % m.describe(x), m.body.span)
        if not m.known(x):
            R.open("poll: %s" % L, "the result is not tracked")
            continue
        if out is None:
            continue
        for e in x.log:
            if e[0] == "S" and m.role.get(e[1]) == "stream":
                R.expect(same(out, e[3], x.st), "poll: an item of a child is passed on", "an item of a child is replaced (%s)" % m.describe(x), m.body.span)
            if e[0] != "R" or m.role.get(e[1]) != "key":
                continue
            for s, ok, fs in variants(m.ip, x.st.copy(), e[3]):
                if ok != 0 or not (inside(out, e[3]) or inside(out, fs[0])):
                    continue
                for s2, inb, d in in_bounds(p, m, s, fs[0]):
                    key = "poll: a yielded key is within the bounds"
                    if inb is None:
                        R.open(key, "the relation to the bounds is not tracked")
                        continue
                    if not inb:
                        if proven is None:
                            proven = starting(p, Report("C12"), m, Report("C12"))
                        rv = holds(s2, m.ip.as_bool(m.ip.field(m.before[kc], cf["reversed"], None)))
                        if d["below"] and not d["above"] and rv is False and proven[False] or d["above"] and not d["below"] and rv is True and proven[True]:
                            continue        # such a key is never visited in this direction
                    R.expect(True if inb else None if unclear(x) else False, key, "a key %s is yielded (%s)" % (
                        "below or at the excluded lower bound" if d["below"] else "above or at the excluded upper bound", m.describe(x)), m.body.span)


def passing_on(p, R, m):
    """children are traversed with the same bounds"""
    k, kc = m.at("child"), m.at("config")
    done = set()
    for x in m.reached:
        if x.post[k] is m.before[k] or x.post[k].op != "agg" or x.post[k].a[1] != 1:
            continue
        fu = future_of(p, x.post[k])
        tys, f = params(p, fu[0]) if fu else (None, None)
        if f is None or len(tys) != len(fu[1]):
            R.open("children are traversed within the same bounds", "not tracked")
            continue
        js = [j for j, t in enumerate(tys) if t.endswith("TraverseConfig")]
        for j in js:
            R.expect(same(fu[1][j], m.before[kc], x.st), "children are traversed within the same bounds", "a child is traversed with other bounds: %s" % show(fu[1][j])[:150], m.body.span)
        if fu[0].idx in done:
            continue
        done.add(fu[0].idx)
        calls, ip, outs = results(p, R, f, leaf=[q for q in g(p).reach_from([f.idx]) if p.raw[q]["kind"] == "coroutine" and not p.raw[q]["path"].startswith(f.path + "::{closure")])
        for st, v in outs or []:
            for s, kind, pay in res(ip, st.copy(), v):
                if kind == "ok" and pay.op == "agg" and pay.a[0] == "adt:" + m.adt["path"] and len(js) == 1:
                    R.expect(same(pay.a[2][kc], app("arg", js[0], ty=f.locals[js[0] + 1]), s), "children are traversed within the same bounds",
                             "the traversal of a child is made with other bounds", f.span)


def iterating(p, R, m):
    Q = Report("C12")
    starting(p, Q, m, Q)
    for k in ("the bounds used for a node are those of the traversal",):
        if k in Q.viol:
            R.bad(k, Q.viol[k]["what"], Q.viol[k]["where"])
        elif k in Q.obl:
            R.ok(k, "")


def builder(p, R):
    bs = [b for b in methods(p, "traverse::TraverseConfigBuilder", "build")]
    if not bs:
        R.open("the builder", "its build function is not found")
        return
    b = bs[0]
    i = p.ty(b.locals[1])["to"] if p.ty(b.locals[1])["k"] == "ref" else b.locals[1]
    fs = {n: k for k, (n, _) in enumerate(p.ty(i)["variants"][0]["fields"])}
    tys = dict(p.ty(i)["variants"][0]["fields"])
    if not all(n in fs for n in ("min_value", "max_value", "min_inclusive", "max_inclusive")):
        R.open("the builder", "its fields are not the known ones")
        return
    lim = p.ty(tys["min_value"])["args"][0]
    m = Quiet(R)

    def setup(ip):
        ip.graph = g(p)
        ip.cap = 400
        ip.errcap = 64
        ip.relevant = g(p).reach_from([b.idx])

    def final(ip, st, v):
        a0 = app("arg", 0, ty=b.locals[1])
        me = ip.at(st, a0, i) if p.ty(b.locals[1])["k"] == "ref" else a0
        f = {n: ip.field(me, k, None) for n, k in fs.items()}
        for s, kind, pay in res(ip, st, v):
            if kind == "ok":
                carried(p, R, b, ip, s, models.deep(ip, s, pay), f)
            cases = [(s, {})]
            for n in ("min", "max"):
                nxt = []
                for s1, d in cases:
                    for s2, k, q in variants(ip, s1.copy(), f[n + "_value"]):
                        if k == 0:
                            nxt.append((s2, {**d, n: None}))
                            continue
                        for s3, w in which(p, ip, s2, q[0], lim):
                            nxt.append((s3, {**d, n: w if w is not None else "?"}))
                cases = nxt
            for s1, d in cases:
                if "?" in (d["min"], d["max"]):
                    R.open("the builder", "a bound of unknown meaning")
                    continue
                if d["min"] is None or d["max"] is None:
                    continue      # the statement is about builders given both bounds
                lo, hi = d["min"], d["max"]
                if lo == "above" or hi == "below":
                    verdict(R, b, s1, kind, False, "a lower bound above every key or an upper bound below every key", v)
                    continue
                if isinstance(lo, str) or isinstance(hi, str):
                    verdict(R, b, s1, kind, True, "an infinite bound on its own side", v)
                    continue
                t = models.bcmp(models.deep(ip, s1, lo[1]), models.deep(ip, s1, hi[1]))
                for sg in (-1, 0, 1):
                    s3 = s1.copy()
                    if not facts.assume(s3, {-1: ge0(sub(C(-1), t)), 0: eq_int(t, ZERO), 1: ge0(sub(t, ONE))}[sg]) or sg == 0 and not (facts.assume(s3, ge0(t)) and facts.assume(s3, ge0(scale(t, -1)))):
                        continue
                    if sg:
                        verdict(R, b, s3, kind, sg < 0, "a lower bound %s the upper" % ("below" if sg < 0 else "above"), v)
                        continue
                    todo = [(s3, True)]
                    for n in ("min", "max"):
                        nx = []
                        for s4, inc in todo:
                            for s5, k, q in variants(ip, s4.copy(), f[n + "_inclusive"]):
                                if k == 0:
                                    nx.append((s5, inc))      # inclusive is the default
                                    continue
                                c = ip.as_bool(q[0])
                                for h in (True, False):
                                    s6 = s5.copy()
                                    if facts.assume(s6, c if h else neg(c)):
                                        nx.append((s6, inc and h))
                        todo = nx
                    for s4, inc in todo:
                        verdict(R, b, s4, kind, inc, "equal bounds that are %sboth inclusive" % ("" if inc else "not "), v)
    analyse(R, p, b, [m], None, setup=setup, final=final)


def carried(p, R, b, ip, st, conf, given):
    """what is built holds the bounds that were given"""
    cf = config_fields(p)
    for n in ("min_value", "min_inclusive", "max_value", "max_inclusive"):
        if n not in cf:
            continue
        for s, k, q in variants(ip, st.copy(), given[n]):
            got = ip.field(conf, cf[n], None)
            if k == 1:
                R.expect(same(got, models.deep(ip, s, q[0]), s), "the builder: %s given" % n, "the %s given to the builder is not what it builds: %s" % (n, show(got)[:80]), b.span)
            elif n.endswith("inclusive"):
                h = holds(s, ip.as_bool(got))
                R.expect(h, "the builder: %s not given" % n, "a bound is exclusive unless said otherwise, but checked as inclusive", b.span)


def verdict(R, b, st, kind, accept, text, v):
    key = "the builder: %s" % text
    odd = any(any(x.op == "app" and x.a[0] in ("unk", "itv") or x.op == "app" and x.a[0] == "new" for x in subterms(f)) for f in st.facts)
    R.expect(True if (kind == "ok") is accept else None if odd else False, key, "%s %s" % (text, "is refused" if accept else "is accepted"), b.span)


def modular(p, R):
    R.rule = __doc__
    builder(p, R)
    m = Machine(p, R)
    if m.why:
        R.open("traversal", m.why)
        return
    yielding(p, R, m)
    passing_on(p, R, m)
    iterating(p, R, m)


def check(p, R):
    modular(p, R)
    scans.scan(p, R, "C12")
