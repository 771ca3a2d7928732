"""The state machine of the traversal is derived path by path from its poll function by abstract interpretation and its
reachable abstract states are enumerated from the constructor. On every reachable path: what an inner source delivers is
passed on, the next entry is only taken when the previous one is delivered, nothing unfinished is replaced, and the end
is only reported when the positions of the node are used up or a key lies outside the bounds. The positions listed for a
node are derived as closed forms and compared with the specified ones; so is the translation of a position into a key
or a child."""
from .common import *
from . import scans
from .traversal import *
from .c17 import g, result_ty


def machine_rules(p, R, m):
    sources = [k for k, r in m.role.items() if r in ("key", "child", "stream")]
    kit = m.at("iter")
    for x in m.reached:
        L = m.label(x)
        if not m.known(x):
            R.open("poll: %s" % L, "the result is not tracked")
            continue
        out, end = m.item(x), m.ended(x)
        where = m.body.span
        und = unclear(x)

        def expect(c, rule, text, x=x, L=L, und=und):
            R.expect(None if c is False and und else c, "poll: %s: %s" % (L, rule), "%s (%s)" % (text, m.describe(x)), where)
        fine_end = False
        for e in x.log:
            kind, k, tok, val = e[0], e[1], e[2], e[3]
            role = m.role.get(k)
            if kind == "S" and role == "stream":
                expect(out is not None and same(out, val, x.st), "items of a child are passed on", "an item of a child is dropped or replaced")
            elif kind == "E" and role == "iter":
                fine_end = True
            elif kind == "S" and role == "iter":
                taken(p, R, m, x, val, expect)
            elif kind == "R" and role == "key":
                for s, ok, fs in variants(m.ip, x.st.copy(), val):
                    if ok != 0:
                        continue
                    emitted = out is not None and (inside(out, val) or inside(out, fs[0]))
                    if emitted:
                        o = out.a[2][0] if out.op == "agg" and out.a[2] else out
                        c = same(o, val, s)
                        expect(c, "a key is yielded as read", "the key and value that were read are not what is yielded")
                        continue
                    fine_end = True
                    for s2, inb, _ in in_bounds(p, m, s, fs[0]):
                        expect(None if inb is None else not inb, "a key within the bounds is not dropped",
                               "a key within the bounds is dropped" + ("" if not end else " and the traversal ends"))
                    if not end:
                        expect(None, "a dropped key", "")
            elif kind == "R" and role == "child":
                for s, ok, fs in variants(m.ip, x.st.copy(), val):
                    if ok == 0:
                        c = x.post[m.at("stream")]
                        expect(True if c.op == "agg" and c.a[1] == 1 and inside(c, fs[0]) else None if not decided(c) else False,
                               "a child that was read is traversed", "a child that was read is not traversed")
            elif kind == "R" and role == "iterfut":
                for s, ok, fs in variants(m.ip, x.st.copy(), val):
                    if ok == 0:
                        c = x.post[kit]
                        expect(True if c.op == "agg" and c.a[1] == 1 and same(strip(c.a[2][0]), strip(fs[0]), s) else None if not decided(c) else False,
                               "the positions listed are the ones visited", "the listed positions are not the ones visited")
            elif kind == "R" and role == "countsfut" and m.at("counts") is not None:
                c = x.post[m.at("counts")]
                expect(True if c.op == "agg" and c.a[1] == 1 and same(c.a[2][0], val, x.st) else None if not decided(c) else False,
                       "the counts of the node are kept", "the counts read from the node are altered")
        if end:
            expect(fine_end, "an end", "the traversal ends although positions of the node are left")
        # one thing at a time, nothing lost
        for s, t in x.froms:
            took = [e for e in x.log if e[1] == kit and e[0] in ("S", "E")]
            gone = {e[1] for e in x.log if e[0] in ("R", "E")}
            if took:
                busy = [k for k in sources if s[k] == LIVE and k not in gone]
                expect(not busy, "the previous entry is delivered first", "the next entry is taken while %s is unfinished" % ", ".join(m.fields[k][0] for k in busy))
            if end:
                continue
            for k in sources + [kit]:
                if s[k] == LIVE and k not in gone and not (x.post[k] is m.before[k] or x.post[k].op == "agg" and x.post[k].a[1] == 1 and x.post[k].a[2] and x.post[k].a[2][0] is m.payload(k)):
                    expect(False if x.post[k].op == "agg" else None, "nothing unfinished is replaced", "%s is discarded before it is finished" % m.fields[k][0])
            fresh = [k for k in sources if t[k] == LIVE and x.post[k] is not m.before[k]]
            busy = [k for k in sources if t[k] == LIVE]
            expect(not (fresh and len(busy) > 1), "one entry at a time", "%s are in progress together" % ", ".join(m.fields[k][0] for k in busy))
        # a source that is used up is let go, or the positions behind it are never reached
        for s, t in x.froms:
            for k in sources:
                if t[k] == DONE and not end:
                    expect(False if s[k] != DONE else None, "a finished entry is let go", "%s is finished and stays: no further entry is visited" % m.fields[k][0])


def strip(v):
    n = 0
    while v.op == "agg" and len(v.a[2]) == 1 and (v.a[0].startswith(("ref", "box", "adt:std::pin", "adt:std::boxed"))) and n < 4:
        v = v.a[2][0]
        n += 1
    return v


def taken(p, R, m, x, val, expect):
    """a position was taken from the list: it becomes the key or the child it stands for"""
    kk, kc, kn, kcf = m.at("key"), m.at("child"), m.at("node"), m.at("config")
    new = [k for k in (kk, kc) if x.post[k] is not m.before[k] and x.post[k].op == "agg" and x.post[k].a[1] == 1]
    if len(new) != 1:
        expect(False if not new and all(x.post[k].op == "agg" or x.post[k] is m.before[k] for k in (kk, kc)) else None, "a position is visited", "a position is skipped")
        return
    k = new[0]
    fu = future_of(p, x.post[k])
    if fu is None:
        expect(None, "a position is visited", "")
        return
    tys, f = params(p, fu[0])
    if tys is None or len(tys) != len(fu[1]):
        expect(None, "a position is visited", "")
        return
    name = "key" if k == kk else "child"
    for n in range(0, 8):
        env = {val: n}
        w = applies_to(x.st, env, val)
        if w is not True:
            if w is None:
                expect(None, "a position is visited", "")
            continue
        expect((n % 2 == 1) is (k == kk), "even positions are children, odd ones keys", "position %d is visited as a %s" % (n, name))
        for j, t in enumerate(tys):
            if t == "usize":
                try:
                    i = number(fu[1][j], env)
                except Unknown:
                    expect(None, "the index of a %s" % name, "")
                    continue
                expect(i == n // 2, "the index of a %s" % name, "position %d is visited as %s %d" % (n, name, i))
    for j, t in enumerate(tys):
        if "RwLock<Node>" in t:
            c = same(fu[1][j], m.before[kn], x.st)
            expect(c, "the %s of this node" % name, "a %s of another node is visited" % name)


def applies_to(st, env, val):
    res = True
    for f, v in st.facts.items():
        if not any(t is val for t in subterms(f)):
            continue
        try:
            if truth(f, env) is not v:
                return False
        except Unknown:
            res = None
    return res


def reads(p, R, m):
    """the futures read the key / child with the given index from the given node"""
    done = set()
    for x in m.reached:
        for role in ("key", "child"):
            k = m.at(role)
            if x.post[k] is m.before[k] or x.post[k].op != "agg" or x.post[k].a[1] != 1:
                continue
            fu = future_of(p, x.post[k])
            if fu is None or fu[0].idx in done:
                continue
            done.add(fu[0].idx)
            tys, f = params(p, fu[0])
            if f is None:
                R.open("reading a %s" % role, "its function is not found")
                continue
            # stop at the methods of the node
            calls, ip, outs = results(p, R, f, leaf=node_reads(p, f))
            if not outs:
                R.open("reading a %s" % role, "not decided")
                continue
            args = [app("arg", j, ty=f.locals[j + 1]) for j in range(f.nargs)]
            ix = [a for a, t in zip(args, tys) if t == "usize"]
            nd = [a for a, t in zip(args, tys) if "RwLock<Node>" in t]
            for st, v in outs:
                for s, kind, pay in res(ip, st.copy(), v):
                    if kind != "ok":
                        continue
                    got = None
                    if role == "key":
                        got = pay
                    elif pay.op == "agg" and pay.a[0] == "adt:" + m.adt["path"]:
                        got = pay.a[2][m.at("node")]
                        for j, (w, have) in enumerate(zip(m.s0, pay.a[2])):
                            if w is not None:
                                R.expect(w == (FREE if have.op == "agg" and have.a[1] == 0 else LIVE) or None, "a child is traversed from its beginning", "", f.span)
                    nm = got.a[1][-1] if got is not None and got.op == "app" and got.a[0] == "new" and got.a[1][0] == "ok" else None
                    if nm is None or nm not in calls.calls or len(ix) != 1 or len(nd) != 1:
                        R.open("reading a %s" % role, "the result is not tracked")
                        continue
                    for body, a, st2 in calls.calls[nm]:
                        i = next((y for y in a if y.op in ("lin", "const") or y.op == "app" and type_of(p, y) == "usize"), None)
                        if i is None:
                            R.open("reading a %s" % role, "the index is not tracked")
                            continue
                        R.expect(same(i, ix[0], st2), "reading a %s: its index" % role, "%s %s is read where %s is asked for" % (role, show(i), show(ix[0])), f.span)
                        n = a[0]
                        R.expect(inside(n, nd[0]) or None, "reading a %s: its node" % role, "a %s of another node is read" % role, f.span)


def node_reads(p, f):
    """bodies of the async methods of the node that the function calls"""
    out = []
    for j in g(p).reach_from([f.idx]):
        r = p.raw[j]
        if r["kind"] == "coroutine" and not r["path"].startswith(f.path + "::{closure") and not r["path"].startswith("traverse::"):
            out.append(j)
    return out


def modular(p, R):
    R.rule = __doc__
    m = Machine(p, R)
    if m.why:
        R.open("traversal", m.why)
        return
    R.ok("traversal: states", "%d reachable abstract states, %d paths, %d transitions" % (len(m.states), len(m.reached), len(m.trans)))
    machine_rules(p, R, m)
    starting(p, R, m, R)
    reads(p, R, m)
    roots(p, R, m)
    unbounded(p, R)


def unbounded(p, R):
    """a bound that is not given leaves no key out"""
    from .c11 import which
    cf = config_fields(p)
    if "min_value" not in cf or "max_value" not in cf:
        return

    def look(ip, st, conf, where, name, which_=("min", "max")):
        for n in which_:
            v = ip.field(conf, cf[n + "_value"], None)
            ty = next(t["variants"][0]["fields"][cf[n + "_value"]][1] for t in p.types if t["k"] == "adt" and t["path"].endswith("TraverseConfig") and t.get("variants"))
            for s, w in which(p, ip, st.copy(), v, ty):
                R.expect(None if w is None else w == ("below" if n == "min" else "above"), "%s: %s bound not given" % (name, n),
                         "without a %s bound keys are left out" % ("lower" if n == "min" else "upper"), where)
    for i, r in enumerate(p.raw):
        if r["kind"] == "fn" and (r.get("trait") or "").endswith("Default") and p.tys(p.body(i).locals[0]).endswith("TraverseConfig"):
            b = p.body(i)
            _, ip, outs = results(p, R, b)
            for st, v in outs or []:
                look(ip, st, v, b.span, "the default configuration")
    for b in methods(p, "traverse::TraverseConfigBuilder", "build")[:1]:
        t = p.ty(b.locals[1])
        i = t["to"] if t["k"] == "ref" else b.locals[1]
        fs = {n: k for k, (n, _) in enumerate(p.ty(i)["variants"][0]["fields"])}
        _, ip, outs = results(p, R, b)
        for st, v in outs or []:
            for s, kind, pay in res(ip, st.copy(), v):
                if kind != "ok":
                    continue
                a0 = app("arg", 0, ty=b.locals[1])
                me = ip.at(s, a0, i) if t["k"] == "ref" else a0
                for n in ("min", "max"):
                    if n + "_value" not in fs:
                        continue
                    for s2, k, q in variants(ip, s.copy(), ip.field(me, fs[n + "_value"], None)):
                        if k == 0:
                            look(ip, s2, pay, b.span, "the builder", (n,))


def roots(p, R, m):
    """a traversal of the tree starts at its root with the bounds it was given"""
    n = 0
    for h in ("tree::Tree", "hb::Hyperbee"):
        for b in methods(p, h, "traverse")[:1]:
            def inner(j):
                return p.raw[j]["path"] == m.made_by.path or p.raw[j]["kind"] == "coroutine" and not p.raw[j]["path"].startswith(b.path)
            calls, ip, outs = results(p, R, b, leaf=[j for j in g(p).reach_from([b.idx]) if inner(j)])
            want = next((app("arg", j, ty=b.locals[j + 1]) for j in range(b.nargs) if p.tys(b.locals[j + 1]).endswith("TraverseConfig")), None)
            for nm, cs in calls.calls.items():
                for body, a, st in cs:
                    cfg = next((y for y in a if "TraverseConfig" in type_of(p, y)), None)
                    if cfg is None or want is None:
                        continue
                    n += 1
                    R.expect(same(cfg, want, st), "%s: the bounds" % b.path, "the tree is traversed with other bounds than those given", b.span)
    R.expect(n > 0 or None, "traversals of the tree", "", "")


def check(p, R):
    modular(p, R)
    scans.scan(p, R, "C13")
