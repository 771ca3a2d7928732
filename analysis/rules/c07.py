"""Terms for reported sequence numbers are derived along every path by abstract interpretation: a write that reports a
change reports the index of the data block it appended, and as the previous entry the number that the search reported
for its match; the search reports the number of the entry it compared equal at the position it returns, a get returns
number and value of the entry at that position, and an entry carries the number of the block it is read from."""
from .common import *
from . import worlds
from .c17 import g, by_signature, named, fields_of, result_ty, Origin, Store, wire, SCHEMA, constructor, walk

SEARCH = r"^std::result::Result<\(std::option::Option<u64>, std::vec::Vec<\("
INDEX = r"^std::result::Result<\(std::option::Option<u64>, usize\)"
ENTRY = r"^std::result::Result<KeyValueData,"
NODE = r"Arc<tokio::sync::RwLock<Node>>"


def okof(t):
    """the call whose successful result t is"""
    if t.op == "app" and t.a[0] == "new" and t.a[1][0] == "ok":
        return t.a[1][-1]
    return None


def decided(t):
    return not t.unk and not any(x.op == "app" and x.a[0] in ("itv", "res", "unk", "new", "mapget") for x in subterms(t))


class Calls(Monitor):
    """quiet calls by kind: their names and arguments"""
    events = ("quiet_call",)

    def __init__(self, R):
        super().__init__(R)
        self.calls = {}
        self.lengths = set()

    def on_quiet_call(self, ip, st, body, args, call):
        v = mk("ctxf", call.ctx, body.idx)
        s = ip.p.tys(body.locals[0])
        if body.locals and ip.p.ty(body.locals[0])["k"] == "coroutine":
            s = ip.p.tys(result_ty(ip.p, body.idx))
        kind = "search" if re.search(SEARCH, s) else "index" if re.search(INDEX, s) else "entry" if re.search(ENTRY, s) else None
        if kind is None:
            if s in ("u64", "usize") and any(INFO(e) for i in g(ip.p).reach_from([body.idx]) for e in g(ip.p).ext[i]):
                self.lengths.add(v)
            return
        ops = args
        if len(args) == 2 and args[0].op in ("agg", "ptr"):
            c = models.deep(ip, st, args[0])
            if c.op == "agg" and c.a[0].startswith("coroutine"):
                ops = list(c.a[2])
        self.calls[v] = (kind, [models.deep(ip, st, a) for a in ops], ops)
        self.seen(ip, st, v, kind)

    def seen(self, ip, st, v, kind):
        pass


def last_of(seq):
    if seq.op != "seq" or not seq.a:
        return None
    q = seq.a[-1]
    return q.a[0] if q.op == "e" else part_at(q, sub(q.a[2], ONE)) if q.op == "c" else None


def position(p, t):
    """index of the key reference of a node whose number t is"""
    f = fields_of(p, "KeyValue").get("seq")
    if t.op == "app" and t.a[0] == "fld" and cval(t.a[1][1]) == f:
        e = t.a[1][0]
        if e.op == "app" and e.a[0] == "elem":
            return e.a[1][1]
    return None


def equal(st, a, b):
    """True / False / None"""
    if bare(a) is bare(b):
        return True
    h = holds(st, eq_int(a, b))
    if h is not None:
        return h
    d = sub(a, b)
    if cval(d) is not None:
        return cval(d) == 0
    return None


class Write(Calls):
    events = Calls.events + ("appended",)

    def seen(self, ip, st, v, kind):
        if kind == "search":
            st.setmon("search", v)

    def on_quiet_call(self, ip, st, body, args, call):
        super().on_quiet_call(ip, st, body, args, call)
        if st.mon("search") is not None and st.mon("matched") is None:
            f = matched(st, st.mon("search"))
            if f is not None:
                st.setmon("matched", C(int(f)))
        for a in args:
            for x in subterms(models.deep(ip, st, a)):
                if x.op == "agg" and x.a[0].startswith("adt:"):
                    d = named(ip.p, x)
                    if d and "seq" in d and any(y.op == "app" and y.a[0] == "loglen" for y in subterms(d["seq"])) and decided(d["seq"]):
                        old = st.mon("made", tup())
                        if d["seq"] not in old.a[2] and len(old.a[2]) < 6:
                            st.setmon("made", tup(*old.a[2], d["seq"]))

    def on_appended(self, ip, st, core, data, index, call):
        if not is_header(data):
            st.setmon("index", index)
            for t in st.mon("made", tup()).a[2]:
                h = equal(st, t, index)
                if h is None and decided(index):
                    h = False
                self.R.expect(h, self.root + ": number stored for the new entry", "the tree refers to the new entry or to its nodes as block %s, the block is appended as %s" % (show(t)[:80], show(index)[:80]), call_site(ip))


def shifted(t, pred):
    """t is a number plus a constant other than zero"""
    return t.op == "lin" and t.a[0] != 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and pred(t.a[1][0][0])


def entry_number(p, ip, st, calls, t):
    """(entry call, position) when t is the number of an entry that was read or of a key reference"""
    f = fields_of(p, "KeyValueData").get("seq")
    if t.op == "app" and t.a[0] == "fld" and cval(t.a[1][1]) == f:
        v = okof(t.a[1][0])
        if v is not None and v in calls and calls[v][0] == "entry":
            return v
    return None


def previous(p, R, ip, st, m, t, key, where):
    """is t the number of the entry the search matched?"""
    v = st.mon("search")
    if v is None:
        R.expect(False if decided(t) else None, key, "the number %s is reported for an old entry although no search was made" % show(t)[:80], where)
        return
    M = None
    ok = [x for x in subterms(t) if okof(x) is v]
    if ok:
        want = [fs[0] for _, k, fs in variants(ip, st, fieldv(ip, ok[0], 0)) if k == 1]
        if any(bare(t) is bare(w) for w in want):
            R.ok(key, "the number the search reports")
            return
        if position(p, t) is not None or entry_number(p, ip, st, m.calls, t) is not None or any(x.op == "app" and x.a[0] in ("itv", "res", "unk") for x in subterms(t)):
            R.open(key, show(t)[:80])
            return
        R.bad(key, "the number reported for the old entry is %s, not the one of the match" % show(t)[:100], where)
        return
    x = entry_number(p, ip, st, m.calls, t)
    if x is not None:
        # read from the last element of the path
        for y in subterms(tup(*m.calls[x][1])):
            if y.op == "app" and y.a[0] == "elem":
                base, i = y.a[1]
                if base.op == "app" and base.a[0] == "fld" and okof(base.a[1][0]) is v:
                    h = holds(st, eq_int(i, sub(app("len", base), ONE)))
                    R.expect(h, key, "the number of another entry of the path than the matched one is reported", where)
                    return
        R.open(key, show(t)[:80])
        return
    off = shifted(t, lambda x: entry_number(p, ip, st, m.calls, x) is not None)
    R.expect(False if decided(t) or off else None, key, "the number reported for the old entry is %s" % show(t)[:100], where)


def writing(p, R):
    for h, n, b in write_roots(p, HANDLES):
        m = Write(R)

        def final(ip, st, v, n=n, b=b, m=m):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                for s2, ch in changed(ip, s, pay, n):
                    old = new = None
                    if n == "put":
                        old, new = fieldv(ip, pay, 0), fieldv(ip, pay, 1)
                    elif n == "put_compare_and_swap":
                        old = fieldv(ip, pay, 0)
                        if ch:
                            new = [fs[0] for _, k, fs in variants(ip, s2, fieldv(ip, pay, 1)) if k == 1]
                            new = new[0] if new else None
                    if new is not None:
                        ix = s2.mon("index")
                        key = "%s: number of the new entry" % b.path
                        if ix is None:
                            R.open(key, "the appended block is not tracked")
                        else:
                            hh = equal(s2, new, ix)
                            if hh is None and decided(new) and decided(ix):
                                hh = False
                            R.expect(hh, key, "the new entry is reported as number %s, its block is appended as %s" % (show(new)[:80], show(ix)[:80]), b.span)
                    key = "%s: number of the old entry" % b.path
                    if n.startswith("put"):
                        search = s2.mon("search")
                        whole = old.op == "app" and old.a[0] == "fld" and cval(old.a[1][1]) == 0 and okof(old.a[1][0]) is not None
                        if whole and okof(old.a[1][0]) is search:
                            R.ok(key, "the match of the search")
                            continue
                        for s3, k, fs in variants(ip, s2, old):
                            if k == 1:
                                previous(p, R, ip, s3, m, fs[0], key, b.span)
                            elif search is not None and not whole:
                                f = s3.mon("matched")
                                f = bool(cval(f)) if f is not None else matched(s3, search)
                                if f is True:
                                    R.bad(key, "no old entry is reported although the search matched one", b.span)
                                elif f is False:
                                    R.ok(key, "none without a match")
                    else:
                        for s3, k, fs in variants(ip, s2, pay):
                            if k == 1:
                                t = fs[0] if n == "del" else fieldv(ip, fs[0], 1)
                                previous(p, R, ip, s3, m, t, key, b.span)
        analyse(R, p, b, [m], lambda e: APPEND(e) or INFO(e), final=final, body_pred=lambda i: constructor(p, i))


def matched(st, srch):
    """is the search known to have matched?"""
    for f in st.facts:
        if f.op != "eqz":
            continue
        for x in subterms(f):
            if x.op == "app" and x.a[0] == "discr":
                y = x.a[1][0]
                if y.op == "app" and y.a[0] == "fld" and y.a[1][1] is ZERO and okof(y.a[1][0]) is srch:
                    if holds(st, eq_int(x, ONE)) is True or holds(st, eq_int(x, ZERO)) is False:
                        return True
                    if holds(st, eq_int(x, ZERO)) is True or holds(st, eq_int(x, ONE)) is False:
                        return False
    return None


def run(p, R, b, m, final):
    def setup(ip):
        ip.graph = g(p)
        ip.cap = 64
        ip.relevant = {i for i, r in enumerate(p.raw) if r["path"].startswith(b.path + "::{")}
    return analyse(R, p, b, [m], None, setup=setup, final=final)


def searching(p, R):
    for b in by_signature(p, [NODE, r"^&"], INDEX):
        m = Calls(R)
        key = "%s: number of the match" % b.path

        def final(ip, st, v, b=b, m=m, key=key):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                opt, ix = fieldv(ip, pay, 0), fieldv(ip, pay, 1)
                for s2, k, fs in variants(ip, s, opt):
                    if k == 0:
                        continue
                    t = fs[0]
                    x = entry_number(p, ip, s2, m.calls, t)
                    pos = position(p, t) if x is None else next((a for a in m.calls[x][1][1:] if a.op in ("lin", "app", "it")), None)
                    if pos is None:
                        R.expect(False if decided(t) else None, key, "the number of a match is %s" % show(t)[:100], b.span)
                        continue
                    R.expect(equal(s2, pos, ix), key, "the match is reported at position %s, its number is that of the key at %s" % (show(ix)[:80], show(pos)[:80]), b.span)
        run(p, R, b, m, final)
    for b in by_signature(p, [NODE, r"^&"], SEARCH):
        m = Calls(R)
        key = "%s: match is where the path ends" % b.path

        def final(ip, st, v, b=b, m=m, key=key):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                M, path = fieldv(ip, pay, 0), fieldv(ip, pay, 1)
                if M.op == "agg" and M.a[1] == 0:
                    continue
                t = M.a[2][0] if M.op == "agg" else M
                x = next((okof(y) for y in subterms(t) if okof(y) in m.calls), None)
                if x is None or m.calls[x][0] != "index" or path.op != "seq":
                    R.open(key, show(t)[:80])
                    continue
                last = last_of(path)
                if last is None or last.op != "agg":
                    R.open(key, "the end of the path is not tracked")
                    continue
                node, ix = last.a[2][0], last.a[2][1]
                e = ix.op == "app" and ix.a[0] == "fld" and cval(ix.a[1][1]) == 1 and okof(ix.a[1][0])
                if e is not False and e is not None:
                    h = True if e is x else (None if ix.unk or t.unk else False)
                else:
                    h = False if decided(ix) or any(okof(y) is x for y in subterms(ix)) and not ix.unk else None
                R.expect(h, key, "the path ends at position %s, the match was found by another comparison" % show(ix)[:100], b.span)
                want = m.calls[x][1][0]
                h = True if bare(node) is bare(want) or node is want else None
                if h is None and okof(node) is not None and okof(want) is not None:
                    h = False
                R.expect(h, key + " (node)", "the path ends at node %s, the match is in %s" % (show(node)[:80], show(want)[:80]), b.span)
        run(p, R, b, m, final)


def getting(p, R):
    kf = fields_of(p, "KeyValueData")
    for b in methods(p, "tree::Tree", "get"):
        m = Calls(R)

        def final(ip, st, v, b=b, m=m):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                for s2, k, fs in variants(ip, s, pay):
                    srch = [x for x, c in m.calls.items() if c[0] == "search"]
                    key = "%s: result" % b.path
                    if k == 0:
                        for x in srch:
                            if matched(s2, x) is True:
                                R.bad(key, "nothing is returned although the search matched", b.span)
                        continue
                    for x in srch:
                        if matched(s2, x) is False:
                            R.bad(key, "an entry is returned although the search did not match", b.span)
                    sq, val = fieldv(ip, fs[0], 0), fieldv(ip, fs[0], 1)
                    x = entry_number(p, ip, s2, m.calls, sq)
                    y = val.op == "app" and val.a[0] == "fld" and okof(val.a[1][0]) or None
                    if x is None:
                        v2 = next((z for z in srch if any(okof(u) is z for u in subterms(sq))), None)
                        if v2 is not None:
                            w = fieldv(ip, [u for u in subterms(sq) if okof(u) is v2][0], 0)
                            if any(bare(sq) is bare(q[0]) for _, kk, q in variants(ip, s2, w) if kk == 1):
                                R.ok(key, "number of the match")
                                x = y
                    if x is None:
                        h = False if decided(sq) or shifted(sq, lambda t: entry_number(p, ip, s2, m.calls, t) is not None) else None
                        if h is None and not sq.unk and not any(t.op == "app" and t.a[0] in ("itv", "elem", "vf", "mapget") for t in subterms(sq)):
                            ns = [t for t in subterms(sq) if t.op == "app" and t.a[0] == "new"]
                            if ns and all(t.a[1][0] in ("ok", "ret") and t.a[1][-1] in m.lengths for t in ns):
                                h = False
                        R.expect(h, key, "the number returned is %s" % show(sq)[:100], b.span)
                    if y is None or y not in m.calls:
                        R.expect(False if decided(val) else None, key, "the value returned is %s" % show(val)[:100], b.span)
                    if x is None or y is None or y not in m.calls:
                        continue
                    R.expect(x is y, key, "number and value returned belong to different entries", b.span)
                    # read where the search ended
                    rec = tup(*m.calls[y][1])
                    ix = m.calls[y][1][-1]
                    for t in subterms(rec):
                        if t.op == "app" and t.a[0] == "elem":
                            base, i = t.a[1]
                            if base.op == "app" and base.a[0] == "fld" and cval(base.a[1][1]) == 1 and okof(base.a[1][0]) in srch:
                                h = holds(s2, eq_int(i, sub(app("len", base), ONE)))
                                if h is None and i.op == "lin" and not i.unk and all(q.op == "app" and q.a[0] == "len" for q, _ in i.a[1]):
                                    h = False       # the path may have any length
                                R.expect(h, key + " position", "the entry is read from another node of the path than the last", b.span)
                                if ix.op == "lin" and any(q is t for q in subterms(ix)) and not ix.unk:
                                    R.bad(key + " position", "the entry is read at %s, not where the search ended" % show(ix)[:80], b.span)
                    if decided(ix):
                        R.bad(key + " position", "the entry is read at position %s, whatever the search says" % show(ix)[:80], b.span)
        run(p, R, b, m, final)


def entries(p, R):
    """key and value of an entry are those of the block its number names"""
    o = Origin(p, {n: wire(p, Report("C17"), n) for n in SCHEMA})
    kf = fields_of(p, "KeyValue").get("seq")
    for b in by_signature(p, [r"^&Node$", r"^usize$"], ENTRY):
        arg = app("arg", 1, ty=b.locals[2])

        def final(ip, st, v, b=b, arg=arg):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                d = named(p, models.deep(ip, s, pay))
                if not d or not {"seq", "key", "value"} <= set(d):
                    R.open(b.path, "the entry is not tracked")
                    continue
                pos = position(p, d["seq"])
                key = "%s: number" % b.path
                if pos is None:
                    R.expect(False if decided(d["seq"]) or d["seq"].op == "lin" and not d["seq"].unk and len(d["seq"].a[1]) == 1 and position(p, d["seq"].a[1][0][0]) is not None else None,
                             key, "an entry is numbered %s" % show(d["seq"])[:100], b.span)
                else:
                    R.expect(equal(s, pos, arg), key, "the entry at the requested position is numbered as the one at %s" % show(pos)[:80], b.span)
                for f in ("key", "value"):
                    og = o.of(d[f])
                    if og is None and d[f].op == "agg" and d[f].a[2]:
                        og = o.of(d[f].a[2][0])
                    if og is None:
                        R.open("%s: block of %s" % (b.path, f), show(d[f])[:80])
                        continue
                    same = bare(og[1]) is bare(d["seq"])
                    R.expect(same or (None if og[1].unk or d["seq"].unk else False), "%s: block of %s" % (b.path, f),
                             "the %s is read from block %s, the entry is numbered %s" % (f, show(og[1])[:80], show(d["seq"])[:80]), b.span)

        def setup(ip):
            ip.graph = g(p)
            ip.cap = 64
        analyse(R, p, b, [Store(R, o)], None, setup=setup, final=final)


def check(p, R):
    g(p)
    writing(p, R)
    searching(p, R)
    getting(p, R)
    entries(p, R)
    worlds.decide(p, R, "C07")
