"""The state machine behind ordered iteration, derived from the source: every path of its poll function is summarised
(what it needs, what it polls and with which outcome, what it stores, what it returns), and the abstract states its
fields can reach are enumerated from the constructor on."""
from engine import facts
from engine.term import lin_parts, vf, fld, ge0
from .common import *
from engine.models import NONE, some
from .c17 import g, by_signature, result_ty

FREE, LIVE, DONE = "none", "pending", "finished"


def machine(p):
    """body of the poll function of the stream of (key data, node)"""
    out = []
    for i, r in enumerate(p.raw):
        if r["kind"] == "fn" and (r.get("trait") or "").endswith("Stream") and r["path"].endswith("::poll_next"):
            b = p.body(i)
            if "KeyValueData" in p.tys(b.locals[0]) and "Node" in p.tys(b.locals[0]):
                out.append(b)
    return out[0] if len(out) == 1 else None


class Path:
    """one path of the poll function"""


class Machine:
    def __init__(self, p, R):
        self.p, self.R = p, R
        VARIANTS[0] = p
        self.body = machine(p)
        self.paths, self.fields, self.why = [], [], None
        self.panics, self.asserts = [], []
        self.ip = None
        if self.body is None:
            self.why = "the poll function of the traversal is not found"
            return
        self.body_ty()
        self.roles()
        self.run()
        if self.why is None:
            self.explore()

    def body_ty(self):
        p = self.p
        i = self.body.locals[1]
        t = p.ty(i)
        n = 0
        while n < 6 and not (t["k"] == "adt" and t.get("variants") and t["path"] != "std::pin::Pin"):
            i = t["to"] if t["k"] in ("ref", "ptr") else t["args"][0] if t.get("args") else t["variants"][0]["fields"][0][1]
            t = p.ty(i)
            n += 1
        self.adt, self.ty = t, i
        self.fields = [(f[0], f[1]) for f in t["variants"][0]["fields"]]
        self.short = self.adt["path"].split("::")[-1]

    def roles(self):
        self.role = {}
        for k, (n, ty) in enumerate(self.fields):
            s = self.p.tys(ty)
            if not self.option(k):
                if s.endswith("TraverseConfig"):
                    self.role[k] = "config"
                elif "RwLock<" in s and "Node" in s:
                    self.role[k] = "node"
                continue
            fut = "Output = " in s
            out = s.split("Output = ", 1)[1] if fut else s
            if fut and "KeyValueData" in out:
                self.role[k] = "key"
            elif self.adt["path"] in out:
                self.role[k] = "child" if fut else "stream"
            elif "Iterator" in out:
                self.role[k] = "iterfut" if fut else "iter"
            elif "(usize, usize)" in out:
                self.role[k] = "countsfut" if fut else "counts"
        want = ("config", "node", "key", "child", "stream", "iter")
        have = list(self.role.values())
        if any(have.count(w) != 1 for w in want):
            self.why = "the fields of the traversal are not the known ones (%s)" % sorted(have)

    def at(self, role):
        return next((k for k, r in self.role.items() if r == role), None)

    def option(self, k):
        t = self.p.ty(self.fields[k][1])
        return t["k"] == "adt" and t["path"] == "std::option::Option"

    # ------------------------------------------------ polls
    def source(self, ip, st, v):
        """field of the machine a polled thing was taken from, and the thing"""
        n = 0
        k = None
        while n < 8:
            if v.op == "agg" and len(v.a[2]) == 1 and v.a[2][0].op in ("ptr", "app") and not v.a[0].startswith(("coroutine", "adt:" + self.adt["path"])):
                v = v.a[2][0]
            if v.op == "ptr":
                o, pr = ip.deref(v)
                if o is self.obj and pr and k is None:
                    k = pr[0][1]
                v = ip.load(st, o, pr)
            else:
                break
            n += 1
        if k is None:
            for x in subterms(v):
                if x.op == "app" and x.a[0] == "fld" and x.a[1][0] is self.init:
                    k = cval(x.a[1][1])
        return k, v

    def note(self, st, kind, k, v, val):
        log = st.mon("log") or mk("log")
        st.setmon("log", mk("log", *(log.a + (mk("ev", kind, k, v, val),))))

    def poll(self, ip, c, st, args):
        k, v = self.source(ip, st, args[0])
        t = ip.p.ty(c.dty)
        if t["k"] != "adt" or t["path"] != "std::task::Poll":
            return NotImplemented
        s2 = st.copy()
        self.note(st, "P", k, v, UNIT)
        x = app("polled", mk("pk", c.ctx), v, ty=t["args"][0])
        self.note(s2, "R", k, v, x)
        return [(st, models.PENDING), (s2, models.ready(x))]

    def poll_next(self, ip, c, st, args):
        k, v = self.source(ip, st, args[0])
        t = ip.p.ty(c.dty)
        if t["k"] != "adt" or t["path"] != "std::task::Poll":
            return NotImplemented
        t = ip.p.ty(t["args"][0])
        s2, s3 = st.copy(), st.copy()
        self.note(st, "P", k, v, UNIT)
        self.note(s2, "E", k, v, UNIT)
        x = app("polled", mk("pk", c.ctx), v, ty=t["args"][0])
        self.note(s3, "S", k, v, x)
        return [(st, models.PENDING), (s2, models.ready(NONE)), (s3, models.ready(some(x)))]

    def next(self, ip, c, st, args):
        if c.fr.body.kind == "coroutine":
            return NotImplemented
        k, v = self.source(ip, st, args[0])
        if k is None or v.op != "app":
            return NotImplemented
        t = ip.p.ty(c.dty)
        s2 = st.copy()
        self.note(st, "E", k, v, UNIT)
        x = app("nextof", mk("pk", c.ctx), v, ty=t["args"][0])
        self.note(s2, "S", k, v, x)
        return [(st, NONE), (s2, some(x))]

    def run(self):
        p, b = self.p, self.body
        me = self

        class Wakes(Monitor):
            events = ("wake", "panic", "assert")

            def on_wake(self, ip, st, **d):
                me.note(st, "W", None, UNIT, UNIT)

            def on_panic(self, ip, st, why=None, **d):
                me.panics.append((me.path(ip, st), why, call_site(ip)))

            def on_assert(self, ip, st, **d):
                me.asserts.append((st.copy(), d, call_site(ip)))

        def setup(ip):
            ip.graph = g(p)
            ip.cap = 400
            ip.relevant = g(p).reach_from([b.idx])
            ip.hooks = {"poll": me.poll, "poll_next": me.poll_next, "next": me.next}
            me.ip = ip

        def init(ip, st, args):
            o, pr = ip.deref(args[0], me.ty)
            me.obj = o
            me.init = ip.load(st, o, pr)

        def final(ip, st, v):
            x = self.path(ip, st)
            x.result = models.deep(ip, st, v)
            me.paths.append(x)
        out = analyse(self.R, p, b, [Wakes(self.R)], None, setup=setup, init=init, final=final)
        if not out or out[1] is None:
            self.why = "the poll function of the traversal is not decided"
            return
        self.before = [self.ip.field(self.init, k, None) for k in range(len(self.fields))]

    def path(self, ip, st):
        x = Path()
        st = st.copy()
        x.st, x.log = st, [e.a for e in (st.mon("log") or mk("log")).a]
        x.result = None
        x.post = [models.deep(ip, st, ip.field(ip.load(st, self.obj, ()), k, None)) for k in range(len(self.fields))]
        return x

    # ------------------------------------------------ states
    def payload(self, k):
        return vf(self.before[k], 1, 0)

    def pre(self, x, k):
        """what the path needs of field k: FREE, a filled one ('some') or nothing (None)"""
        d = app("discr", self.before[k])
        if holds(x.st, eq_int(d, ZERO)) is True:
            return FREE
        if holds(x.st, eq_int(d, ONE)) is True or holds(x.st, eq_int(d, ZERO)) is False:
            return "some"
        return None

    def step(self, x, s):
        """abstract state after path x from s"""
        out = []
        for k in range(len(self.fields)):
            if not self.option(k):
                out.append(None)
                continue
            v, cur = x.post[k], s[k]
            if cur is None and self.pre(x, k):
                cur = FREE if self.pre(x, k) == FREE else LIVE
            old = new = False
            for e in x.log:
                if e[1] == k and e[0] in ("R", "E"):
                    if e[2].op == "agg":
                        new = True
                    else:
                        old = True
            if v is self.before[k] or v.op == "agg" and v.a[1] == 1 and v.a[2] and v.a[2][0] is self.payload(k):
                out.append(DONE if old and cur != FREE else cur)
            elif v.op == "agg" and v.a[0].endswith("option::Option"):
                out.append(FREE if v.a[1] == 0 else DONE if new else LIVE)
            else:
                out.append(None)
        return tuple(out)

    def fits(self, x, s):
        for k, v in enumerate(s):
            if v is None:
                continue
            w = self.pre(x, k)
            if w == FREE and v != FREE or w == "some" and v == FREE:
                return False
        return True

    def explore(self):
        """the abstract states reachable from a new traversal, with the paths taken from each"""
        p = self.p
        self.start = None
        for i, r in enumerate(p.raw):
            if r["kind"] != "fn" or not p.body(i).locals:
                continue
            b = p.body(i)
            t = p.ty(b.locals[0])
            if t["k"] != "adt" or t["path"] != self.adt["path"] or b.nargs != 2:
                continue
            outs = []

            def setup(ip):
                ip.graph = g(p)
                ip.cap = 64
                ip.relevant = g(p).reach_from([b.idx])
            rr = analyse(self.R, p, b, [Monitor(self.R)], None, setup=setup, final=lambda ip, st, v: outs.append(models.deep(ip, st, v)))
            if rr[1] is None or len(outs) != 1 or outs[0].op != "agg":
                continue
            self.start, self.made_by = outs[0], b
            break
        if self.start is None:
            self.why = "the constructor of the traversal is not found"
            return
        s0 = tuple((FREE if v.a[1] == 0 else LIVE) if self.option(k) and v.op == "agg" and v.a[0].endswith("option::Option") else None
                   for k, v in enumerate(self.start.a[2]))
        self.s0 = s0
        self.trans = []
        seen, work = {s0}, [s0]
        while work and len(seen) < 3000:
            s = work.pop()
            for x in self.paths:
                if not self.fits(x, s):
                    continue
                t = self.step(x, s)
                self.trans.append((s, x, t))
                if t not in seen and not self.ended(x):
                    seen.add(t)
                    work.append(t)
        self.states = seen
        self.reached = []
        for x in self.paths:
            x.froms = [(s, t) for s, y, t in self.trans if y is x]
            if x.froms:
                self.reached.append(x)

    # ------------------------------------------------ results
    def ended(self, x):
        v = x.result
        return v.op == "agg" and v.a[0].endswith("task::Poll") and v.a[1] == 0 and v.a[2][0].op == "agg" and v.a[2][0].a[1] == 0

    def pending(self, x):
        v = x.result
        return v.op == "agg" and v.a[0].endswith("task::Poll") and v.a[1] == 1

    def item(self, x):
        """the yielded item, or None"""
        v = x.result
        if v.op == "agg" and v.a[0].endswith("task::Poll") and v.a[1] == 0 and v.a[2][0].op == "agg" and v.a[2][0].a[1] == 1:
            return v.a[2][0].a[2][0]
        return None

    def known(self, x):
        return self.ended(x) or self.pending(x) or self.item(x) is not None

    def describe(self, x):
        n = {"P": "%s pending", "R": "%s ready", "S": "%s yields", "E": "%s exhausted", "W": "woken"}
        ks = ["no %s" % self.fields[k][0] if self.pre(x, k) == FREE else self.fields[k][0] for k in range(len(self.fields)) if self.option(k) and self.pre(x, k)]
        ev = [n[e[0]] % (self.fields[e[1]][0] if e[1] is not None else "something") if e[0] != "W" else "woken" for e in x.log]
        return "with %s: %s" % (", ".join(ks) or "any state", ", ".join(ev) or "nothing polled")

    def label(self, x):
        """stable name of the kind of path"""
        ev = ["%s %s" % (self.role.get(e[1], "?"), {"P": "pending", "R": "ready", "S": "yields", "E": "exhausted"}[e[0]]) for e in x.log if e[0] != "W"]
        return ", ".join(ev) or "starts " + "+".join(sorted(self.role.get(k, "?") for k in range(len(self.fields)) if x.post[k] is not self.before[k]))


def same(a, b, st=None):
    """is a the value b, possibly taken apart and put together again? None: cannot be told"""
    if bare(a) is bare(b):
        return True
    if a.op == "agg":
        if b.op == "agg":
            if a.a[:2] != b.a[:2] or len(a.a[2]) != len(b.a[2]):
                return False
            return all_(same(x, y, st) for x, y in zip(a.a[2], b.a[2]))
        if b.op != "app":
            return None
        h = None
        if a.a[0].startswith("adt:") and st is not None:
            h = holds(st, eq_int(app("discr", b), C(a.a[1])))
            vs = p_variants(b)
            if h is None and vs > 1:
                h = False       # the other one is of any kind
            elif h is None and vs == 1:
                h = True
        if h is False:
            return False
        rs = []
        for i, y in enumerate(a.a[2]):
            r = [same(y, fld(b, i), st), same(y, vf(b, a.a[1], i), st)]
            rs.append(True if True in r else False if r == [False, False] else None)
        r = all_(rs)
        return r if a.a[2] else h
    if b.op == "agg":
        return same(b, a, st)
    if not decided(a) or not decided(b):
        return None
    return False


VARIANTS = [None]


def p_variants(b):
    """number of kinds of the value, 0 when unknown"""
    p = VARIANTS[0]
    t = p.ty(b.a[2]) if p is not None and b.a[2] is not None and b.a[2] >= 0 else {"k": "?"}
    return (len(t["variants"]) if t.get("enum") else 1) if t.get("variants") else 0


def all_(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True


def decided(t):
    return not t.unk and not any(x.op == "app" and x.a[0] in ("itv", "res", "unk", "mapget") or x.op == "app" and x.a[0] == "new" and x.a[1][0] == "ret" for x in subterms(t))


def inside(a, b):
    b = bare(b)
    return any(y is b for y in subterms(bare(a)))


def unclear(x):
    """do the conditions of the path depend on something that is not tracked?"""
    return any(t.unk or any(y.op == "app" and y.a[0] in ("unk", "new", "itv") for y in subterms(t)) for t in x.st.facts)


# ------------------------------------------------------------ closed forms on small numbers
class Unknown(Exception):
    pass


def number(t, env):
    if is_const(t):
        return cval(t)
    if t in env:
        return env[t]
    c, parts = lin_parts(t)
    if len(parts) == 1 and parts[0][0] is t:
        if t.op == "app" and t.a[0] in ("div", "rem", "min", "max", "satsub", "b2i"):
            if t.a[0] == "b2i":
                return int(truth(t.a[1][0], env))
            a, b = (number(y, env) for y in t.a[1])
            if t.a[0] == "div":
                return a // b
            if t.a[0] == "rem":
                return a % b
            return max(a - b, 0) if t.a[0] == "satsub" else min(a, b) if t.a[0] == "min" else max(a, b)
        if t.op == "app" and t.a[0] == "discr" and t.a[1][0] in env:
            return env[t.a[1][0]]
        raise Unknown(show(t))
    return c + sum(k * number(y, env) for y, k in parts)


def truth(f, env):
    if f.op == "b":
        return f.a[0]
    if f in env:
        return bool(env[f])
    if f.op == "ge0":
        return number(f.a[0], env) >= 0
    if f.op == "eqz":
        return number(f.a[0], env) == 0
    if f.op == "not":
        return not truth(f.a[0], env)
    if f.op in ("and", "or"):
        vs = [truth(y, env) for y in f.a]
        return all(vs) if f.op == "and" else any(vs)
    raise Unknown(show(f))


def applies(st, env):
    """do the conditions of the state hold on these numbers? None: some cannot be told"""
    open_ = False
    for f, v in st.facts.items():
        try:
            if truth(f, env) is not v:
                return False
        except Unknown:
            open_ = True
    return None if open_ else True


def listing(v, env):
    """the numbers an iterator yields"""
    if v.op == "agg" and v.a[0].startswith("adt:") and v.a[0].endswith("ops::Range"):
        return list(range(number(v.a[2][0], env), number(v.a[2][1], env)))
    if v.op == "agg" and v.a[0].endswith("ops::RangeInclusive"):
        return list(range(number(v.a[2][0], env), number(v.a[2][1], env) + 1))
    if v.op == "agg" and len(v.a[2]) == 1:
        return listing(v.a[2][0], env)
    if v.op == "seq":
        out = []
        for q in v.a:
            if q.op == "e":
                out.append(number(q.a[0], env))
            elif q.op == "c":
                bv = mk("bv", q.a[0])
                lo, hi = number(q.a[1], env), number(q.a[2], env)
                if hi - lo > 200:
                    raise Unknown("long")
                for j in range(lo, hi):
                    out.append(number(q.a[3], {**env, bv: j}))
            else:
                raise Unknown(show(q))
        return out
    raise Unknown(show(v))


# ------------------------------------------------------------ the functions behind the futures
def params(p, b):
    """types of the parameters of the function a coroutine body belongs to"""
    path = b.path.rsplit("::{closure", 1)[0]
    for i in p.by_path.get(path, []):
        r = p.raw[i]
        if r["kind"] == "fn":
            f = p.body(i)
            return [p.tys(f.locals[k + 1]) for k in range(f.nargs)], f
    return None, None


def future_of(p, v):
    """(coroutine body, upvars) of a filled Option<Pin<Box<future>>>"""
    n = 0
    while v.op == "agg" and not v.a[0].startswith("coroutine") and len(v.a[2]) == 1 and n < 5:
        v = v.a[2][0]
        n += 1
    if v.op == "agg" and v.a[0] == "coroutine":
        return p.body(v.a[1]), list(v.a[2])
    return None


class Quiet(Monitor):
    """calls that are not entered, by the name of their result"""
    events = ("quiet_call",)

    def __init__(self, R):
        super().__init__(R)
        self.calls = {}

    def on_quiet_call(self, ip, st, body, args, call):
        ops = list(args)
        if len(args) == 2 and args[0].op in ("agg", "ptr"):
            c = models.deep(ip, st, args[0])
            if c.op == "agg" and c.a[0].startswith("coroutine"):
                ops = list(c.a[2])
        self.calls.setdefault(mk("ctxf", call.ctx, body.idx), []).append((body, [models.deep(ip, st, a) for a in ops], st.copy()))


class Traps(Monitor):
    """checks that would panic, unless known to hold"""
    events = ("assert", "panic")

    def __init__(self, R):
        super().__init__(R)
        self.asserts, self.panics = [], []

    def on_assert(self, ip, st, cond=None, known=None, kind=None, **d):
        if known is not True:
            self.asserts.append((st.copy(), cond, str(kind), call_site(ip)))

    def on_panic(self, ip, st, why=None, **d):
        self.panics.append((st.copy(), str(why), call_site(ip)))


def results(p, R, f, deep=True, leaf=(), more=()):
    """(monitor, interpreter, [(state, result)]) of a function"""
    m = Quiet(R)
    outs = []

    def setup(ip):
        ip.graph = g(p)
        ip.cap = 200
        ip.relevant = g(p).reach_from([f.idx]) if deep else {i for i, r in enumerate(p.raw) if r["path"] == f.path or r["path"].startswith(f.path + "::{closure")}
        ip.relevant = set(ip.relevant) - set(leaf)
        ip.leaf = tuple(leaf)
    r = analyse(R, p, f, [m, *more], None, setup=setup, final=lambda ip, st, v: outs.append((st, models.deep(ip, st, v))))
    return m, r[0] if r else None, outs if r and r[1] is not None else None


def counts_meaning(p, R, m):
    """the counts as terms over the numbers of keys and children: {index: (term, {length: what it counts})}"""
    k = m.at("countsfut")
    got = {}
    for x in m.reached:
        fu = future_of(p, x.post[k]) if k is not None and x.post[k] is not m.before[k] and x.post[k].op == "agg" and x.post[k].a[1] == 1 else None
        if fu is None:
            continue
        _, f = params(p, fu[0])
        if f is None:
            return None
        _, ip, outs = results(p, R, f)
        if not outs:
            return None
        for st, v in outs:
            if v.op != "agg" or v.a[0] != "tuple":
                return None
            for i, t in enumerate(v.a[2]):
                kinds = {}
                for q in subterms(t):
                    if q.op == "app" and q.a[0] == "len":
                        w = seq_type(p, q.a[1][0])
                        kinds[q] = "keys" if "KeyValue" in w else "children" if "Child" in w else None
                new = (t, kinds)
                if got.setdefault(i, new)[0] is not t:
                    return None
    return got or None


def counted(mean, i, n, nc):
    """value of one of the counts for a node with n keys and nc children"""
    t, kinds = mean[i]
    return number(t, {q: n if w == "keys" else nc for q, w in kinds.items() if w})


def seq_type(p, s):
    ts = set()
    work = [s]
    while work:
        x = work.pop()
        if x.op == "app" and x.a[2] is not None and isinstance(x.a[2], int) and x.a[2] >= 0:
            ts.add(p.tys(x.a[2]))
            continue
        if x.op == "seq":
            for q in x.a:
                if q.op == "c" and q.a[3].op == "app":
                    work.append(q.a[3].a[1][0])
    return " ".join(ts)


def wanted(n, leaf, rev, incl, matched, i):
    """the acceptable listings of the positions of a node: 2j is child j, 2j+1 key j"""
    if leaf:
        if not rev:
            a = 2 * i + 1 if not matched or incl else 2 * i + 3
            return [list(range(a, 2 * n, 2))]
        a = 2 * i + 1 if matched and incl else 2 * i - 1
        return [list(range(a, 0, -2))]
    if not rev:
        starts = [2 * i] if not matched else [2 * i, 2 * i + 1] if incl else [2 * i + 2]
        return [list(range(a, 2 * n + 1)) for a in starts]
    starts = [2 * i] if not matched or not incl else [2 * i + 1, 2 * i + 2]
    return [list(range(a, -1, -1)) for a in starts]


def starting(p, R, m, report, traps=None):
    """check the positions listed for a node; {reversed: True when proven}"""
    proven = {False: None, True: None}
    k = m.at("iterfut")
    fus = {}
    for x in m.reached:
        if k is not None and x.post[k] is not m.before[k] and x.post[k].op == "agg" and x.post[k].a[1] == 1:
            fu = future_of(p, x.post[k])
            if fu is None:
                fus[None] = None
            else:
                fus.setdefault(fu[0].idx, []).append((x, fu[1]))
    if len(fus) != 1 or None in fus:
        report.open("positions of a node", "the future that lists them is not tracked")
        return proven
    mean = counts_meaning(p, R, m)
    (idx, uses), = fus.items()
    tys, f = params(p, p.body(idx))
    if f is None or mean is None or len(tys) != len(uses[0][1]):
        report.open("positions of a node", "how they are listed is not tracked")
        return proven
    leaf = set()
    for i, r in enumerate(p.raw):
        b = p.body(i)
        if r["kind"] == "fn" and b.locals and p.ty(b.locals[0])["k"] == "coroutine" and re.search(r"^std::result::Result<\(std::option::Option<u64>, usize\)", p.tys(result_ty(p, i))):
            leaf.update(j for j, q in enumerate(p.raw) if q["kind"] == "coroutine" and q["path"].startswith(r["path"] + "::{closure"))
    tr = Traps(R)
    calls, ip, outs = results(p, R, f, leaf=leaf, more=[tr])
    if not outs:
        report.open("positions of a node", "how they are listed is not decided")
        return proven
    args = [app("arg", j, ty=f.locals[j + 1]) for j in range(f.nargs)]
    cj = next((j for j, t in enumerate(tys) if t.endswith("TraverseConfig")), None)
    nj = next((j for j, t in enumerate(tys) if "RwLock<Node>" in t), None)
    if cj is None:
        report.open("positions of a node", "the configuration is not passed by value")
        return proven
    cf = config_fields(p)
    cty = f.locals[cj + 1]
    fields = p.ty(cty)["variants"][0]["fields"]
    conf = {n: ip.field(args[cj], cf[n], None) for n in cf}
    kc, kn = m.at("config"), m.at("node")
    # what the poll function passes
    for x, up in uses:
        report.expect(same(up[cj], m.before[kc], x.st), "the bounds used for a node are those of the traversal",
                      "a node's entries are chosen with bounds other than the traversal's: %s" % show(up[cj])[:120], m.body.span)
        if nj is not None:
            report.expect(same(up[nj], m.before[kn], x.st) or None, "the node listed is the node traversed", "the entries of another node are listed", m.body.span)
    counts = vf(m.before[m.at("counts")], 1, 0) if m.at("counts") is not None else None
    # the searches
    info = []
    for st, v in outs:
        nm, okv = search(calls, leaf, [v, *list(st.facts)])
        info.append((st, v, nm, okv))
    checks = [(st, c, kind, w, search(calls, leaf, [c, *list(st.facts)])[1]) for st, c, kind, w in tr.asserts]
    bad = {False: 0, True: 0}
    opens = {False: 0, True: 0}
    for rev in (False, True):
        want_key = conf["max_value" if rev else "min_value"]
        for body, a, st in [c for cs in calls.calls.values() for c in cs if c[0].idx in leaf]:
            h = truth_or(st, conf["reversed"])
            if h is not None and h is not rev:
                continue
            key = next((y for y in a if "LimitValue" in type_of(p, y)), a[1] if len(a) > 1 else None)
            text = "reversed" if rev else "forward"
            okk = same(key, want_key, st) if key is not None else None
            if okk is True:
                report.ok("%s: the starting bound" % text, "a %s traversal starts at its %s bound" % (text, "upper" if rev else "lower"))
                continue
            other = okk is False and same(key, conf["min_value" if rev else "max_value"], st) and h is not None
            report.expect(False if other else None, "%s: the starting bound" % text,
                          "a %s traversal starts at the %s bound" % (text, "lower" if rev else "upper"), f.span)
            bad[rev] += bool(other)
            opens[rev] += 1
    for rev in (False, True):
        for leafn in (False, True):
            for incl in (False, True):
                for matched in (False, True):
                    key = "positions: %s, %s node, bound %s%s" % ("reversed" if rev else "forward", "leaf" if leafn else "inner",
                                                                  "inclusive" if incl else "exclusive", ", key found" if matched else ", key not found")
                    n_ok = n_open = 0
                    wrong = None
                    for n in range(0 if leafn else 1, 7):
                        for i in range(0, n + (0 if matched else 1)):
                            env0 = {}
                            for ci in mean:
                                try:
                                    env0[fld(counts, ci)] = counted(mean, ci, n, 0 if leafn else n + 1)
                                except Unknown:
                                    pass
                            if traps is not None:
                                trapped(p, checks, args, uses, env0, conf, rev, incl, matched, i, n, traps)
                                continue
                            r = None
                            for other in (incl, not incl):
                                env0[conf["min_inclusive" if rev else "max_inclusive"]] = other
                                r = listed(p, ip, info, args, uses, env0, conf, rev, incl, matched, i)
                                if r is None or r not in wanted(n, leafn, rev, incl, matched, i):
                                    break
                            if r is None:
                                n_open += 1
                                continue
                            if r in wanted(n, leafn, rev, incl, matched, i):
                                n_ok += 1
                            elif wrong is None:
                                wrong = "a node with %d keys and position %d: visits %s, should visit %s" % (n, i, r, wanted(n, leafn, rev, incl, matched, i)[0])
                    if wrong:
                        bad[rev] += 1
                        report.bad(key, wrong, f.span)
                    elif n_open:
                        opens[rev] += 1
                        report.open(key, "%d of %d cases undecided" % (n_open, n_open + n_ok))
                    else:
                        report.ok(key, "closed form of the visited positions agrees on %d node sizes and positions" % n_ok)
    for rev in (False, True):
        proven[rev] = False if bad[rev] else None if opens[rev] else True
    return proven


def search(calls, leaf, ts):
    """(name, successful result) of the search inside a node the terms depend on"""
    for q in subterms(mk("x", *ts)):
        if q.op == "app" and q.a[0] == "new" and q.a[1][0] == "ok" and q.a[1][-1] in calls.calls:
            nm = q.a[1][-1]
            if calls.calls[nm][0][0].idx in leaf:
                return nm, q
    return None, None


def truth_or(st, t):
    for f, v in st.facts.items():
        if f is t:
            return v
    return None


def type_of(p, t):
    return p.tys(t.a[2]) if t.op == "app" and isinstance(t.a[2], int) and t.a[2] >= 0 else t.a[0] if t.op == "agg" else ""


def config_fields(p):
    t = next((t for t in p.types if t["k"] == "adt" and t["path"].endswith("TraverseConfig") and t.get("variants")), None)
    return {f[0]: i for i, f in enumerate(t["variants"][0]["fields"])} if t else {}


def trapped(p, checks, args, uses, env0, conf, rev, incl, matched, i, n, traps):
    """do the arithmetic checks on the way hold in one concrete case?"""
    for x, up in uses:
        env = dict(env0)
        try:
            for j, a in enumerate(args):
                if up[j].op in ("lin", "app", "const") and p.tys(a.a[2]) == "usize":
                    env[a] = number(up[j], env0)
        except Unknown:
            return
        env[conf["reversed"]] = rev
        env[conf["max_inclusive" if rev else "min_inclusive"]] = incl
        for st, c, kind, w, okv in checks:
            e = dict(env)
            if okv is not None:
                o = fld(okv, 0)
                e[app("discr", o)] = e[o] = int(matched)
                e[fld(okv, 1)] = i
            try:
                held = truth(c, e)
            except Unknown:
                traps.setdefault(w, {"ok": 0, "open": 0, "bad": None})["open"] += 1
                continue
            t = traps.setdefault(w, {"ok": 0, "open": 0, "bad": None})
            if held or applies_core(st, e, okv, conf) is False:
                t["ok"] += 1
            elif applies_core(st, e, okv, conf) is True:
                t["bad"] = t["bad"] or "%s: node with %d keys, position %d%s, %s traversal, bound %sclusive" % (
                    kind[:80], n, i, " (found)" if matched else "", "reversed" if rev else "forward", "in" if incl else "ex")
            else:
                t["open"] += 1


def listed(p, ip, info, args, uses, env0, conf, rev, incl, matched, i):
    """the listing of one concrete case, None when undecided"""
    got = []
    for x, up in uses:
        env = dict(env0)
        try:
            for j, a in enumerate(args):
                if up[j].op in ("lin", "app", "const") and p.tys(a.a[2]) == "usize":
                    env[a] = number(up[j], env0)
        except Unknown:
            return None
        env[conf["reversed"]] = rev
        env[conf["max_inclusive" if rev else "min_inclusive"]] = incl
        hits = []
        for st, v, nm, okv in info:
            e = dict(env)
            if okv is not None:
                o = fld(okv, 0)
                e[app("discr", o)] = int(matched)
                e[o] = int(matched)
                e[fld(okv, 1)] = i
            w = applies_core(st, e, okv, conf)
            if w is False:
                continue
            if v.op == "agg" and v.a[0].endswith("result::Result") and v.a[1] == 1:
                continue
            if w is None:
                return None
            try:
                hits.append(listing(v.a[2][0], e))
            except Unknown:
                return None
        if not hits or any(h != hits[0] for h in hits):
            return None
        got.append(hits[0])
    if not got or any(h != got[0] for h in got):
        return None
    return got[0]


def applies_core(st, env, okv, conf):
    """like applies, but which bound it is does not matter"""
    res = True
    for f, v in st.facts.items():
        try:
            if truth(f, env) is not v:
                return False
        except Unknown:
            if any(t in (conf["min_value"], conf["max_value"]) for t in subterms(f)):
                continue
            res = None
    return res


def in_bounds(p, m, st, kv):
    """[(state, is the key within the bounds?)] for every possible relation to the bounds; None: not tracked"""
    from .c11 import which
    ip = m.ip
    kf = next((i for i, f in enumerate(key_fields(p)) if f == "key"), None)
    cf = config_fields(p)
    if kf is None or not all(n in cf for n in ("min_value", "min_inclusive", "max_value", "max_inclusive", "reversed")):
        return [(st, None, {})]
    key = ip.field(kv, kf, None)
    conf = m.before[m.at("config")]
    out = [(st.copy(), {})]
    lim = p.ty(m.fields[m.at("config")][1])["variants"][0]["fields"][cf["min_value"]][1]
    for n in ("min", "max"):
        nxt = []
        for s, d in out:
            v = ip.field(conf, cf[n + "_value"], None)
            for s2, w in which(p, ip, s, v, lim):
                if w is None:
                    return [(st, None, {})]
                if isinstance(w, str):
                    # a bound below every key / above every key
                    nxt.append((s2, {**d, n: -1 if w == "below" else 1}))
                    continue
                t = models.bcmp(models.deep(ip, s2, w[1]), models.deep(ip, s2, key))
                for sg in (-1, 0, 1):
                    s3 = s2.copy()
                    if facts.assume(s3, {-1: ge0(sub(C(-1), t)), 0: eq_int(t, ZERO), 1: ge0(sub(t, ONE))}[sg]) and (sg or facts.assume(s3, ge0(t)) and facts.assume(s3, ge0(scale(t, -1)))):
                        nxt.append((s3, {**d, n: sg}))
        out = nxt
    fin = []
    for s, d in out:
        todo = [(s, d["min"] > 0, d["max"] < 0)]
        for i, n in enumerate(("min", "max")):
            if d[n] != 0:
                continue
            inc = ip.as_bool(ip.field(conf, cf[n + "_inclusive"], None))
            nx = []
            for s2, *v in todo:
                for h in (True, False):
                    s3 = s2.copy()
                    if facts.assume(s3, inc if h else neg(inc)):
                        w = list(v)
                        w[i] = w[i] or not h
                        nx.append((s3, *w))
            todo = nx
        for s2, lo, hi in todo:
            fin.append((s2, not lo and not hi, {"below": lo, "above": hi}))
    return fin


def key_fields(p):
    t = next((t for t in p.types if t["k"] == "adt" and t["path"].endswith("KeyValueData") and t.get("variants")), None)
    return [f[0] for f in t["variants"][0]["fields"]] if t else []
