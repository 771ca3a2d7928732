"""Whole traversals of trees of given shape: the stream that traverse returns is polled to its end, with symbolic bounds, keys
and values; every path is compared with the entries the bounds it has established admit."""
from .worlds import *
from .worlds import Log, fitting, plant, spread, sure
from . import traversal
from engine.models import NONE, some

RULE = ("Also: on logs that hold a tree of each of a list of shapes (stored keys symbolic) the stream that the tree's traverse returns is polled "
        "to its end, for every kind of bounds (infinite, a symbolic finite one, each inclusive or not) and both directions, child streams included; "
        "on each path the entries yielded are those that lie within the bounds wherever the path has placed them among the stored keys, in order.")
POLLS = 900


class Scan:
    def __init__(self, p, R, prop, f, shape, conf, broken=None):
        self.p, self.R, self.prop, self.f, self.shape, self.conf = p, R, prop, f, shape, conf
        self.root, self.blocks, self.length = plant(shape)
        self.seqs = self.root.listing()
        lo, hi, rev = conf
        self.broken = broken
        self.key = "%s %s of the tree %s from %s to %s" % (f.path, "backwards" if rev else "forwards", shape, say(lo), say(hi))
        if broken:
            self.key += ", block %d cannot be decoded" % broken
            self.blocks = dict(self.blocks, **{})
            self.blocks[broken] = "bytes"
        self.body = traversal.machine(p)
        self.where = self.body.span if self.body else f.span
        self.lost, self.good = [], set()

    def config(self, ip):
        """the argument"""
        p, f = self.p, self.f
        t = p.ty(f.locals[2])
        fs = t["variants"][0]["fields"]
        lo, hi, rev = self.conf
        lt = next(x for x in p.types if x["k"] == "adt" and x["path"].endswith("LimitValue"))
        it = next(x for x in p.types if x["k"] == "adt" and x["path"].endswith("InfiniteKeys"))
        vi = lambda t, n: next(i for i, v in enumerate(t["variants"]) if v["name"] == n)

        def limit(b, name, side):
            if b is None:
                return agg("adt:" + lt["path"], vi(lt, "Infinite"), (agg("adt:" + it["path"], vi(it, side), ()),))
            return agg("adt:" + lt["path"], vi(lt, "Finite"), (app(name, ty=ip.vecu8),))
        d = {"min_value": limit(lo, "lowest", "Negative"), "max_value": limit(hi, "highest", "Positive"),
             "min_inclusive": TRUE if lo is None or lo else FALSE, "max_inclusive": TRUE if hi is None or hi else FALSE, "reversed": TRUE if rev else FALSE}
        return agg("adt:" + t["path"], 0, tuple(d[x[0]] for x in fs))

    def expect(self, props, ok, what, why):
        if self.prop not in props and not os.environ.get("HB_ALL"):
            return
        key = "%s: %s" % (self.key, what)
        if ok is None or ok is False and not self.sure:
            self.lost.append(what)
        elif ok:
            self.good.add(what)
        else:
            self.R.expect(False, key, "%s (%s)" % (why, self.key), self.where)

    def run(self, seconds):
        if self.body is None:
            self.R.open(self.key, "the poll function of the traversal is not found")
            return
        me = self
        self.polls = 0
        log = Log(self.p, self.blocks, self.length)
        log.depth = 8
        self.bad = []

        class M(Quiet):
            events = ("panic", "assert", "wake", "poll_done")

            def on_panic(self, ip, st, why=None, **k):
                me.bad.append(("panics: %s" % (why,), st.copy()))

            def on_wake(self, ip, st, **k):
                st.setmon("woken", ONE)

            def on_poll_done(self, ip, st, **k):
                me.bad.append(("polls an operation that has finished", st.copy()))

            def on_assert(self, ip, st, cond=None, known=None, kind=None, **k):
                if known is False:
                    me.bad.append(("panics: %s" % kind, st.copy()))

        def again(ip, c, st, args):
            a = args[0]
            for _ in range(4):
                v = ip.load(st, *ip.deref(a)) if a.op == "ptr" else None
                if v is None or v.op != "ptr":
                    break
                a = v
            args = [a] + list(args[1:])
            return ip.exec_fn(me.body, args, st, mk("ctxf", c.ctx, me.body.idx), c.fr.depth + 1) if c.fr.depth < 40 else NotImplemented

        def setup(ip):
            me.ip = ip
            ip.graph = g(me.p)
            ip.cap, ip.errcap, ip.unroll, ip.world = 1000, 1, 60, log
            ip.relevant = None
            ip.hooks = {"poll_next": again}

        def init(ip, st, args):
            args[1] = me.config(ip)
        ends = []

        def final(ip, st, v):
            for s, k, pay in res(ip, st, v):
                ends.append((s, k, pay))
        Q = Report("X")
        EXPAND[0] = 60

        def finish(ip, st, v):
            final(ip, st, v)
        try:
            def last(ip, st, v):
                final(ip, st, v)
                while ends:
                    s, k, pay = ends.pop()
                    if k == "ok":
                        me.drive(ip, s, pay)
            analyse(Q, self.p, self.f, [M(Report("X"))], None, setup=setup, init=init, final=last, seconds=seconds, budget=8000000)
        finally:
            EXPAND[0] = 4
        R = self.R
        R.steps += Q.steps
        R.fns |= Q.fns
        R.quiet |= Q.quiet
        R.paths += Q.paths
        R.roots.append(self.f.path)
        R.roots.append(self.body.path)
        why = next(iter(Q.undec.values()), None)
        if why is None and self.ip.cut:
            why = "more iterations than followed: %s" % (self.ip.cut[:2],)
        if why is None and self.stuck:
            why = self.stuck
        if why:
            R.open(self.key, why)
            return
        for t, s in self.bad:
            lo, hi = self.places(s)
            self.sure = sure(s)
            if lo and hi:
                self.expect(("C14", "C13") if not self.broken else ("C14", "C18", "C19"), False, "no panic", "it " + t)
        for w in sorted(self.good):
            R.expect(True, "%s: %s" % (self.key, w), "", self.where)
        for w in sorted(set(self.lost) - self.good):
            R.open("%s: %s" % (self.key, w), "not tracked")

    stuck = None
    sure = True

    def drive(self, ip, st, stream):
        n = 0
        while stream.op == "ptr" and n < 4:
            stream = ip.at(st, stream)
            n += 1
        n = 0
        while stream.op == "agg" and stream.a[0] == "streammap" and n < 4:
            stream = stream.a[2][0]
            n += 1
        if stream.op != "agg" or not stream.a[0].startswith("adt:"):
            self.stuck = "the stream is not tracked: %s" % show(stream)[:80]
            return
        i = self.body.locals[1]
        ptr = app("arg", "stream", ty=i)
        t = self.p.ty(i)
        while not (t["k"] == "adt" and t.get("variants") and t["path"] != "std::pin::Pin"):
            i = t["to"] if t["k"] in ("ref", "ptr") else t["args"][0] if t.get("args") else t["variants"][0]["fields"][0][1]
            t = self.p.ty(i)
        o, pr = ip.deref(ptr, i)
        ip.store_quiet(st, o, pr, stream)
        work = [(st, ())]
        i = 0
        while work:
            s, items = work.pop()
            i += 1
            if i > POLLS * 20:
                self.stuck = "too many polls"
                return
            if len(items) > len(self.seqs) + 6:
                if self.broken:
                    self.sure = sure(s)
                    self.expect(("C14", "C19"), False, "it ends", "it yields more items than there are entries and never ends")
                else:
                    self.judge(ip, s, items)
                continue
            if cval(s.mon("nfacts", ZERO)) != len(s.facts):
                s.setmon("nfacts", C(len(s.facts)))
                if not all(self.places(s)):
                    continue
            s.setmon("woken", ZERO)
            n = cval(s.mon("polls", ZERO)) + 1
            if n > POLLS:
                self.stuck = "too many polls"
                return
            s.setmon("polls", C(n))
            arg = ptr
            cx = app("arg", "cx", ty=self.body.locals[2])
            for s2, v in ip.exec_fn(self.body, [arg, cx], s, mk("ctx", "poll", C(n)), 0):
                for s3, k, fs in variants(ip, s2, v):
                    if k == 1:
                        self.expect(("C14",), True, "a wake-up is arranged", "")
                        if cval(s3.mon("woken", ZERO)) == 0:
                            self.sure = sure(s3)
                            self.expect(("C14",), False, "a wake-up is arranged", "a poll returns pending and nothing will wake the task")
                            continue
                        work.append((s3, items))
                        continue
                    for s4, k4, f4 in variants(ip, s3, fs[0]):
                        if not all(self.places(s4)):
                            continue
                        if k4 == 0:
                            self.judge(ip, s4, items)
                        else:
                            work.append((s4, items + (models.deep(ip, s4, f4[0]),)))

    def places(self, st):
        """possible places of the two bounds among the stored keys"""
        out = []
        for b, name, far in ((self.conf[0], "lowest", ("gap", 0)), (self.conf[1], "highest", ("gap", len(self.seqs)))):
            if b is None:
                out.append([far])
            else:
                t = app(name, ty=self.ip.vecu8)
                out.append(fitting(st, t, self.seqs, self.ip.vecu8))
        return out

    def judge(self, ip, st, items):
        lo, hi = self.places(st)
        self.sure = sure(st)
        got = []
        failed = False
        for x in items:
            r = next((y for y in ([x] if x.op == "agg" and x.a[0] == "adt:std::result::Result" else x.a[2] if x.op == "agg" else ())
                      if y.op == "agg" and y.a[0] == "adt:std::result::Result"), None)
            if r is None:
                self.expect(("C12", "C13", "C26"), None, "the entries", "")
                return
            if r.a[1] == 1:
                if self.broken:
                    failed = True
                    continue
                if lo and hi:
                    self.expect(("C13", "C14", "C26"), False, "no error", "an error is yielded although every block can be read: %s" % show(r)[:80])
                return
            got.append(self.entry(ip, st, r.a[2][0]))
        if any(x is None for x in got):
            self.expect(("C12", "C13", "C26"), None, "the entries", "")
            return
        if self.broken:
            self.expect(("C14", "C18", "C19"), failed, "the failure is yielded", "the entries %s are yielded and no error" % got)
            self.expect(("C14",), True, "it ends", "")
            return
        for a in lo:
            for b in hi:
                want = [s for i, s in enumerate(self.seqs) if self.above(i, a) and self.below(i, b)]
                if self.conf[2]:
                    want.reverse()
                t = "with the bounds at %s and %s it yields %s instead of %s" % (self.place(a), self.place(b), got, want)
                self.expect(("C12",), all(x in want for x in got), "only entries within the bounds", t)
                inside = [x for x in got if x in want]
                self.expect(("C13", "C26"), inside == want, "every entry within the bounds once, in order", t)

    def place(self, r):
        return "entry %s" % self.seqs[r[1]] if r[0] == "eq" else "gap %d" % r[1]

    def above(self, i, r):
        return i > r[1] or i == r[1] and (r[0] == "gap" or bool(self.conf[0]))

    def below(self, i, r):
        return i < r[1] or i == r[1] and r[0] == "eq" and bool(self.conf[1])

    def entry(self, ip, st, x):
        """number of the entry; its key and value must be those stored with it"""
        if x.op != "agg":
            return None
        fs = next([f[0] for f in t["variants"][0]["fields"]] for t in self.p.types if t["k"] == "adt" and "adt:" + t["path"] == x.a[0])
        d = dict(zip(fs, x.a[2]))
        if "key" not in d or not (d["key"].op == "app" and d["key"].a[0] == "key"):
            return None
        n = cval(d["key"].a[1][0])
        if "seq" in d and is_const(d["seq"]) and cval(d["seq"]) != n:
            self.expect(("C13", "C26"), False, "number of the entry", "the entry with the key of block %d is yielded with number %d" % (n, cval(d["seq"])))
        v = d.get("value")
        if v is not None and v.op == "app" and v.a[0] == "value":
            self.expect(("C13", "C26"), cval(v.a[1][0]) == n, "value of the entry", "the entry with the key of block %d is yielded with the value of block %s" % (n, cval(v.a[1][0])))
        return n


def say(b):
    return "the end" if b is None else "a key %s" % ("inclusive" if b else "exclusive")


SHAPES = [0, 1, 2, 3, [4, 4], [4, 5, 4]]
BIG = [[[4] * 5, [4] * 5], [[4, 5, 4, 4, 8], [4] * 6]]


def scan(p, R, prop, seconds=40):
    R.rule = " ".join((R.rule or "").split()) + " " + (RULE if prop not in ("C18", "C19") else RULE.split(", for every kind")[0] + ", with one block undecodable: an error is yielded.")
    jobs = []
    ends = (None, True, False)
    shapes = SHAPES + ([[5, 4, 4, 6]] if R.tier == "thorough" else [])
    for f in methods(p, "tree::Tree", "traverse"):
        for rev in (False, True):
            jobs += [(f, s, (None, None, rev)) for s in BIG if prop not in ("C18", "C19")]
            for s in shapes if prop not in ("C18", "C19") else ():
                jobs += [(f, s, (lo, hi, rev)) for lo in ends for hi in ends
                         if (lo is None and hi is None or prop != "C26") and (lo is None or hi is None or not isinstance(s, list) or len(s) < 3 or R.tier == "thorough")]
        if prop in ("C14", "C18", "C19"):
            for sh in ([4, 4], [4, 5, 4]):
                for b in sorted(set(plant(sh)[0].listing())):
                    if b != plant(sh)[2] - 1:
                        jobs += [(f, sh, (None, None, rev), b) for rev in (False, True)]
    jobs.sort(key=lambda j: -(0 if not isinstance(j[1], list) else 100 if isinstance(j[1][0], list) else sum(j[1]) * (1 + (j[2][0] is not None) + (j[2][1] is not None))))
    spread(R, jobs, lambda Q, j: Scan(p, Q, prop, *j).run(seconds), seconds)
