"""Loop invariants: generalise a head state over the iteration number until it is inductive.

A leaf of the head state is unchanged, affine in the iteration number, a sequence that grows by a template or
shrinks at an end, a value determined by the previous iteration, or (top) an opaque value 'itv' of its type."""
from .term import *
from . import term
from .facts import holds, assume, entails
from .interp import Undecided, sig, State, has_guard, match

ROUNDS = 9
MAXPHASE = 4


def shape(ip, fr, head, st):
    out = []
    for o, v in st.mem.items():
        if o.op == "loc":
            if o.a[0] == fr.depth and o.a[1] not in fr.body.live[head] and o.a[1] not in fr.body.addr:
                continue
            out.append((o.a[0], o.a[1], vshape(v, 2)))
        elif o.op == "mon":
            out.append((-1, o.uid, mshape(v)))
    return (tuple(sorted(out, key=lambda x: (x[0], x[1]))),)


def vshape(v, d):
    if v.op == "agg":
        if d == 0:
            return (v.a[0], v.a[1])
        return (v.a[0], v.a[1]) + tuple(vshape(f, d - 1) for f in v.a[2])
    if v.op == "b":
        return v.a[0]
    if v.op == "seq":
        return "empty" if not v.a else "*"
    if v.op == "uninit":
        return "un"
    return "*"


def mshape(v):
    if v.op == "b" or v.op == "const":
        return v.a[0]
    if v.op == "agg":
        return (v.a[0], v.a[1]) + tuple(mshape(f) for f in v.a[2])
    return "*"


def clean(ip, fr, head, backs):
    for s in backs:
        ip.trim(fr, head, s)
        # dead address-taken locals of simple kinds are noise at a loop head
        ip.gc(s)
    return ip.merge(backs, ip.cap if ip.unroll else 8, mk("ctxm", fr.ctx, head))


def summarise(ip, fr, head, st):
    body = fr.body
    region = body.loops[head]

    def run(states, idx, phase):
        c = fr.ctx if phase == 0 else mk("ctxph", fr.ctx, phase)
        fr2 = fr.with_ctx(mk("ctxit", c, head, idx))
        return ip.region(fr2, {head: states}, region, head)

    out = []
    cur, n = st, 0
    ip.trim(fr, head, cur)
    if ip.unroll:
        # a rule that gives the looped-over structure a size: iterations are followed one by one
        todo = [cur]
        for i in range(ip.unroll):
            e, b, r = run([s.copy() for s in todo], C(i), 0)
            out.extend(e)
            out.extend(("ret", None, s) for s in r)
            todo = clean(ip, fr, head, b)
            if not todo:
                return out
        ip.cut.append((body.short, head))
        return out
    while True:
        e, b, r = run([cur.copy()], C(n), 0)
        out.extend(e)
        out.extend(("ret", None, s) for s in r)
        b = clean(ip, fr, head, b)
        n += 1
        if not b:
            return out
        if not e and not r and len(b) == 1 and n < 6:
            cur = b[0]
            continue
        break
    L = Loop(ip, fr, head, run, out)
    groups = {}
    for s in b:
        groups.setdefault((shape(ip, fr, head, s), len(s.locks)), []).append(s)
    for k, g in groups.items():
        L.general(cur, g, n, 0, (k[0],))
    return out


class Loop:
    def __init__(self, ip, fr, head, run, out):
        self.ip, self.fr, self.head, self.run, self.out = ip, fr, head, run, out
        self.nphase = 0

    def general(self, S0, S1s, n, phase, trail):
        ip, fr, head = self.ip, self.fr, self.head
        if phase > MAXPHASE:
            raise Undecided("loop does not settle in %s" % fr.body.short)
        self.nphase += 1
        ph = self.nphase
        shp = shape(ip, fr, head, S1s[0])
        key = mk("lk", fr.ctx, head, ph)
        p = mk("it", key, head)
        base = S1s[0].copy()
        for s in S1s[1:]:
            base = ip_join_facts(ip, base, s)
        keys = set(base.mem)
        for s in S1s[1:]:
            keys &= set(s.mem)
        base.mem = {k: base.mem[k] for k in base.mem if k in keys}
        if any(s.locks != base.locks for s in S1s):
            raise Undecided("different locks at loop head in %s" % fr.body.short)
        modes = {}
        # leaves on which the entries already differ
        for o in base.mem:
            vs = [s.mem[o] for s in S1s]
            if any(v is not vs[0] for v in vs):
                diff_leaves(vs, (), lambda path, xs: modes.__setitem__((o, path), ("itv",)))
        cands = None
        last = None
        lockmode = None
        fams = ()
        quant = ()
        for rnd in range(ROUNDS):
            G = base.copy()
            G.set_fact(ge0(sub(p, C(n))), True)
            for o in list(G.mem):
                G.mem[o] = self.build(G.mem[o], o, (), modes, p, n, key)
            if lockmode is not None:
                G.locks = lockmode
            G.fams = base.fams + fams
            G.quant = base.quant + quant
            if cands is None and any(m[0] == "itv" for m in modes.values()):
                cands = self.candidates(S1s, base, modes, p, n, key)
            for f in cands or ():
                assume(G, f)
            Gk = G.copy()
            save = ip.save_monitors()
            e, b, r = self.run([G], p, ph)
            b = clean(ip, fr, head, b)
            mine = [s for s in b if shape(ip, fr, head, s) == shp and len(s.locks) == len(Gk.locks)]
            other = [s for s in b if s not in mine]
            ch = False
            # memory: unchanged, changed leaves, per-iteration objects
            newfams = []
            if mine:
                for o in Gk.mem:
                    bs = []
                    for s in mine:
                        v = s.mem.get(o)
                        if v is None:
                            v = ip.load_obj(s, o) if o.op == "der" else UNINIT
                        bs.append(v)
                    if self.compare(base.mem[o], bs, o, (), modes, p, n, key, Gk):
                        ch = True
                for s in mine:
                    for o in s.mem:
                        if o in Gk.mem or o.op == "loc" or o.op == "mon":
                            if o.op == "mon" and o not in Gk.mem:
                                # first set inside the loop: absent at the head
                                pass
                            continue
                        if p in o.syms:
                            q = mk("it", mk("fam", key), rnd * 0)
                            c = s.mem[o]
                            t = (q, C(n), p, subst(o, {p: q}), subst(c, {p: q}))
                            newfams.append(t)
                        elif o.op == "der":
                            # an object from outside the loop is changed in it
                            base.mem[o] = ip.load_obj(Gk, o)
                            modes[(o, ())] = ("itv",)
                            ch = True
                lk = mine[0].locks
                if any(s.locks != lk for s in mine):
                    raise Undecided("locks differ at loop head in %s" % fr.body.short)
                if tuple(subst_lock(l, {p: add(p, ONE)}) for l in Gk.locks) != lk:
                    want = tuple(subst_lock(l, {p: sub(p, ONE)}) for l in lk)
                    if lockmode is not None or tuple(subst_lock(l, {p: C(n)}) for l in want) != base.locks:
                        raise Undecided("locks change at loop head in %s" % fr.body.short)
                    lockmode = want
                    ch = True
                # candidate facts
                if cands:
                    keep = [f for f in cands if all(self.preserved(f, s, Gk, modes, p, n, key, base) for s in mine)]
                    if len(keep) != len(cands):
                        cands = keep
                        ch = True
                # what each iteration establishes
                nq = self.quants(Gk, mine, p, n, key)
                nf = dedup_fams(newfams)
                if nf != fams:
                    fams = nf
                    ch = True
                if nq != quant:
                    if rnd < ROUNDS - 3:
                        quant = nq
                        if nq:
                            ch = True
                    else:
                        quant = ()
            if not ch:
                last = (e, other, r, Gk, mine)
                break
            ip.restore_monitors(save)
            if rnd == ROUNDS - 4:
                # settle: whatever still changes is opaque
                for k2, m in list(modes.items()):
                    if m[0] not in ("itv",) and m[-1] == "x":
                        modes[k2] = ("itv",)
        else:
            raise Undecided("no loop invariant found in %s" % fr.body.short)
        e, other, r, Gk, mine = last
        log = getattr(ip, "loop_log", None)
        if log is not None:
            log.append((fr, head, S1s, base, dict(modes), Gk, mine, p, n, key, self))
        self.out.extend(e)
        self.out.extend(("ret", None, s) for s in r)
        groups = {}
        for s in other:
            groups.setdefault((shape(ip, fr, head, s), len(s.locks)), []).append(s)
        for k, g in groups.items():
            if k[0] in trail:
                raise Undecided("loop alternates between shapes in %s" % fr.body.short)
            self.second(Gk, g, phase, trail + (k[0],))

    def second(self, S0, g, phase, trail):
        """states that reach the head in another shape: a new phase of the loop"""
        ip, fr, head = self.ip, self.fr, self.head
        self.nphase += 1
        ph = self.nphase
        backs = []
        for s in g:
            e, b, r = self.run([s.copy()], ZERO, ph)
            self.out.extend(e)
            self.out.extend(("ret", None, x) for x in r)
            backs.extend(b)
        backs = clean(ip, fr, head, backs)
        groups = {}
        for s in backs:
            groups.setdefault((shape(ip, fr, head, s), len(s.locks)), []).append(s)
        for k, gg in groups.items():
            self.general(g[0], gg, 1, phase + 1, trail + (k[0],) if k[0] not in trail else trail)

    # ------------------------------------------------------------ leaves
    def itv(self, o, path, p, key, like):
        ty = like.a[2] if like.op == "app" else None
        r = app("itv", mk("itk", key, o, path), p, ty=ty)
        return r

    def build(self, v, o, path, modes, p, n, key):
        m = modes.get((o, path))
        if m is not None:
            k = m[0]
            if k == "itv":
                t = self.ip.leaf_types.get((key, o, path))
                r = app("itv", mk("itk", key, o, path), p, ty=t if t is not None else (v.a[2] if v.op == "app" else None))
                if v.op in ("b", "ge0", "eqz", "eq", "not", "and", "or"):
                    r = app("itv", mk("itk", key, o, path), p, ty=self.ip.boolty)
                self.ip.itv_src.setdefault(r.a[1][0], set()).add(v)
                return r
            if k == "affine":
                return add(v, scale(sub(p, C(n)), m[1]))
            if k == "grow":
                return concat(v, mkseq([seg(C(n), p, lambda i: subst(m[1], {p: i}))]))
            if k == "growf":
                return concat(mkseq([seg(C(n), p, lambda i: subst(m[1], {p: sub(add(C(n - 1), p), i)}))]), v)
            if k == "growk":
                W = app("itw", mk("itk", key, o, path), ty=m[2])
                return concat(v, mkseq([opaque_seg(W, ZERO, scale(sub(p, C(n)), m[1]))]))
            if k == "shrink":
                N = seq_len(v)
                return mkseq([seg(ZERO, sub(N, sub(p, C(n))), lambda i: elem(v, i) if v.op == "app" else app("elem", v, i))])
            if k == "shrinkf":
                N = seq_len(v)
                d = sub(p, C(n))
                v2 = as_seq(v)
                if len(v2.a) == 1 and v2.a[0].op == "c":
                    q = v2.a[0]
                    return mkseq([mk("c", q.a[0], add(q.a[1], d), q.a[2], q.a[3])])
                return mkseq([seg(d, N, lambda i: elem(v, i) if v.op == "app" else app("elem", v, i))])
            if k == "prev":
                return m[1]
        if v.op == "agg" and v.a[0] != "guard":
            return mk("agg", v.a[0], v.a[1], tuple(self.build(f, o, path + (i,), modes, p, n, key) for i, f in enumerate(v.a[2])))
        if v.op == "seq" and v.a and all(x.op == "e" for x in v.a):
            return mk("seq", *[elem_e(self.build(x.a[0], o, path + (("e", i),), modes, p, n, key)) for i, x in enumerate(v.a)])
        return v

    def compare(self, v, bs, o, path, modes, p, n, key, Gk):
        """True if the guess for the leaf had to be changed"""
        m = modes.get((o, path))
        if m is None:
            if all(b is v for b in bs):
                return False
            if v.op == "agg" and v.a[0] != "guard" and all(b.op == "agg" and b.a[:2] == v.a[:2] and len(b.a[2]) == len(v.a[2]) for b in bs):
                ch = False
                for i, f in enumerate(v.a[2]):
                    if self.compare(f, [b.a[2][i] for b in bs], o, path + (i,), modes, p, n, key, Gk):
                        ch = True
                return ch
            if v.op == "seq" and v.a and all(x.op == "e" for x in v.a) and all(
                    b.op == "seq" and len(b.a) == len(v.a) and all(x.op == "e" for x in b.a) for b in bs):
                ch = False
                for i, x in enumerate(v.a):
                    if self.compare(x.a[0], [b.a[i].a[0] for b in bs], o, path + (("e", i),), modes, p, n, key, Gk):
                        ch = True
                return ch
        cur = self.build(v, o, path, modes, p, n, key)
        want = subst(cur, {p: add(p, ONE)})
        if m is not None and m[0] == "itv":
            src = self.ip.itv_src.setdefault(mk("itk", key, o, path), set())
            for b in bs:
                src.add(b)
                if b.op == "app" and b.a[2] is not None and self.ip.leaf_types.get((key, o, path)) is None:
                    self.ip.leaf_types[(key, o, path)] = b.a[2]
                    if cur.a[2] is None:
                        return True
            return False
        if all(b is want for b in bs):
            return False
        # forget refinements below this leaf
        cnt = 0 if m is None else m[-2] if len(m) > 2 and isinstance(m[-2], int) else 1
        nm = self.guess(v, cur, bs, p, n, key, m, Gk)
        if m is not None and nm[0] == m[0] and nm[0] != "itv":
            tries = self.tries.get((key, o, path), 0) + 1
            self.tries[(key, o, path)] = tries
            if tries > 3:
                nm = ("itv",)
        elif m is not None and m[0] not in ("const",) and nm[0] != "itv":
            tries = self.tries.get((key, o, path), 0) + 1
            self.tries[(key, o, path)] = tries
            if tries > 4:
                nm = ("itv",)
        for k2 in [k2 for k2 in modes if k2[0] is o and len(k2[1]) > len(path) and k2[1][:len(path)] == path]:
            del modes[k2]
        modes[(o, path)] = nm
        return True

    @property
    def tries(self):
        d = getattr(self, "_tries", None)
        if d is None:
            d = self._tries = {}
        return d

    def guess(self, v, cur, bs, p, n, key, m, Gk):
        b = bs[0]
        if any(x is not b for x in bs):
            return ("itv",)
        isint = lambda x: x.op in ("lin", "it", "bv") or x.op == "app" and self.ip.intish(x)
        if isint(v) and (isint(b) or b.op == "app"):
            d = sub(b, cur)
            if is_const(d) and cval(d):
                return ("affine", cval(d))
        if is_seq(self.ip, v) or is_seq(self.ip, b):
            g = self.seq_guess(v, cur, b, p, n, key, Gk)
            if g is not None:
                return g
        # determined by the previous iteration
        if not mentions(b, ("obj", "ptr", "gid")) or b.op == "agg" and b.a[0] == "guard":
            c = subst(b, {p: sub(p, ONE)})
            if subst(b, {p: C(n - 1)}) is v or rename_ph(subst(b, {p: C(n - 1)}), v):
                return ("prev", c)
        return ("itv",)

    def seq_guess(self, v, cur, b, p, n, key, Gk):
        if cur.op == "app" and b.op == "app":
            return None
        cp, bp = as_seq(cur).a, as_seq(b).a
        # growth at the end
        k = 0
        while k < len(cp) and k < len(bp) and cp[k] is bp[k]:
            k += 1
        if k == len(cp) and len(bp) > k:
            D = bp[k:]
            if len(D) == 1 and D[0].op == "e":
                return ("grow", D[0].a[0])
            if all(x.op == "e" for x in D):
                return ("growk", len(D), self.ip.seq_ty_of(v, b))
            return None
        if k == len(cp) - 1 and len(bp) >= len(cp):
            # the last part was extended in place
            x, y = cp[k], bp[k]
            if x.op == "c" and y.op == "c" and x.a[3] is y.a[3] and x.a[1] is y.a[1]:
                d = sub(y.a[2], x.a[2])
                if d is ONE and len(bp) == len(cp):
                    return ("grow", part_at(x, x.a[2]))
        # growth at the front
        k = 0
        while k < len(cp) and k < len(bp) and cp[-1 - k] is bp[-1 - k]:
            k += 1
        if k == len(cp) and len(bp) == k + 1 and bp[0].op == "e":
            return ("growf", bp[0].a[0])
        # shrinking by one
        d = sub(seq_len(b), seq_len(cur))
        if d is C(-1):
            if len(cp) and len(bp) <= len(cp):
                i = 0
                while i < len(bp) and i < len(cp) and cp[i] is bp[i]:
                    i += 1
                if i >= len(bp) - 1:
                    x = cp[i]
                    if i == len(bp) or bp[i].op == "c" and x.op == "c" and x.a[3] is bp[i].a[3] and x.a[1] is bp[i].a[1]:
                        return ("shrink",)
                i = 0
                while i < len(bp) and i < len(cp) and cp[-1 - i] is bp[-1 - i]:
                    i += 1
                if i >= len(bp) - 1:
                    x = cp[-1 - i]
                    if i == len(bp) or bp[0].op == "c" and x.op == "c" and x.a[3] is bp[0].a[3] and x.a[2] is bp[0].a[2]:
                        return ("shrinkf",)
        return None

    # ------------------------------------------------------------ facts
    def candidates(self, S1s, base, modes, p, n, key):
        """linear relations between changing integers that hold on entry"""
        ip = self.ip
        xs, ys = [], []

        def walk(v, o, path, vals):
            m = modes.get((o, path))
            isint = all(x.op in ("lin", "it", "bv") or x.op == "app" and ip.intish(x) for x in vals)
            if m is not None and m[0] == "itv":
                if isint:
                    xs.append((app_itv(self, v, o, path, modes, p, n, key), vals))
                return
            if isint and m is None and o.op == "loc":
                ys.append((v, vals))
            if m is not None and m[0] == "affine":
                ys.append((self.build(v, o, path, modes, p, n, key), vals))
                return
            if v.op == "agg" and v.a[0] != "guard" and all(x.op == "agg" and x.a[:2] == v.a[:2] for x in vals):
                for i, f in enumerate(v.a[2]):
                    walk(f, o, path + (i,), [x.a[2][i] for x in vals])
        for o in base.mem:
            if o.op == "loc":
                walk(S1s[0].mem[o], o, (), [s.mem[o] for s in S1s])
        ys = ys[:12]
        out = []
        pairs = [(x, y) for i, x in enumerate(xs) for y in xs[i + 1:]] + [(x, y) for x in xs for y in ys] + \
                [(x, (ZERO, [ZERO] * len(S1s))) for x in xs]
        for (x, vx), (y, vy) in pairs:
            if x is y:
                continue
            for f in (lambda a, b: ge0(sub(a, b)), lambda a, b: ge0(sub(b, a)), lambda a, b: ge0(add(sub(a, b), ONE)),
                      lambda a, b: ge0(add(sub(b, a), ONE)), lambda a, b: ge0(add(sub(a, b), C(-1))), lambda a, b: ge0(add(sub(b, a), C(-1)))):
                if all(holds(s, f(a, b)) is True for s, a, b in zip(S1s, vx, vy)):
                    out.append(f(x, y))
        seen, res = set(), []
        for f in out:
            if f not in seen and f.op != "b":
                seen.add(f)
                res.append(f)
        return res[:60]

    def preserved(self, f, s, Gk, modes, p, n, key, base):
        """does fact f hold at the next head, given back-edge state s?"""
        m = {}
        for (o, path), md in modes.items():
            if md[0] != "itv":
                continue
            x = app_itv(self, leaf(base.mem.get(o), path), o, path, modes, p, n, key)
            if x is None:
                continue
            b = s.mem.get(o)
            b = leaf(b, path) if b is not None else None
            if b is not None:
                m[x] = b
        if p in f.syms:
            # itv leaves and p itself move on together
            f2 = replace_terms(f, m, p)
        else:
            f2 = f
        return holds(s, f2) is True

    def quants(self, Gk, mine, p, n, key):
        if not mine:
            return ()
        common = None
        for s in mine:
            new = {t: v for t, v in s.facts.items() if t not in Gk.facts and p in t.syms and not t.unk}
            common = new if common is None else {t: v for t, v in common.items() if new.get(t) is v or holds(s, t) is v}
        if not common:
            return ()
        q = mk("it", mk("qv", key), 0)
        fs = tuple(sorted(((subst(t, {p: q}), v) for t, v in common.items()), key=lambda x: x[0].uid))[:40]
        return ((q, C(n), p, fs),)


def app_itv(L, v, o, path, modes, p, n, key):
    if v is None:
        return None
    return L.build(v, o, path, {(o, path): ("itv",)}, p, n, key)


def leaf(v, path):
    for i in path:
        if v is None:
            return None
        if isinstance(i, tuple):
            if v.op != "seq" or i[1] >= len(v.a) or v.a[i[1]].op != "e":
                return None
            v = v.a[i[1]].a[0]
        else:
            if v.op != "agg" or i >= len(v.a[2]):
                return None
            v = v.a[2][i]
    return v


def replace_terms(f, m, p):
    def g(x):
        if x in m:
            return m[x]
        if x is p:
            return add(p, ONE)
        if p not in x.syms:
            return x
        return None
    return map_terms(f, g)


def diff_leaves(vs, path, f):
    v = vs[0]
    if all(x is v for x in vs):
        return
    if v.op == "agg" and v.a[0] != "guard" and all(x.op == "agg" and x.a[:2] == v.a[:2] and len(x.a[2]) == len(v.a[2]) for x in vs):
        for i in range(len(v.a[2])):
            diff_leaves([x.a[2][i] for x in vs], path + (i,), f)
        return
    if v.op == "seq" and v.a and all(x.op == "seq" and len(x.a) == len(v.a) and all(y.op == "e" for y in x.a) for x in vs):
        for i in range(len(v.a)):
            diff_leaves([x.a[i].a[0] for x in vs], path + (("e", i),), f)
        return
    f(path, vs)


def is_seq(ip, v):
    return v.op == "seq" or v.op == "app" and ip.p.is_seq_ty(v.a[2])


_ment = {}


def mentions(t, ops):
    k = (t, ops)
    r = _ment.get(k)
    if r is None:
        r = any(x.op in ops for x in subterms(t))
        _ment[k] = r
    return r


def rename_ph(a, b):
    return strip_ph(a) is strip_ph(b)


_sp = {}


def strip_ph(t):
    r = _sp.get(t)
    if r is None:
        r = map_terms(t, lambda x: strip_ph(x.a[0]) if x.op == "ctxph" else None)
        _sp[t] = r
    return r


def subst_lock(l, m):
    return tuple(subst(x, m) if isinstance(x, T) else x for x in l)


def dedup_fams(fs):
    out = []
    seen = {}
    for t in fs:
        if t[3] in seen:
            i = seen[t[3]]
            if out[i][4] is not t[4]:
                out[i] = t[:4] + (mk("app", "unk", (mk("fam2", t[3]),), None),)
            continue
        seen[t[3]] = len(out)
        out.append(t)
    return tuple(out)


def ip_join_facts(ip, a, b):
    s = ip.join_facts(a, b)
    s.mem = a.mem
    return s
