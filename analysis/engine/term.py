"""Interned terms: the value domain of the abstract interpreter.

  lin c ((atom k) ...)   integer linear form (single atoms stand for themselves)
  b True|False           boolean constant
  ge0 l / eqz l / eq a b / not x / and .. / or ..    boolean terms
  app name args ty       opaque value (ty: type id or None)
  bv n / it ctx head     bound variable of a segment / iteration number of a loop
  agg kind variant fields
  seq parts              sequence; parts: e v | c lvl lo hi tmpl  (elements tmpl[bv lvl := i], lo<=i<hi)
  ptr obj proj           pointer; obj: loc depth n | obj ctx site k | der term | glob name
"""
EMPTY = frozenset()


class T:
    __slots__ = ("op", "a", "uid", "syms", "mbv", "unk", "depth")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _scan(x, syms, m, u, d):
    if isinstance(x, T):
        return (syms | x.syms if x.syms else syms), (x.mbv if x.mbv > m else m), u or x.unk, (x.depth if x.depth > d else d)
    if isinstance(x, tuple):
        for y in x:
            syms, m, u, d = _scan(y, syms, m, u, d)
    return syms, m, u, d


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.uid = _n[0]
        s, m, u, d = EMPTY, 0, False, 0
        for x in a:
            s, m, u, d = _scan(x, s, m, u, d)
        t.depth = d + 1
        if op == "bv":
            s = frozenset((t,))
        elif op == "c":
            if a[0] > m:
                m = a[0]
        elif op == "it":
            s = s | {t}
        elif op == "app" and a[0] == "unk":
            u = True
        t.syms, t.mbv, t.unk = s, m, u
        _tab[key] = t
    return t


# ---------------------------------------------------------------- integers
def C(n):
    return mk("lin", n, ())


def lin_parts(t):
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def lin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda x: x[0].uid))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, k=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    if not pb:
        if not pa:
            return mk("lin", ca + k * cb, ())
    d = dict(pa)
    for t, v in pb:
        d[t] = d.get(t, 0) + k * v
    return lin(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, p = lin_parts(a)
    return lin(c * k, {t: v * k for t, v in p})


def is_const(t):
    return t.op == "lin" and not t.a[1]


def cval(t):
    return t.a[0] if t.op == "lin" and not t.a[1] else None


ZERO = C(0)
ONE = C(1)
TRUE = mk("b", True)
FALSE = mk("b", False)


def B(x):
    return TRUE if x else FALSE


# ---------------------------------------------------------------- booleans
def ge0(l):
    if is_const(l):
        return B(l.a[0] >= 0)
    c, p = lin_parts(l)
    g = 0
    for _, v in p:
        g = _gcd(g, abs(v))
    if g > 1:
        l = lin(c // g, {t: v // g for t, v in p})
    return mk("ge0", l)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), C(-1)))


def eq_int(a, b):
    l = sub(a, b)
    if is_const(l):
        return B(l.a[0] == 0)
    c, p = lin_parts(l)
    if p[0][1] < 0:
        l = scale(l, -1)
    return mk("eqz", l)


def neg(x):
    if x.op == "b":
        return B(not x.a[0])
    if x.op == "not":
        return x.a[0]
    if x.op == "ge0":
        return ge0(add(scale(x.a[0], -1), C(-1)))
    if x.op == "and":
        return disj(*[neg(y) for y in x.a])
    if x.op == "or":
        return conj(*[neg(y) for y in x.a])
    return mk("not", x)


def conj(*xs):
    out = []
    for x in xs:
        for y in x.a if x.op == "and" else (x,):
            if y is FALSE:
                return FALSE
            if y is not TRUE and y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.uid))


def disj(*xs):
    out = []
    for x in xs:
        for y in x.a if x.op == "or" else (x,):
            if y is TRUE:
                return TRUE
            if y is not FALSE and y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda t: t.uid))


# ---------------------------------------------------------------- opaque and aggregates
def app(name, *args, ty=None):
    if name == "elem" and args[0].op == "seq":
        r = seq_elem_syntactic(args[0], args[1])
        if r is not None:
            return r
    if name == "len" and args[0].op == "seq":
        return seq_len(args[0])
    if name == "fld" and args[0].op == "agg" and cval(args[1]) < len(args[0].a[2]):
        return args[0].a[2][cval(args[1])]
    if name == "vf" and args[0].op == "agg" and args[0].a[1] == cval(args[1]) and cval(args[2]) < len(args[0].a[2]):
        return args[0].a[2][cval(args[2])]
    if name == "discr" and args[0].op == "agg":
        r = DISCR[0](args[0])
        if r is not None:
            return r
    if name == "shr" and is_const(args[0]) and is_const(args[1]):
        return C(cval(args[0]) >> cval(args[1]))
    if name == "rem" and is_const(args[0]) and is_const(args[1]) and cval(args[1]):
        return C(cval(args[0]) % cval(args[1]))
    if name == "div" and is_const(args[0]) and is_const(args[1]) and cval(args[1]):
        return C(cval(args[0]) // cval(args[1]))
    return mk("app", name, args, ty)


def agg(kind, variant, fields):
    fields = tuple(fields)
    if fields and kind != "tuple" or len(fields) > 1:
        f = fields[0]
        # eta: a struct rebuilt from all the fields of one opaque value is that value
        if f is not None and f.op == "app" and f.a[0] == "fld" and f.a[1][1] is ZERO:
            base = f.a[1][0]
            if base.op == "app" and _eta(base, kind, fields):
                return base
    return mk("agg", kind, variant, fields)


KIND_OF_TY = {}
NFIELDS = {}


def _eta(base, kind, fields):
    ty = base.a[2]
    if KIND_OF_TY.get(ty) != kind or NFIELDS.get(ty) != len(fields):
        return False
    for i, f in enumerate(fields):
        if f.op != "app" or f.a[0] != "fld" or f.a[1][0] is not base or f.a[1][1] is not C(i):
            return False
    return True


UNIT = mk("agg", "tuple", 0, ())
UNINIT = mk("uninit")


def tup(*xs):
    return agg("tuple", 0, xs) if xs else UNIT


# ---------------------------------------------------------------- sequences
def seg(lo, hi, tmpl_of):
    """segment whose i-th element is tmpl_of(i)"""
    n = 1
    while True:
        b = mk("bv", n)
        t = tmpl_of(b)
        m = t.mbv
        if m < n:
            return mk("c", n, lo, hi, t)
        n = m + 1


DISCR = [lambda a: None]
ELEM_TY = [lambda ty: None]
FIELD_TY = [lambda ty, variant, i: None]


def elem(base, i):
    ty = ELEM_TY[0](base.a[2]) if base.op == "app" else None
    return app("elem", base, i, ty=ty)


def fld(base, i):
    ty = FIELD_TY[0](base.a[2], 0, i) if base.op == "app" else None
    return app("fld", base, C(i), ty=ty)


def vf(base, k, i):
    ty = FIELD_TY[0](base.a[2], k, i) if base.op == "app" else None
    return app("vf", base, C(k), C(i), ty=ty)


def opaque_seg(base, lo, hi):
    return seg(lo, hi, lambda i: elem(base, i))


def elem_e(v):
    return mk("e", v)


def part_len(p):
    return ONE if p.op == "e" else sub(p.a[2], p.a[1])


def part_at(p, i):
    """i-th element of a segment, i counted in the segment's own index"""
    return subst(p.a[3], {mk("bv", p.a[0]): i})


EXPAND = [4]         # runs of items up to this length are kept item by item


def mkseq(parts):
    out = []
    for p in parts:
        if p.op == "c":
            l = sub(p.a[2], p.a[1])
            if is_const(l):
                if cval(l) <= 0:
                    continue
                if cval(l) <= EXPAND[0]:
                    for k in range(cval(l)):
                        _push(out, elem_e(part_at(p, add(p.a[1], C(k)))))
                    continue
        _push(out, p)
    if len(out) == 1 and out[0].op == "c":
        # eta: the sequence of all elements of one opaque sequence is that sequence
        _, lo, hi, tm = out[0].a
        if tm.op == "app" and tm.a[0] == "elem" and lo is ZERO:
            b, i = tm.a[1]
            if i.op == "bv" and hi.op == "app" and hi.a[0] == "len" and hi.a[1][0] is b:
                return b
    return mk("seq", *out)


def as_seq(v):
    """a sequence value as a list of parts"""
    if v.op == "seq":
        return v
    return mk("seq", opaque_seg(v, ZERO, app("len", v)))


def _push(out, p):
    if out:
        q = out[-1]
        if q.op == "c":
            if p.op == "c":
                if q.a[0] == p.a[0] and q.a[3] is p.a[3] and q.a[2] is p.a[1]:
                    out[-1] = mk("c", q.a[0], q.a[1], p.a[2], q.a[3])
                    return
            elif part_at(q, q.a[2]) is p.a[0]:
                out[-1] = mk("c", q.a[0], q.a[1], add(q.a[2], ONE), q.a[3])
                return
        elif p.op == "c":
            i = sub(p.a[1], ONE)
            if part_at(p, i) is q.a[0] and p.a[3].syms:
                out.pop()
                _push(out, mk("c", p.a[0], i, p.a[2], p.a[3]))
                return
    out.append(p)


EMPTY_SEQ = mk("seq")


def seq_len(s):
    if s.op != "seq":
        return app("len", s)
    n = ZERO
    for p in s.a:
        n = add(n, part_len(p))
    return n


def concat(*ss):
    ps = []
    for s in ss:
        ps.extend(as_seq(s).a)
    return mkseq(ps)


def seq_elem_syntactic(s, i):
    """element at i when its position is syntactically clear"""
    off = ZERO
    for p in s.a:
        d = sub(i, off)
        if p.op == "e":
            if d is ZERO:
                return p.a[0]
            if is_const(d) and cval(d) < 0:
                return None
            off = add(off, ONE)
        else:
            if len(s.a) == 1:
                return part_at(p, add(p.a[1], d))
            return None
    return None


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """replace symbols (bv / it / any app in keys) by terms"""
    keys = frozenset(m)
    memo = {}
    simple = all(k.op in ("bv", "it") for k in keys)

    def go(x):
        if simple and not (x.syms & keys):
            return x
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            elif x.op == "c" and simple and any(k.op == "bv" and k.a[0] == x.a[0] for k in keys):
                # the binder hides the outer variable of the same level
                m2 = {k: v for k, v in m.items() if not (k.op == "bv" and k.a[0] == x.a[0])}
                r = rebuild(x, (x.a[0], go(x.a[1]), go(x.a[2]), subst(x.a[3], m2) if m2 else x.a[3]))
            else:
                r = rebuild(x, tuple(goa(y) for y in x.a))
            memo[x] = r
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y

    return go(t)


def map_terms(t, f, memo=None):
    """bottom-up: f(x) may return a replacement for any subterm before its children are visited"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = f(x)
            if r is None:
                r = rebuild(x, tuple(goa(y) for y in x.a))
            memo[x] = r
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y

    return go(t)


def rebuild(x, a):
    if a == x.a:
        return x
    op = x.op
    if op == "lin":
        r = C(a[0])
        for t, k in a[1]:
            r = add(r, t, k)
        return r
    if op == "ge0":
        return ge0(a[0])
    if op == "eqz":
        return eq_int(a[0], ZERO)
    if op == "eq":
        return eq_term(a[0], a[1])
    if op == "not":
        return neg(a[0])
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    if op == "app":
        return app(a[0], *a[1], ty=a[2])
    if op == "agg":
        return agg(*a)
    if op == "seq":
        return mkseq(list(a))
    if op == "c":
        lvl, lo, hi, tm = a
        new = tm.mbv + 1
        if new != lvl:
            tm = subst(tm, {mk("bv", lvl): mk("bv", new)})
        return mk("c", new, lo, hi, tm)
    return mk(op, *a)


def eq_term(a, b):
    if a is b:
        return TRUE
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


# ---------------------------------------------------------------- walking
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        _ext(x.a, st)


def _ext(a, st):
    for y in a:
        if isinstance(y, T):
            st.append(y)
        elif isinstance(y, tuple):
            _ext(y, st)


_show = {}


def show(t, d=0):
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    op = t.op
    if op == "lin":
        c, p = t.a
        out = ""
        for a, k in p:
            out += ("+" if k > 0 and out else "-" if k < 0 else "") + ("" if abs(k) == 1 else "%d*" % abs(k)) + s(a)
        if c or not p:
            out += ("+" if c >= 0 and out else "") + str(c)
        return "(%s)" % out if len(p) + bool(c) > 1 else out
    if op == "b":
        return str(t.a[0])
    if op == "app":
        n, args, _ = t.a
        if n == "fld":
            return "%s.%s" % (s(args[0]), s(args[1]))
        if n == "vf":
            return "%s@%s.%s" % (s(args[0]), s(args[1]), s(args[2]))
        if n == "elem":
            return "%s[%s]" % (s(args[0]), s(args[1]))
        if n == "new":
            return "new:%s#%d" % (args[0] if isinstance(args[0], str) else s(args[0]), t.uid)
        return "%s(%s)" % (n, ",".join(s(x) if isinstance(x, T) else str(x) for x in args))
    if op == "agg":
        k, v, f = t.a
        k = k.split("::")[-1] if "::" in k else k
        return "%s#%s{%s}" % (k, v, ", ".join(s(x) for x in f))
    if op == "seq":
        return "[" + " ".join(s(p) for p in t.a) + "]"
    if op == "e":
        return s(t.a[0])
    if op == "c":
        return "{%s | %s<=b%d<%s}" % (s(t.a[3]), s(t.a[1]), t.a[0], s(t.a[2]))
    if op == "bv":
        return "b%d" % t.a[0]
    if op == "it":
        return "it%d" % t.uid
    if op == "ptr":
        return "&%s%s" % (s(t.a[0]), "".join(_sp(e, d) for e in t.a[1]))
    if op == "loc":
        return "L%d_%d" % (t.a[0], t.a[1])
    if op == "obj":
        return "o%d:%s" % (t.uid, t.a[-1] if isinstance(t.a[-1], str) else "")
    if op == "der":
        return "*%s" % s(t.a[0])
    if op in ("ctx", "ctxit", "ctxc"):
        return "ctx"
    return "%s(%s)" % (op, ",".join(s(x) if isinstance(x, T) else str(x) for x in t.a))


def _sp(e, d):
    if e[0] == "f":
        return ".%d" % e[1]
    if e[0] == "i":
        return "[%s]" % show(e[1], d + 1)
    if e[0] == "sl":
        return "[%s..%s]" % (show(e[1], d + 1), show(e[2], d + 1))
    if e[0] == "v":
        return "@%d" % e[1]
    return str(e)
