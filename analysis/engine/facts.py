"""Path facts and their consequences: tags, boolean atoms and linear inequalities."""
from .term import *

UNSIGNED = set()   # type ids of unsigned integers
HOOKS = []         # f(st, atom) -> extra constraints (linear forms >= 0) implied by an atom's meaning
_fm_cache = {}


def implicit(st, t):
    out = []
    if t.op == "it":
        out.append(t)
    elif t.op == "bv":
        out.append(t)
    elif t.op == "app":
        n, args, ty = t.a
        if n in ("len", "trip"):
            out.append(t)
        elif n == "bcmp":
            out.append(add(t, ONE))
            out.append(sub(ONE, t))
        elif n == "div" and is_const(args[1]) and cval(args[1]) > 0:
            k = cval(args[1])
            out.append(sub(args[0], scale(t, k)))
            out.append(add(sub(scale(t, k), args[0]), C(k - 1)))
        elif n == "min":
            out.append(sub(args[0], t))
            out.append(sub(args[1], t))
        elif n == "max":
            out.append(sub(t, args[0]))
            out.append(sub(t, args[1]))
        if ty in UNSIGNED:
            out.append(t)
    for h in HOOKS:
        out.extend(h(st, t))
    return out


def nonneg(t):
    return t.op in ("it", "bv") or t.op == "app" and (t.a[0] in ("len", "trip") or t.a[2] in UNSIGNED)


def infeasible(cons):
    """cons: list of (const, {atom: coef}) meaning >= 0.  True if no rational solution."""
    cons = [(c, dict(p)) for c, p in cons]
    for _ in range(60):
        live = []
        seen = set()
        for c, p in cons:
            if not p:
                if c < 0:
                    return True
                continue
            g = 0
            for v in p.values():
                g = _gcd2(g, abs(v))
            if g > 1:
                c = c // g  # floor: integer tightening
                p = {t: v // g for t, v in p.items()}
            key = frozenset(p.items())
            live.append((c, p, key))
        best = {}
        for c, p, key in live:
            if key not in best or c < best[key][0]:
                best[key] = (c, p)
        cons = list(best.values())
        if not cons:
            return False
        # direct contradictions
        for key, (c, p) in best.items():
            nk = frozenset((t, -v) for t, v in p.items())
            o = best.get(nk)
            if o and c + o[0] < 0:
                return True
        occ = {}
        for c, p in cons:
            for t, v in p.items():
                a, b = occ.get(t, (0, 0))
                occ[t] = (a + (v > 0), b + (v < 0))
        x = min(occ, key=lambda t: (occ[t][0] * occ[t][1] - occ[t][0] - occ[t][1], t.uid))
        pos, ng, rest = [], [], []
        for c, p in cons:
            v = p.get(x, 0)
            (pos if v > 0 else ng if v < 0 else rest).append((c, p))
        if len(pos) * len(ng) > 400:
            return False
        for c1, p1 in pos:
            for c2, p2 in ng:
                a, b = p1[x], -p2[x]
                q = {}
                for t, v in p1.items():
                    if t is not x:
                        q[t] = v * b
                for t, v in p2.items():
                    if t is not x:
                        q[t] = q.get(t, 0) + v * a
                rest.append((c1 * b + c2 * a, {t: v for t, v in q.items() if v}))
        cons = rest
        if len(cons) > 500:
            return False
    return False


def _gcd2(a, b):
    while b:
        a, b = b, a % b
    return a


def entails(st, l):
    """do the facts of st imply l >= 0 ?"""
    c, p = lin_parts(l)
    if not p:
        return c >= 0
    if c >= 0 and all(k > 0 and nonneg(t) for t, k in p):
        return True
    if st.facts.get(mk("ge0", l)):
        return True
    atoms = set(t for t, _ in p)
    cons = []
    done = set()
    work = list(atoms)
    lins = st.lins()
    used = set()
    depth = {t: 0 for t in atoms}
    while work:
        t = work.pop()
        if t in done:
            continue
        done.add(t)
        d = depth[t]
        for e in implicit(st, t):
            if e not in used:
                used.add(e)
                cons.append(e)
                for q, _ in lin_parts(e)[1]:
                    if q not in done:
                        depth[q] = min(depth.get(q, 99), d + 1)
                        work.append(q)
        if d > 4:
            continue
        for e in lins.get(t, ()):
            if e not in used:
                used.add(e)
                cons.append(e)
                for q, _ in lin_parts(e)[1]:
                    if q not in done:
                        depth[q] = min(depth.get(q, 99), d + 1)
                        work.append(q)
    if not cons:
        return False
    key = (frozenset(cons), l)
    r = _fm_cache.get(key)
    if r is None:
        sysm = [(lin_parts(e)[0], dict(lin_parts(e)[1])) for e in cons]
        sysm.append((-c - 1, {t: -k for t, k in p}))
        r = infeasible(sysm)
        _fm_cache[key] = r
    return r


def holds(st, x):
    """True / False / None (unknown)"""
    op = x.op
    if op == "b":
        return x.a[0]
    v = st.facts.get(x)
    if v is not None:
        return v
    if op == "ge0":
        if entails(st, x.a[0]):
            return True
        if entails(st, add(scale(x.a[0], -1), C(-1))):
            return False
        return None
    if op == "eqz":
        l = x.a[0]
        if entails(st, add(l, C(-1))) or entails(st, add(scale(l, -1), C(-1))):
            return False
        if entails(st, l) and entails(st, scale(l, -1)):
            return True
        return None
    if op == "not":
        r = holds(st, x.a[0])
        return None if r is None else not r
    if op == "and":
        rs = [holds(st, y) for y in x.a]
        return False if False in rs else (None if None in rs else True)
    if op == "or":
        rs = [holds(st, y) for y in x.a]
        return True if True in rs else (None if None in rs else False)
    return None


def assume(st, x):
    """add fact x; returns False if it contradicts what is known"""
    n = len(st.facts)
    if not _assume(st, x):
        return False
    return len(st.facts) == n or propagate(st, x)


def atoms(x):
    """the terms a condition speaks about"""
    if x.op in ("not", "and", "or"):
        r = set()
        for y in x.a:
            r |= atoms(y)
        return r
    return {t for t, _ in lin_parts(x.a[0])[1]} if x.op in ("ge0", "eqz") else {x}


def propagate(st, x, depth=0):
    """a disjunction that is known: false when all its parts are, and its last open part is true"""
    ors = [f for f, v in st.facts.items() if f.op == "or" and v is True or f.op == "and" and v is False]
    if not ors or depth > 4:
        return True
    a = atoms(x)
    for f in ors:
        if f is x or not (a & atoms(f)):
            continue
        parts = [neg(y) for y in f.a] if f.op == "and" else f.a
        rs = [holds(st, y) for y in parts]
        if True in rs:
            continue
        free = [y for y, r in zip(parts, rs) if r is None]
        if not free:
            return False
        if len(free) == 1:
            n = len(st.facts)
            if not _assume(st, free[0]) or len(st.facts) != n and not propagate(st, free[0], depth + 1):
                return False
    return True


def _assume(st, x):
    h = holds(st, x)
    if h is True:
        return True
    if h is False:
        return False
    op = x.op
    if op == "and":
        return all(_assume(st, y) for y in x.a)
    if op == "not":
        st.set_fact(x.a[0], False)
        y = x.a[0]
        if y.op == "eqz":
            # l != 0 and l >= 0  =>  l >= 1
            l = y.a[0]
            if entails(st, l):
                st.set_fact(mk("ge0", add(l, C(-1))), True)
            elif entails(st, scale(l, -1)):
                st.set_fact(mk("ge0", add(scale(l, -1), C(-1))), True)
        if y.op == "or":
            return all(_assume(st, neg(z)) for z in y.a)
        return True
    if op == "or":
        st.set_fact(x, True)
        return True
    st.set_fact(x, True)
    if op == "ge0":
        # with a disequality this may tighten
        l = x.a[0]
        e = eq_int(l, ZERO)
        if st.facts.get(e) is False:
            st.set_fact(mk("ge0", add(l, C(-1))), True)
    return True
