"""What the standard library, tokio, hypercore, ... do, as far as the properties need it.

A model is f(ip, c, st, args) -> value | [(state, value)] | None (does not return) | NotImplemented."""
import re
from .term import *
from .facts import holds, assume

MODELS = {}
OPT, RES, POLL, CF = "adt:std::option::Option", "adt:std::result::Result", "adt:std::task::Poll", "adt:std::ops::ControlFlow"
NONE = agg(OPT, 0, ())


def some(x):
    return agg(OPT, 1, (x,))


def ok(x):
    return agg(RES, 0, (x,))


def err(e):
    return agg(RES, 1, (e,))


def ready(x):
    return agg(POLL, 0, (x,))


PENDING = agg(POLL, 1, ())


_norm = {}


def norm(path):
    r = _norm.get(path)
    if r is None:
        p = path
        if p.startswith("<"):
            # <T as Trait>::method
            d = 0
            for i, ch in enumerate(p):
                if ch == "<":
                    d += 1
                elif ch == ">" and p[i - 1] != "-":
                    d -= 1
                    if d == 0:
                        inner, rest = p[1:i], p[i + 1:]
                        break
            p = inner.split(" as ")[-1] + rest if " as " in inner else inner + rest
        prev = None
        while prev != p:
            prev = p
            p = re.sub(r"::<[^<>]*>", "", p)
            p = re.sub(r"<[^<>]*>", "", p)
        p = re.sub(r"^(std|core|alloc)::", "", p)
        r = _norm[path] = p
    return r


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def val(ip, st, v):
    """value behind a (reference to a) value"""
    n = 0
    while v.op == "ptr" and n < 6:
        v = ip.at(st, v)
        n += 1
    return v


def isref(ip, ty):
    return ty is not None and ip.p.ty(ty)["k"] in ("ref", "ptr")


def rd(ip, c, st, i):
    """the i-th argument with as many references removed as its type has"""
    v, ty = c.args[i], c.argtys[i]
    while isref(ip, ty):
        to = ip.p.pointee(ty)
        v = ip.at(st, v, to)
        ty = to
    return v


def rd1(ip, c, st, i):
    ty = c.argtys[i]
    return ip.at(st, c.args[i], ip.p.pointee(ty)) if isref(ip, ty) or c.args[i].op == "ptr" else c.args[i]


def variants(ip, st, v, nv=2):
    """[(state, variant, fields)] of an enum value"""
    if v.op == "agg":
        return [(st, v.a[1], v.a[2])]
    if v.op == "uninit":
        from .interp import Dead
        raise Dead()
    t = ip.p.ty(v.a[2]) if v.op == "app" else {"k": "?"}
    out = []
    d = app("discr", v)
    if t["k"] == "adt" and t.get("variants"):
        ds = [(i, x["discr"], len(x["fields"])) for i, x in enumerate(t["variants"])]
    else:
        ds = [(i, i, 1) for i in range(nv)]
    for i, dv, nf in ds:
        c = eq_int(d, C(dv))
        h = holds(st, c)
        if h is False:
            continue
        s = st.copy()
        if h is None and not assume(s, c):
            continue
        out.append((s, i, tuple(vf(v, i, j) for j in range(nf))))
        if h is True:
            return [out[-1]]
    return out


def cases(ip, st, v, f):
    """f(state, variant, fields) -> [(state, value)] | value | None for each variant"""
    out = []
    for s, k, fs in variants(ip, st, v):
        r = f(s, k, fs)
        if r is None:
            continue
        if isinstance(r, T):
            out.append((s, r))
        else:
            out.extend(r)
    return out or None


def opt(ip, st, v, some_f, none_f):
    return cases(ip, st, v, lambda s, k, fs: some_f(s, fs[0]) if k == 1 else none_f(s))


def then(ip, c, st, f, args, wrapf=lambda x: x):
    r = ip.call_value(c, st, f, args)
    if r is None:
        return None
    return [(s, wrapf(v)) for s, v in r]


def panic(ip, c, st, why):
    ip.event(st, "panic", why=why, frame=c.fr, span=c.span)
    return None


def ident(ip, c, st, args):
    return args[0]


def opaque(ip, c, st, args):
    return c.fresh(c.name)


def pure(name):
    return lambda ip, c, st, args: app(name, *[deep(ip, st, a) for a in args], ty=c.dty)


def deep(ip, st, v, d=0):
    """value with the references in it replaced by what they refer to (a snapshot)"""
    if v.op == "ptr" and d < 8:
        return deep(ip, st, ip.at(st, v), d + 1)
    if v.op == "agg" and v.a[2] and v.a[0] != "guard":
        return mk("agg", v.a[0], v.a[1], tuple(deep(ip, st, x, d + 1) for x in v.a[2]))
    return v


def fork2(st, cond):
    """(state where cond, state where not)"""
    h = holds(st, cond)
    if h is True:
        return st, None
    if h is False:
        return None, st
    a = st.copy()
    if not assume(a, cond):
        a = None
    if not assume(st, neg(cond)):
        st = None
    return a, st


def both(st, cond, f, g):
    out = []
    a, b = fork2(st, cond)
    for s, h in ((a, f), (b, g)):
        if s is None:
            continue
        r = h(s)
        if r is None:
            continue
        if isinstance(r, T):
            out.append((s, r))
        else:
            out.extend(r)
    return out or None


# ------------------------------------------------------------------ unknown calls
def unknown(ip, c, st, args):
    path = c.path
    ip.unmodelled[norm(path)] = ip.unmodelled.get(norm(path), 0) + 1
    # whatever is reachable through &mut may change
    for i, a in enumerate(args):
        ty = c.argtys[i] if i < len(c.argtys) else None
        t = ip.p.ty(ty)
        if a.op == "ptr" and t["k"] in ("ref", "ptr") and t.get("mut"):
            try:
                ip.put_at(st, a, mk("app", "unk", (mk("havoc", c.ctx, i),), ip.p.pointee(ty)))
            except Exception:
                pass
    ip.event(st, "unknown_call", path=path, args=args, call=c)
    return mk("app", "unk", (mk("ret", c.ctx),), c.dty)


def opaque_call(ip, c, st, f, args):
    return app("res", c.ctx, ty=c.dty)


# ------------------------------------------------------------------ identity-like
for n in """future::IntoFuture::into_future pin::Pin::new_unchecked pin::Pin::new future::get_context hint::must_use 
 mem::ManuallyDrop::into_inner pin::Pin::get_mut pin::Pin::get_unchecked_mut pin::Pin::as_mut pin::Pin::as_ref pin::Pin::into_inner hint::black_box
 convert::identity boxed::Box::into_pin 
 iter::IntoIterator::into_iter mem::MaybeUninit::assume_init
 convert::AsMut::as_mut borrow::Borrow::borrow borrow::BorrowMut::borrow_mut string::String::into_bytes string::String::as_bytes str::as_bytes
 iter::Iterator::by_ref vec::Vec::as_slice vec::Vec::as_mut_slice option::Option::as_pin_mut option::Option::as_slice
 boxed::Box::into_raw_unused
""".split():
    MODELS[n] = ident


@model("vec::Vec::into_boxed_slice")
def _boxed(ip, c, st, args):
    exact(ip, st, args[0])
    return args[0]


@model("mem::ManuallyDrop::new", "boxed::Box::leak", "vec::Vec::leak")
def _keep(ip, c, st, args):
    ip.event(st, "forget", val=args[0], ty=c.argtys[0], call=c)
    return args[0]


@model("pin::Pin::as_mut", "pin::Pin::as_ref")
def _pin_as(ip, c, st, args):
    # &mut Pin<P> -> Pin<&mut T>
    v = ip.at(st, args[0], ip.p.pointee(c.argtys[0]))
    return v


@model("pin::Pin::set")
def _pin_set(ip, c, st, args):
    v = ip.at(st, args[0], ip.p.pointee(c.argtys[0]))
    ip.drop_value(st, ip.at(st, v))
    ip.put_at(st, v, args[1])
    return UNIT


@model("ops::Deref::deref", "ops::DerefMut::deref_mut")
def _deref(ip, c, st, args):
    ty = ip.p.pointee(c.argtys[0])
    t = ip.p.ty(ty)
    v = ip.at(st, args[0], ty)
    if v.op == "agg" and v.a[0] == "guard":
        o, pr = ip.deref(v.a[2][1])
        return mk("ptr", o, pr + (("f", 0, None),))
    if t["k"] == "adt":
        p = t["path"]
        if p in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque", "std::path::PathBuf", "std::ffi::CString"):
            return args[0]
        if p == "std::mem::ManuallyDrop":
            return args[0]
        if p in ("std::sync::Arc", "std::boxed::Box", "std::pin::Pin", "std::rc::Rc"):
            if v.op in ("ptr",) or v.op == "app":
                return v
    if t["k"] in ("ref", "ptr"):
        return v
    if t["k"] == "param" or t["k"] == "?":
        # generic pointer (node_debug): the pointer itself stands for its target
        return v if v.op == "ptr" else app("deref", v, ty=c.dty)
    if v.op == "ptr":
        return v
    return app("deref", v, ty=c.dty)


@model("convert::AsRef::as_ref")
def _as_ref(ip, c, st, args):
    v = args[0]
    t = ip.p.ty(ip.p.pointee(c.argtys[0])) if isref(ip, c.argtys[0]) else {"k": "?"}
    if t["k"] == "ref":
        return ip.at(st, v)
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::string::String"):
        return v
    if t["k"] in ("slice", "str"):
        return v
    return app("as_ref", deep(ip, st, v), ty=c.dty)


@model("ops::Index::index", "ops::IndexMut::index_mut")
def _index(ip, c, st, args):
    o, pr = ip.deref(args[0], ip.p.pointee(c.argtys[0]))
    s = ip.load(st, o, pr)
    t = ip.p.ty(ip.p.pointee(c.argtys[0]))
    if t["k"] == "adt" and t["path"] not in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque"):
        return NotImplemented
    n = seq_len(s)
    ix = args[1]
    it = ip.p.ty(c.argtys[1])
    if it["k"] == "int":
        return index_checked(ip, c, st, o, pr, n, ix)
    r = range_of(ip, st, ix, n)
    if r is None:
        return NotImplemented
    lo, hi = r
    cond = conj(le(lo, hi), le(hi, n))
    if not check(ip, c, st, cond, "slice index"):
        return None
    if lo is ZERO and hi is n:
        return args[0]
    return mk("ptr", o, pr + (("sl", lo, hi),))


def check(ip, c, st, cond, why):
    """a condition whose failure panics; False when it surely fails"""
    h = holds(st, cond)
    ip.event(st, "assert", cond=cond, known=h, kind=why, frame=c.fr, span=c.span)
    if h is False:
        ip.event(st, "panic", why=why, frame=c.fr, span=c.span)
        return False
    return assume(st, cond)


def index_checked(ip, c, st, o, pr, n, ix):
    if not check(ip, c, st, conj(ge0(ix), lt(ix, n)), "index out of bounds"):
        return None
    return mk("ptr", o, pr + (("i", ix),))


def range_of(ip, st, v, n):
    """(lo, hi) of a range value used on a sequence of n elements"""
    v = val(ip, st, v)
    if v.op != "agg":
        if v.op == "app":
            t = ip.p.ty(v.a[2])
            if t["k"] == "adt" and t["path"] == "std::ops::Range":
                return fld(v, 0), fld(v, 1)
        return None
    k = v.a[0].split("::")[-1]
    f = v.a[2]
    if k == "RangeFull":
        return ZERO, n
    if k == "Range":
        return f[0], f[1]
    if k == "RangeTo":
        return ZERO, f[0]
    if k == "RangeFrom":
        return f[0], n
    if k == "RangeInclusive":
        return f[0], add(f[1], ONE)
    if k == "RangeToInclusive":
        return ZERO, add(f[0], ONE)
    return None


@model("ops::RangeInclusive::new", "range::RangeInclusive::new")
def _ri(ip, c, st, args):
    return agg("adt:std::ops::RangeInclusive", 0, args)


@model("ops::Range::is_empty")
def _rempty(ip, c, st, args):
    v = rd(ip, c, st, 0)
    return neg(lt(ip.field(v, 0, None), ip.field(v, 1, None)))


@model("ops::Range::contains", "ops::RangeInclusive::contains", "ops::RangeBounds::contains")
def _rcont(ip, c, st, args):
    v = rd(ip, c, st, 0)
    x = rd(ip, c, st, 1)
    r = range_of(ip, st, v, ZERO)
    if r is None:
        return NotImplemented
    return conj(le(r[0], x), lt(x, r[1]))


# ------------------------------------------------------------------ allocation, clone, mem
@model("sync::Arc::new", "boxed::Box::new", "rc::Rc::new", "boxed::Box::pin", "sync::Arc::pin")
def _new(ip, c, st, args):
    o = c.newobj()
    st.mem[o] = args[0]
    p = mk("ptr", o, ())
    ip.event(st, "alloc", obj=o, val=args[0])
    return p


@model("boxed::Box::new_uninit")
def _newu(ip, c, st, args):
    o = c.newobj()
    st.mem[o] = UNINIT
    return mk("ptr", o, ())


@model("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "boxed::Box::assume_init")
def _biv(ip, c, st, args):
    v = ip.at(st, args[0])
    while v.op == "agg" and len(v.a[2]) in (1, 2) and v.a[0] != "closure":
        v = v.a[2][-1] if v.a[2][-1].op != "uninit" else v.a[2][0]
    return v


@model("boxed::Box::into_raw", "sync::Arc::into_raw")
def _into_raw(ip, c, st, args):
    ip.event(st, "into_raw", ptr=args[0], call=c)
    return args[0]


@model("boxed::Box::from_raw", "sync::Arc::from_raw")
def _from_raw(ip, c, st, args):
    ip.event(st, "from_raw", ptr=args[0], call=c)
    return args[0]


@model("sync::Arc::ptr_eq")
def _arc_ptr_eq(ip, c, st, args):
    a, b = ip.at(st, args[0]), ip.at(st, args[1])
    return eq_term(a, b)


@model("clone::Clone::clone", "borrow::ToOwned::to_owned", "slice::to_vec", "slice::to_owned", "option::Option::cloned", "option::Option::copied",
       "convert::From::from_slice", "string::String::from_utf8_unchecked")
def _clone(ip, c, st, args):
    v = args[0]
    if c.name in ("cloned", "copied"):
        def f(s, x):
            return some(clone_val(ip, s, ip.at(s, x)))
        return opt(ip, st, v, f, lambda s: NONE)
    ty = c.argtys[0]
    if v.op == "ptr" or isref(ip, ty):
        v = ip.at(st, v, ip.p.pointee(ty))
    exact(ip, st, v)
    return clone_val(ip, st, v)


def exact(ip, st, v):
    """a copy of a sequence is allocated with just its length"""
    if "shrink" in ip.handlers and v.op == "seq":
        assume(st, eq_int(capof(ip, v), seq_len(v)))


def clone_val(ip, st, v):
    if v.op == "agg" and has_box(v):
        return v
    return v


def has_box(v):
    return False


@model("mem::replace")
def _replace(ip, c, st, args):
    o, pr = ip.deref(args[0], ip.p.pointee(c.argtys[0]))
    old = ip.load(st, o, pr)
    ip.store(st, o, pr, args[1])
    return old


@model("mem::take", "option::Option::take")
def _take(ip, c, st, args):
    to = ip.p.pointee(c.argtys[0])
    o, pr = ip.deref(args[0], to)
    old = ip.load(st, o, pr)
    d = default_of(ip, to)
    if d is None:
        return NotImplemented
    ip.store(st, o, pr, d)
    return old


@model("option::Option::replace", "option::Option::insert")
def _oreplace(ip, c, st, args):
    o, pr = ip.deref(args[0], ip.p.pointee(c.argtys[0]))
    old = ip.load(st, o, pr)
    ip.store(st, o, pr, some(args[1]))
    if c.name == "insert":
        return mk("ptr", o, pr + (("f", 0, 1),))
    return old


@model("option::Option::get_or_insert_with", "option::Option::get_or_insert", "option::Option::get_or_insert_default")
def _get_or_insert(ip, c, st, args):
    to = ip.p.pointee(c.argtys[0])
    o, pr = ip.deref(args[0], to)
    out = []
    for s, k, fs in variants(ip, st, ip.load(st, o, pr)):
        new = [(s, None)]
        if k == 0:
            if c.name == "get_or_insert":
                new = [(s, args[1])]
            elif c.name == "get_or_insert_default":
                d = default_of(ip, ip.p.types[to]["args"][0])
                if d is None:
                    return NotImplemented
                new = [(s, d)]
            else:
                r = then(ip, c, s, args[1], [])
                new = [(s, r)] if isinstance(r, T) else list(r or [])
        for s2, x in new:
            if x is not None:
                ip.store(s2, o, pr, some(x))
            out.append((s2, mk("ptr", o, pr + (("f", 0, 1),))))
    return out


@model("mem::swap", "ptr::swap")
def _swap(ip, c, st, args):
    to = ip.p.pointee(c.argtys[0])
    a, b = ip.deref(args[0], to), ip.deref(args[1], to)
    x, y = ip.load(st, *a), ip.load(st, *b)
    ip.store(st, a[0], a[1], y)
    ip.store(st, b[0], b[1], x)
    return UNIT


def default_of(ip, ty):
    t = ip.p.ty(ty)
    k = t["k"]
    if k == "int":
        return ZERO
    if k == "bool":
        return FALSE
    if k == "adt":
        p = t["path"]
        if p == "std::option::Option":
            return NONE
        if p in ("std::vec::Vec", "std::string::String", "std::collections::VecDeque"):
            return EMPTY_SEQ
    if k == "tuple":
        fs = [default_of(ip, x) for x in t["elems"]]
        if None not in fs:
            return tup(*fs)
    if k == "ref":
        x = default_of(ip, t["to"])
        if x is None and ip.p.ty(t["to"])["k"] in ("slice", "str"):
            x = EMPTY_SEQ
        if x is not None:
            return mk("ptr", mk("cst", x), ())
    return None


@model("default::Default::default")
def _default(ip, c, st, args):
    d = default_of(ip, c.dty)
    if d is not None:
        return d
    t = ip.p.ty(c.dty)
    if t["k"] == "adt" and t["path"] in ("std::sync::Arc", "std::boxed::Box"):
        inner = default_of(ip, t["args"][0])
        o = c.newobj()
        st.mem[o] = inner if inner is not None else app("default", ip.p.tys(t["args"][0]), ty=t["args"][0])
        return mk("ptr", o, ())
    return app("default", ip.p.tys(c.dty), ty=c.dty)


@model("mem::ManuallyDrop::drop")
def _mddrop(ip, c, st, args):
    v = ip.at(st, args[0], ip.p.pointee(c.argtys[0]))
    ip.drop_value(st, v)
    t = ip.p.ty(ip.p.pointee(c.argtys[0]))
    if t["k"] == "adt" and t.get("args"):
        ip.event(st, "explicit_drop", val=v, ty=t["args"][0], call=c)
    return UNIT


@model("mem::drop", "mem::forget")
def _drop(ip, c, st, args):
    if c.name == "drop":
        ip.drop_value(st, args[0])
        ip.event(st, "explicit_drop", val=args[0], ty=c.argtys[0], call=c)
    else:
        ip.event(st, "forget", val=args[0], ty=c.argtys[0], call=c)
    return UNIT


# ------------------------------------------------------------------ Option / Result
@model("ops::Try::branch")
def _branch(ip, c, st, args):
    v = args[0]
    t = ip.p.ty(c.argtys[0])
    p = t.get("path") or (v.a[0][4:] if v.op == "agg" else "")
    if p == "std::option::Option":
        return opt(ip, st, v, lambda s, x: agg(CF, 0, (x,)), lambda s: agg(CF, 1, (NONE,)))
    if p == "std::task::Poll":
        return NotImplemented
    return cases(ip, st, v, lambda s, k, fs: agg(CF, 0, (fs[0],)) if k == 0 else agg(CF, 1, (err(fs[0]),)))


@model("ops::FromResidual::from_residual")
def _from_res(ip, c, st, args):
    v = args[0]
    t = ip.p.ty(c.dty)
    if t["k"] == "adt" and t["path"] == "std::option::Option":
        return NONE
    e = v.a[2][0] if v.op == "agg" and v.a[2] else vf(v, 1, 0)
    ta, td = ip.p.ty(c.argtys[0]), ip.p.ty(c.dty)
    if ta["k"] == "adt" and td["k"] == "adt" and len(ta.get("args") or ()) == 2 and len(td.get("args") or ()) == 2:
        src, dst = ta["args"][1], td["args"][1]
        if src == dst:
            return err(e)
        for i in ip.p.impls.get(("std::convert::From", "from"), []):
            b = ip.p.raw[i]
            if b["selfty"] == dst and b["mir"] and b["mir"]["locals"][1] == src:
                return [(s, err(x)) for s, x in ip.run(c, st, i, [e])]
    return err(conv_err(ip, c, st, e))


def conv_err(ip, c, st, e):
    if e.op == "app" and e.a[0] == "from" or e.op == "agg" and e.a[0].endswith("HyperbeeError"):
        return e
    return app("from", e, ty=None)


@model("ops::Try::from_output")
def _from_output(ip, c, st, args):
    t = ip.p.ty(c.dty)
    if t["k"] == "adt" and t["path"] == "std::option::Option":
        return some(args[0])
    return ok(args[0])


@model("option::Option::is_some", "option::Option::is_none", "result::Result::is_ok", "result::Result::is_err", "task::Poll::is_ready", "task::Poll::is_pending")
def _is(ip, c, st, args):
    v = rd(ip, c, st, 0)
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1, "is_ready": 0, "is_pending": 1}[c.name]
    return eq_int(ip.discr(v), C(want))


@model("option::Option::is_some_and", "option::Option::is_none_or", "result::Result::is_ok_and", "result::Result::is_err_and")
def _is_and(ip, c, st, args):
    n = c.name
    if n == "is_some_and":
        return opt(ip, st, args[0], lambda s, x: then(ip, c, s, args[1], [x]), lambda s: FALSE)
    if n == "is_none_or":
        return opt(ip, st, args[0], lambda s, x: then(ip, c, s, args[1], [x]), lambda s: TRUE)
    w = 0 if n == "is_ok_and" else 1
    return cases(ip, st, args[0], lambda s, k, fs: then(ip, c, s, args[1], [fs[0]]) if k == w else FALSE)


@model("option::Option::as_ref", "option::Option::as_mut", "option::Option::as_deref", "option::Option::as_deref_mut")
def _o_as_ref(ip, c, st, args):
    ty = ip.p.pointee(c.argtys[0])
    o, pr = ip.deref(args[0], ty)
    v = ip.load(st, o, pr)
    dr = "deref" in c.name

    def f(s, x):
        inner = ip.p.types[ty]["args"][0] if ty is not None and ip.p.types[ty]["k"] == "adt" else None
        t = ip.p.ty(inner)
        if dr and t["k"] == "adt" and t["path"] in ("std::boxed::Box", "std::sync::Arc", "std::pin::Pin"):
            return some(x)
        return some(mk("ptr", o, pr + (("f", 0, 1),)))
    return opt(ip, st, v, f, lambda s: NONE)


@model("result::Result::as_ref", "result::Result::as_mut")
def _r_as_ref(ip, c, st, args):
    ty = ip.p.pointee(c.argtys[0])
    o, pr = ip.deref(args[0], ty)
    return cases(ip, st, ip.load(st, o, pr), lambda s, k, fs: agg(RES, k, (mk("ptr", o, pr + (("f", 0, k),)),)))


@model("option::Option::unwrap", "option::Option::expect", "option::Option::unwrap_unchecked")
def _unwrap(ip, c, st, args):
    v = args[0]
    if v.op == "app":
        h = holds(st, eq_int(app("discr", v), ONE))
        ip.event(st, "assert", cond=eq_int(app("discr", v), ONE), known=h, kind="unwrap on None", frame=c.fr, span=c.span)
    return opt(ip, st, v, lambda s, x: x, lambda s: panic(ip, c, s, "unwrap on None"))


@model("result::Result::unwrap", "result::Result::expect")
def _runwrap(ip, c, st, args):
    v = args[0]
    if v.op == "app":
        h = holds(st, eq_int(app("discr", v), ZERO))
        ip.event(st, "assert", cond=eq_int(app("discr", v), ZERO), known=h, kind="unwrap on Err", frame=c.fr, span=c.span)
    return cases(ip, st, v, lambda s, k, fs: fs[0] if k == 0 else panic(ip, c, s, "unwrap on Err"))


@model("result::Result::unwrap_err", "result::Result::expect_err")
def _runwrap_err(ip, c, st, args):
    return cases(ip, st, args[0], lambda s, k, fs: fs[0] if k == 1 else panic(ip, c, s, "unwrap_err on Ok"))


@model("option::Option::unwrap_or", "result::Result::unwrap_or")
def _unwrap_or(ip, c, st, args):
    return good(ip, c, st, args[0], lambda s, x: x, lambda s, e: args[1])


@model("option::Option::unwrap_or_else", "result::Result::unwrap_or_else")
def _unwrap_or_else(ip, c, st, args):
    return good(ip, c, st, args[0], lambda s, x: x, lambda s, e: then(ip, c, s, args[1], [] if e is None else [e]))


@model("option::Option::unwrap_or_default", "result::Result::unwrap_or_default")
def _unwrap_or_default(ip, c, st, args):
    d = default_of(ip, c.dty)
    if d is None:
        d = app("default", ip.p.tys(c.dty), ty=c.dty)
    return good(ip, c, st, args[0], lambda s, x: x, lambda s, e: d)


def is_opt(ip, c, v, i=0):
    if v.op == "agg":
        return v.a[0] == OPT
    t = ip.p.ty(c.argtys[i] if i < len(c.argtys) else None)
    if t["k"] == "adt":
        return t["path"] == "std::option::Option"
    t = ip.p.ty(v.a[2]) if v.op == "app" else {"k": "?"}
    return t["k"] == "adt" and t["path"] == "std::option::Option"


def good(ip, c, st, v, f, g):
    """f(state, value) for Some/Ok; g(state, error or None) otherwise"""
    o = is_opt(ip, c, v)

    def h(s, k, fs):
        if k == (1 if o else 0):
            return f(s, fs[0])
        return g(s, None if o else fs[0])
    return cases(ip, st, v, h)


@model("option::Option::map", "result::Result::map")
def _map(ip, c, st, args):
    o = is_opt(ip, c, args[0])
    w = some if o else ok
    return good(ip, c, st, args[0], lambda s, x: then(ip, c, s, args[1], [x], w), lambda s, e: NONE if o else err(e))


@model("option::Option::map_or", "result::Result::map_or")
def _map_or(ip, c, st, args):
    return good(ip, c, st, args[0], lambda s, x: then(ip, c, s, args[2], [x]), lambda s, e: args[1])


@model("option::Option::map_or_else", "result::Result::map_or_else")
def _map_or_else(ip, c, st, args):
    return good(ip, c, st, args[0], lambda s, x: then(ip, c, s, args[2], [x]),
                lambda s, e: then(ip, c, s, args[1], [] if e is None else [e]))


@model("option::Option::and_then", "result::Result::and_then")
def _and_then(ip, c, st, args):
    o = is_opt(ip, c, args[0])
    return good(ip, c, st, args[0], lambda s, x: then(ip, c, s, args[1], [x]), lambda s, e: NONE if o else err(e))


@model("option::Option::and", "result::Result::and")
def _and(ip, c, st, args):
    o = is_opt(ip, c, args[0])
    return good(ip, c, st, args[0], lambda s, x: args[1], lambda s, e: NONE if o else err(e))


@model("option::Option::or", "result::Result::or")
def _or(ip, c, st, args):
    o = is_opt(ip, c, args[0])
    return good(ip, c, st, args[0], lambda s, x: some(x) if o else ok(x), lambda s, e: args[1])


@model("option::Option::or_else", "result::Result::or_else")
def _or_else(ip, c, st, args):
    o = is_opt(ip, c, args[0])
    return good(ip, c, st, args[0], lambda s, x: some(x) if o else ok(x),
                lambda s, e: then(ip, c, s, args[1], [] if e is None else [e]))


@model("option::Option::ok_or")
def _ok_or(ip, c, st, args):
    return opt(ip, st, args[0], lambda s, x: ok(x), lambda s: err(args[1]))


@model("option::Option::ok_or_else")
def _ok_or_else(ip, c, st, args):
    return opt(ip, st, args[0], lambda s, x: ok(x), lambda s: then(ip, c, s, args[1], [], err))


@model("option::Option::filter")
def _ofilter(ip, c, st, args):
    def f(s, x):
        o = c.newobj("filter")
        s.mem[o] = x
        r = then(ip, c, s, args[1], [mk("ptr", o, ())])
        out = []
        for s2, b in r or ():
            out.extend(both(s2, ip.as_bool(b), lambda q: some(x), lambda q: NONE) or [])
        return out
    return opt(ip, st, args[0], f, lambda s: NONE)


@model("option::Option::flatten")
def _flatten(ip, c, st, args):
    return opt(ip, st, args[0], lambda s, x: x, lambda s: NONE)


@model("option::Option::transpose")
def _transpose(ip, c, st, args):
    return opt(ip, st, args[0], lambda s, x: cases(ip, s, x, lambda s2, k, fs: ok(some(fs[0])) if k == 0 else err(fs[0])),
               lambda s: ok(NONE))


@model("result::Result::transpose")
def _rtranspose(ip, c, st, args):
    return cases(ip, st, args[0], lambda s, k, fs: some(err(fs[0])) if k == 1 else
                 opt(ip, s, fs[0], lambda s2, x: some(ok(x)), lambda s2: NONE))


@model("option::Option::zip")
def _ozip(ip, c, st, args):
    return opt(ip, st, args[0], lambda s, x: opt(ip, s, args[1], lambda s2, y: some(tup(x, y)), lambda s2: NONE), lambda s: NONE)


@model("option::Option::unzip")
def _ounzip(ip, c, st, args):
    return opt(ip, st, args[0], lambda s, x: tup(some(ip.field(x, 0, None)), some(ip.field(x, 1, None))), lambda s: tup(NONE, NONE))


@model("result::Result::ok", "result::Result::err")
def _rok(ip, c, st, args):
    w = 0 if c.name == "ok" else 1
    return cases(ip, st, args[0], lambda s, k, fs: some(fs[0]) if k == w else NONE)


@model("result::Result::map_err")
def _map_err(ip, c, st, args):
    return cases(ip, st, args[0], lambda s, k, fs: ok(fs[0]) if k == 0 else then(ip, c, s, args[1], [fs[0]], err))


@model("result::Result::inspect_err", "result::Result::inspect", "option::Option::inspect")
def _inspect(ip, c, st, args):
    return args[0]


@model("task::Poll::map")
def _pmap(ip, c, st, args):
    return cases(ip, st, args[0], lambda s, k, fs: then(ip, c, s, args[1], [fs[0]], ready) if k == 0 else PENDING)


@model("bool::then")
def _bthen(ip, c, st, args):
    return both(st, ip.as_bool(args[0]), lambda s: then(ip, c, s, args[1], [], some), lambda s: NONE)


@model("bool::then_some")
def _bthensome(ip, c, st, args):
    return both(st, ip.as_bool(args[0]), lambda s: some(args[1]), lambda s: NONE)


# ------------------------------------------------------------------ conversions
@model("convert::Into::into", "convert::From::from")
def _into(ip, c, st, args):
    st_ty = c.callee.get("self")
    src, dst = (c.argtys[0], c.dty)
    if src is not None and src == dst:
        return args[0]
    # a local From impl
    for i in ip.p.impls.get(("std::convert::From", "from"), []):
        b = ip.p.raw[i]
        if b["selfty"] == dst and b["mir"]["locals"][1] == src:
            return ip.run(c, st, i, args)
    t = ip.p.ty(dst)
    s = ip.p.ty(src)
    if t["k"] == "adt":
        if t["path"] == "std::vec::Vec" and s["k"] in ("ref", "slice", "array") or s["k"] == "adt" and s["path"] in ("std::vec::Vec",):
            return val(ip, st, args[0]) if isref(ip, src) else args[0]
        if t["path"] in ("std::sync::Arc", "std::boxed::Box") and s["k"] != "ref":
            o = c.newobj()
            st.mem[o] = args[0]
            return mk("ptr", o, ())
        if t["path"] == "std::option::Option":
            return some(args[0])
        if "Error" in t["path"]:
            return conv_err(ip, c, st, args[0])
        if t["path"] == "tokio::sync::RwLock":
            return agg("adt:tokio::sync::RwLock", 0, (args[0],))
    if t["k"] in ("int", "char") and s["k"] in ("int", "char", "bool"):
        return args[0] if s["k"] != "bool" else (ONE if args[0] is TRUE else ZERO if args[0] is FALSE else app("b2i", args[0], ty=dst))
    return app("into", deep(ip, st, args[0]), ty=dst)


@model("convert::TryInto::try_into", "convert::TryFrom::try_from")
def _try_into(ip, c, st, args):
    t = ip.p.ty(c.dty)
    v = args[0]
    if t["k"] == "adt" and t["path"] == "std::result::Result":
        okty = ip.p.ty(t["args"][0])
        src = ip.p.ty(c.argtys[0])
        if okty["k"] == "int" and src["k"] == "int":
            # the target of the analysis is 64 bit
            wide = {"usize": 64, "u64": 64, "i64": 63, "isize": 63, "u32": 32, "u128": 128, "i128": 127, "u16": 16, "u8": 8, "i32": 31}
            if wide.get(okty["s"], 0) >= wide.get(src["s"], 999):
                s2 = st.copy()
                # kept as a possible failure: 32 bit platforms
                ip.event(s2, "tryfrom_fails", val=v)
                return [(st, ok(v)), (s2, err(app("tryfromerr", c.ctx)))] if ip.tryfrom_fails else ok(v)
            return [(st, ok(v)), (st.copy(), err(app("tryfromerr", c.ctx)))]
    return NotImplemented


@model("string::ToString::to_string", "string::String::from", "string::String::from_utf8_lossy")
def _to_string(ip, c, st, args):
    return app("to_string", deep(ip, st, args[0]), ty=c.dty)


@model("string::String::from_utf8", "str::from_utf8")
def _from_utf8(ip, c, st, args):
    s2 = st.copy()
    ip.event(s2, "failure", kind="utf8", call=c)
    return [(st, ok(app("utf8", deep(ip, st, args[0])))), (s2, err(app("utf8err", c.ctx)))]


# ------------------------------------------------------------------ futures and locks
@model("sync::RwLock::new", "tokio::sync::RwLock::new", "tokio::sync::Mutex::new", "sync::Mutex::new")
def _rwnew(ip, c, st, args):
    t = ip.p.ty(c.dty)
    return agg("adt:" + (t.get("path") or "tokio::sync::RwLock"), 0, (args[0],))


@model("tokio::sync::RwLock::read", "tokio::sync::RwLock::write", "tokio::sync::Mutex::lock", "tokio::sync::RwLock::read_owned",
       "tokio::sync::RwLock::write_owned", "tokio::sync::Mutex::lock_owned")
def _lock(ip, c, st, args):
    kind = "r" if c.name.startswith("read") else "w"
    ty = ip.p.pointee(c.argtys[0])
    t = ip.p.ty(ty)
    cls = ip.p.tys(t["args"][0]) if t["k"] == "adt" and t["args"] else "?"
    # normalise: the pointer to the lock object
    if t["k"] != "adt" or not t["path"].endswith(("RwLock", "Mutex")):
        return None
    o, pr = ip.deref(args[0], ty)
    return mk("agg", "fut:lock", 0, (mk("ptr", o, pr), mk("const", kind), mk("const", cls)))


@model("tokio::sync::RwLock::try_read", "tokio::sync::RwLock::try_write", "tokio::sync::Mutex::try_lock", "tokio::sync::RwLock::blocking_read",
       "tokio::sync::RwLock::blocking_write")
def _trylock(ip, c, st, args):
    kind = "w" if "write" in c.name or c.name == "try_lock" else "r"
    ty = ip.p.pointee(c.argtys[0])
    t = ip.p.ty(ty)
    cls = ip.p.tys(t["args"][0]) if t["k"] == "adt" and t["args"] else "?"
    o, pr = ip.deref(args[0], ty)
    if c.name.startswith("blocking"):
        return acquire(ip, c, st, mk("ptr", o, pr), kind, cls)
    s2 = st.copy()
    return [(st, ok(acquire(ip, c, st, mk("ptr", o, pr), kind, cls, True))), (s2, err(app("trylockerr", c.ctx)))]


@model("tokio::sync::RwLock::into_inner", "tokio::sync::RwLock::get_mut")
def _rw_into(ip, c, st, args):
    if c.name == "get_mut":
        o, pr = ip.deref(args[0], ip.p.pointee(c.argtys[0]))
        return mk("ptr", o, pr + (("f", 0, None),))
    return ip.field(args[0], 0, None)


def acquire(ip, c, st, lock, kind, cls, tried=False):
    ip.event(st, "acquire", lock=lock, kind=kind, cls=cls, call=c, tried=tried)
    gid = mk("gid", c.ctx, 0)
    st.locks = st.locks + ((gid, lock, kind, cls),)
    return mk("agg", "guard", 0, (gid, lock, mk("const", kind)))


@model("future::Future::poll", "futures_lite::FutureExt::poll", "futures_lite::future::FutureExt::poll")
def _poll(ip, c, st, args):
    return poll(ip, c, st, args[0])


def poll(ip, c, st, p):
    n = 0
    v = p
    where = None
    while v.op == "ptr" and n < 6:
        where = ip.deref(v)
        v = ip.load(st, *where)
        n += 1
    if v.op == "app":
        # an opaque future
        o, pr = ip.deref(v)
        if o in st.mem:
            where = (o, pr)
            v = ip.load(st, o, pr)
    out = run_future(ip, c, st, v)
    if out is None:
        return None
    res = []
    for s, x in out:
        if where is not None and where[0].op in ("loc", "obj"):
            ip.store_quiet(s, where[0], where[1], UNINIT)
        res.append((s, ready(x)))
    return res


def run_future(ip, c, st, v):
    if v.op == "agg":
        k = v.a[0]
        if k == "coroutine":
            return ip.run(c, st, v.a[1], [v, UNIT])
        if k == "fut:lock":
            lk, kind, cls = v.a[2]
            return [(st, acquire(ip, c, st, lk, kind.a[0], cls.a[0]))]
        h = FUTS.get(k)
        if h is not None:
            return ip.wrap(st, h(ip, c, st, v.a[2]))
        if k == "closure":
            return None
    if v.op == "uninit":
        ip.event(st, "poll_done", call=c)
        return None
    ip.event(st, "await_opaque", fut=v, call=c)
    return ip.wrap(st, unknown(ip, c, st, []))


FUTS = {}


def futmodel(kind):
    def d(f):
        FUTS["fut:" + kind] = f
        return f
    return d


def fut(kind, *args):
    return mk("agg", "fut:" + kind, 0, tuple(args))


# ------------------------------------------------------------------ hypercore / replicator
LEN = mk("mon", "appended")


def loglen(ip, st):
    if ip.world is not None:
        return add(C(ip.world.length), st.mem.get(LEN, ZERO))
    return add(app("loglen", ty=ip.u64), st.mem.get(LEN, ZERO))


@model("hypercore::replication::CoreMethods::get", "hypercore::Hypercore::get", "hypercore::replication::SharedCore::get")
def _coreget(ip, c, st, args):
    return fut("coreget", args[0], rd(ip, c, st, 1))


@futmodel("coreget")
def _coreget_f(ip, c, st, a):
    core, ix = a
    ip.event(st, "core_get", core=core, index=ix, call=c)
    if ip.world is not None:
        r = ip.world.fetch(ip, st, ix)
        if r is not None:
            return r
    s1, s2 = st.copy(), st.copy()
    ip.event(s1, "failure", kind="core_get", call=c)
    ip.event(s2, "absent", index=ix, call=c)
    blk = app("blk", ix, ty=ip.vecu8)
    return [(s1, err(app("ioerr", mk("const", "core_get"), c.ctx))), (s2, ok(NONE)), (st, ok(some(blk)))]


@model("hypercore::replication::CoreMethods::append", "hypercore::Hypercore::append", "hypercore::replication::SharedCore::append")
def _coreappend(ip, c, st, args):
    return fut("coreappend", args[0], deep(ip, st, args[1]), args[1])


@model("hypercore::replication::CoreMethods::append_batch", "hypercore::Hypercore::append_batch")
def _coreappendb(ip, c, st, args):
    return fut("coreappend", args[0], app("batch", deep(ip, st, args[1])), args[1])


@futmodel("coreappend")
def _coreappend_f(ip, c, st, a):
    core, data, raw = a
    ip.event(st, "core_append", core=core, data=data, call=c)
    s1 = st.copy()
    ip.event(s1, "failure", kind="core_append", call=c)
    n = loglen(ip, st)
    st.mem[LEN] = add(st.mem.get(LEN, ZERO), ONE)
    ip.event(st, "appended", core=core, data=data, index=n, call=c)
    return [(s1, err(app("ioerr", mk("const", "core_append"), c.ctx))),
            (st, ok(named(ip, "hypercore::AppendOutcome", {"length": add(n, ONE)}, c)))]


def named(ip, path, known, c):
    for i, t in enumerate(ip.p.types):
        if t["k"] == "adt" and t["path"] == path:
            fs = [known[n] if n in known else app("new", n, c.ctx, ty=ty) for n, ty in t["variants"][0]["fields"]]
            return agg("adt:" + path, 0, fs)
    return app("new", path, c.ctx)


@model("hypercore::replication::CoreInfo::info", "hypercore::Hypercore::info")
def _coreinfo(ip, c, st, args):
    if "Hypercore" in c.callee["path"]:
        return named(ip, "hypercore::Info", {"length": loglen(ip, st)}, c)
    return fut("coreinfo", args[0])


@futmodel("coreinfo")
def _coreinfo_f(ip, c, st, a):
    ip.event(st, "core_info", core=a[0], call=c)
    return named(ip, "hypercore::Info", {"length": loglen(ip, st)}, c)


@model("replicator::ReplicatingCore::add_stream")
def _add_stream(ip, c, st, args):
    return fut("add_stream", *args)


@futmodel("add_stream")
def _add_stream_f(ip, c, st, a):
    ip.event(st, "add_stream", args=a, call=c)
    return UNIT


for _n, _k in (("hypercore::Storage::new_disk", "new_disk"), ("hypercore::Storage::new_memory", "new_memory"),
               ("hypercore::HypercoreBuilder::build", "hbuild"), ("hypercore::Hypercore::new", "hnew"),
               ("hypercore::Storage::open", "storage_open")):
    def _f(ip, c, st, args, _k=_k):
        return fut("fallible", mk("const", _k), *[deep(ip, st, a) for a in args])
    MODELS[_n] = _f


@futmodel("fallible")
def _fallible_f(ip, c, st, a):
    k = a[0].a[0]
    ip.event(st, "ext_" + k, args=a[1:], call=c)
    s1 = st.copy()
    ip.event(s1, "failure", kind=k, call=c)
    return [(s1, err(app("ioerr", a[0], c.ctx))), (st, ok(app("ext", a[0], *a[1:], c.ctx)))]


@model("hypercore::HypercoreBuilder::new")
def _hbnew(ip, c, st, args):
    return app("hcbuilder", args[0], ty=c.dty)


@model("hypercore::HypercoreBuilder::open", "hypercore::HypercoreBuilder::key_pair", "hypercore::HypercoreBuilder::node_cache_options")
def _hbset(ip, c, st, args):
    return app("hcbuilder_" + c.name, *[deep(ip, st, a) for a in args], ty=c.dty)


@model("hypercore::replication::SharedCore::from_hypercore")
def _shc(ip, c, st, args):
    return app("sharedcore", args[0], ty=c.dty)


# ------------------------------------------------------------------ prost
@model("prost::Message::encode", "prost::Message::encode_raw", "prost::Message::encode_length_delimited")
def _encode(ip, c, st, args):
    msg = deep(ip, st, args[0])
    o, pr = ip.deref(args[1])
    while True:
        buf = ip.load(st, o, pr)
        if buf.op == "ptr":
            o, pr = ip.deref(buf)
            continue
        break
    ty = c.argtys[0]
    mty = ip.p.tys(ip.p.pointee(ty)) if isref(ip, ty) else ip.p.tys(ty)
    s1 = st.copy()
    how = "enc" if c.name == "encode" else c.name
    data = app(how, mk("const", mty), msg, ty=ip.vecu8)
    ip.store(st, o, pr, concat(buf, data))
    ip.event(st, "encode", msg=msg, mty=mty, how=c.name, call=c)
    if c.name == "encode_raw":
        return UNIT
    if not ip.encode_fails:
        return ok(UNIT)
    ip.event(s1, "failure", kind="encode", call=c)
    return [(s1, err(app("encerr", c.ctx))), (st, ok(UNIT))]


@model("prost::Message::encode_to_vec", "prost::Message::encode_length_delimited_to_vec")
def _encode_vec(ip, c, st, args):
    msg = deep(ip, st, args[0])
    mty = ip.p.tys(ip.p.pointee(c.argtys[0]))
    ip.event(st, "encode", msg=msg, mty=mty, how=c.name, call=c)
    return app("enc" if c.name == "encode_to_vec" else c.name, mk("const", mty), msg, ty=ip.vecu8)


@model("prost::Message::decode", "prost::Message::decode_length_delimited")
def _decode(ip, c, st, args):
    b = deep(ip, st, args[0])
    s1 = st.copy()
    ip.event(s1, "failure", kind="decode", call=c)
    t = ip.p.ty(c.dty)
    mty = t["args"][0] if t["k"] == "adt" and t["args"] else None
    m = app("dec", b, mk("const", ip.p.tys(mty)), ty=mty)
    if c.name != "decode":
        m = app(c.name, b, ty=mty)
    ip.event(st, "decode", bytes=b, mty=ip.p.tys(mty), msg=m, call=c)
    if ip.world is not None:
        r = ip.world.decode(ip, st, b, mty)
        if r is not None:
            return [(st, r if r.op == "agg" and r.a[0] == RES else ok(r))]
    return [(s1, err(app("decerr", c.ctx))), (st, ok(m))]


@model("prost::Message::encoded_len")
def _enclen(ip, c, st, args):
    return app("enclen", ip.ty_s(c.argtys[0]), deep(ip, st, args[0]), ty=c.dty)


# ------------------------------------------------------------------ BTreeMap (the cache)
@model("collections::BTreeMap::get", "collections::HashMap::get", "collections::BTreeMap::get_mut", "collections::HashMap::get_mut")
def _mapget(ip, c, st, args):
    k = rd(ip, c, st, 1)
    t = ip.p.ty(ip.p.pointee(c.argtys[0]))
    vt = t["args"][1] if t["k"] == "adt" and len(t["args"]) > 1 else None
    if ip.world is not None and is_const(k):
        v = st.mon("cache %d" % cval(k))
        return [(st, some(mk("ptr", mk("cst", v), ())) if v is not None else NONE)]
    v = app("mapget", k, ty=vt)
    ip.event(st, "map_get", map=args[0], key=k, vty=vt, call=c)
    s2 = st.copy()
    return [(st, some(mk("ptr", mk("cst", v), ()))), (s2, NONE)]


@model("collections::BTreeMap::contains_key", "collections::HashMap::contains_key")
def _mapcontains(ip, c, st, args):
    return [(st, TRUE), (st.copy(), FALSE)]


@model("collections::BTreeMap::remove", "collections::HashMap::remove", "collections::BTreeMap::pop_first", "collections::BTreeMap::pop_last")
def _maprm(ip, c, st, args):
    return [(st, some(c.fresh("mapremoved", None))), (st.copy(), NONE)]


@model("collections::BTreeMap::clear", "collections::HashMap::clear", "collections::BTreeMap::retain", "collections::HashMap::retain")
def _mapclear(ip, c, st, args):
    return UNIT


@model("collections::BTreeMap::len", "collections::HashMap::len")
def _maplen(ip, c, st, args):
    return app("new", "maplen", c.ctx, ty=c.dty)


@model("collections::BTreeMap::new", "collections::HashMap::new")
def _mapnew(ip, c, st, args):
    return app("emptymap", ty=c.dty)


@model("collections::BTreeMap::insert", "collections::HashMap::insert")
def _mapinsert(ip, c, st, args):
    k, v = args[1], args[2]
    vt = c.argtys[2]
    ip.event(st, "map_insert", map=args[0], key=k, val=v, vty=vt, call=c)
    if ip.world is not None and is_const(k):
        st.setmon("cache %d" % cval(k), v)
    elif v.op == "ptr" and v.a[0].op == "obj":
        name = app("mapget", k, ty=vt)
        ip.rename_obj(st, v, name)
    return app("new", "mapold", c.ctx, ty=c.dty)


# ------------------------------------------------------------------ comparisons
def cmp_vals(ip, c, st, a, b, ty):
    """integer term in {-1,0,1}"""
    t = ip.p.ty(ty)
    k = t["k"]
    if a is b:
        return ZERO
    if k in ("int", "char"):
        return mk_icmp(sub(a, b))
    if k == "bool":
        return None
    if k in ("slice", "array", "str") or k == "adt" and t["path"] in ("std::vec::Vec", "std::string::String"):
        return bcmp(a, b)
    return None


def mk_icmp(d):
    if is_const(d):
        return C((cval(d) > 0) - (cval(d) < 0))
    if lin_parts(d)[1][0][1] < 0:
        return scale(app("icmp", scale(d, -1)), -1)
    return app("icmp", d)


def bcmp(a, b):
    if a is b:
        return ZERO
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None:
        return C((ca > cb) - (ca < cb))
    if a.uid > b.uid:
        return scale(app("bcmp", b, a), -1)
    return app("bcmp", a, b)


def const_bytes(s):
    if s.op != "seq":
        return None
    out = []
    for p in s.a:
        if p.op != "e" or not is_const(p.a[0]):
            return None
        out.append(cval(p.a[0]))
    return out


def strip(ip, st, v, ty):
    while isref(ip, ty):
        to = ip.p.pointee(ty)
        v = ip.at(st, v, to)
        ty = to
    return v, ty


def local_cmp(ip, c, st, trait, name, av, aty, bv, bty):
    """implementation of a comparison in the crate for the two (dereferenced) types"""
    for i in ip.p.impls.get((trait, name), []):
        b = ip.p.raw[i]
        l = b["mir"]["locals"]
        if b["selfty"] == aty and len(l) > 2 and ip.p.pointee(l[2]) == bty:
            return i
    return None


def ref_to(ip, c, st, v, k):
    return mk("ptr", mk("cst", v), ())


@model("cmp::PartialOrd::partial_cmp", "cmp::Ord::cmp", "cmp::PartialOrd::lt", "cmp::PartialOrd::le", "cmp::PartialOrd::gt", "cmp::PartialOrd::ge")
def _cmp(ip, c, st, args):
    ty0 = ip.p.pointee(c.argtys[0]) if isref(ip, c.argtys[0]) else c.argtys[0]
    a, aty = strip(ip, st, args[0], c.argtys[0])
    b, bty = strip(ip, st, args[1], c.argtys[1])
    n = c.name
    i = local_cmp(ip, c, st, "std::cmp::PartialOrd", "partial_cmp", a, aty, b, bty) or \
        (local_cmp(ip, c, st, "std::cmp::Ord", "cmp", a, aty, b, bty) if n == "cmp" else None)
    if i is not None:
        r = ip.run(c, st, i, [ref_to(ip, c, st, a, 0), ref_to(ip, c, st, b, 1)])
        out = []
        for s, v in r or ():
            if n in ("partial_cmp", "cmp"):
                out.append((s, v))
                continue
            for s2, k, fs in variants(ip, s, v):
                if k == 0:
                    out.append((s2, FALSE))
                else:
                    out.append((s2, rel(n, ip.discr(fs[0]))))
        return out
    x = cmp_vals(ip, c, st, a, b, aty)
    if x is None:
        if aty is not None and ip.p.ty(aty)["k"] == "adt" and ip.p.ty(aty)["path"] == "std::option::Option" or True:
            # derived orderings of other types: opaque but consistent
            if a.uid > b.uid:
                x = scale(app("cmp", b, a), -1)
            else:
                x = app("cmp", a, b)
    if n == "cmp":
        return ord_of(ip, x)
    if n == "partial_cmp":
        return some(ord_of(ip, x))
    return rel(n, x)


def rel(n, x):
    # x in {-1,0,1}: order relations as equalities so that they meet with 'match' on an Ordering
    if n == "lt":
        return lt(x, ZERO)
    if n == "le":
        return le(x, ZERO)
    if n == "gt":
        return lt(ZERO, x)
    return le(ZERO, x)


def ord_of(ip, x):
    if is_const(x):
        return agg("adt:std::cmp::Ordering", cval(x) + 1, ())
    return app("ofint", x, ty=ip.ordering)


@model("cmp::PartialEq::eq", "cmp::PartialEq::ne")
def _eq(ip, c, st, args):
    a, aty = strip(ip, st, args[0], c.argtys[0])
    b, bty = strip(ip, st, args[1], c.argtys[1])
    i = local_cmp(ip, c, st, "std::cmp::PartialEq", "eq", a, aty, b, bty)
    if i is not None:
        r = ip.run(c, st, i, [ref_to(ip, c, st, a, 0), ref_to(ip, c, st, b, 1)])
        return r if c.name == "eq" else [(s, neg(ip.as_bool(v))) for s, v in r or ()]
    x = equal(ip, c, st, a, b, aty)
    if c.name == "ne":
        x = neg(x)
    return x


def equal(ip, c, st, a, b, ty):
    if a is b:
        return TRUE
    t = ip.p.ty(ty)
    k = t["k"]
    if k in ("int", "char"):
        return eq_int(a, b)
    if k == "bool":
        return ip.iff(a, b)
    if k in ("slice", "array", "str") or k == "adt" and t["path"] in ("std::vec::Vec", "std::string::String") \
            or a.op == "seq" or b.op == "seq":
        if a is EMPTY_SEQ:
            return eq_int(seq_len(b), ZERO)
        if b is EMPTY_SEQ:
            return eq_int(seq_len(a), ZERO)
        return eq_int(bcmp(a, b), ZERO)
    if k == "tuple":
        return conj(*[equal(ip, c, st, ip.field(a, i, None), ip.field(b, i, None), e) for i, e in enumerate(t["elems"])])
    if k == "adt" and t.get("variants") and t["enum"]:
        da, db = ip.discr(a), ip.discr(b)
        if is_const(da) and is_const(db) and da is not db:
            return FALSE
        if a.op == "agg" or b.op == "agg":
            v = a.a[1] if a.op == "agg" else b.a[1]
            fs = t["variants"][v]["fields"]
            return conj(eq_int(da, db), *[equal(ip, c, st, ip.field(a, i, v), ip.field(b, i, v), f[1]) for i, f in enumerate(fs)])
        if all(not v["fields"] for v in t["variants"]):
            return eq_int(da, db)
    if k == "adt" and t.get("variants") and not t["enum"]:
        return conj(*[equal(ip, c, st, ip.field(a, i, None), ip.field(b, i, None), f[1]) for i, f in enumerate(t["variants"][0]["fields"])])
    return eq_term(a, b)


@model("cmp::min", "cmp::Ord::min", "cmp::max", "cmp::Ord::max")
def _minmax(ip, c, st, args):
    if ip.p.ty(c.dty)["k"] != "int":
        return NotImplemented
    a, b = args[0], args[1]
    mn = c.name == "min"
    return both(st, le(a, b), lambda s: a if mn else b, lambda s: b if mn else a)


@model("cmp::Ordering::is_lt", "cmp::Ordering::is_le", "cmp::Ordering::is_gt", "cmp::Ordering::is_ge", "cmp::Ordering::is_eq", "cmp::Ordering::is_ne")
def _ordis(ip, c, st, args):
    x = ip.discr(args[0])
    n = c.name[3:]
    if n == "eq":
        return eq_int(x, ZERO)
    if n == "ne":
        return neg(eq_int(x, ZERO))
    return rel(n, x)


@model("cmp::Ordering::reverse")
def _ordrev(ip, c, st, args):
    return ord_of(ip, scale(ip.discr(args[0]), -1))


@model("cmp::Ordering::then")
def _ordthen(ip, c, st, args):
    x = ip.discr(args[0])
    return both(st, eq_int(x, ZERO), lambda s: args[1], lambda s: args[0])


# ------------------------------------------------------------------ integers
def _int2(f):
    def g(ip, c, st, args):
        return f(ip, c, st, args[0], args[1])
    return g


def is_unsigned(ip, ty):
    return ip.p.ty(ty)["s"][:1] == "u"


@model("num::checked_sub")
def _csub(ip, c, st, args):
    v = sub(args[0], args[1])
    return both(st, ge0(v), lambda s: some(v), lambda s: NONE)


@model("num::checked_add", "num::checked_mul")
def _cadd(ip, c, st, args):
    v = add(args[0], args[1]) if c.name == "checked_add" else app("mul", args[0], args[1], ty=c.argtys[0])
    return some(v)


@model("num::saturating_sub")
def _ssub(ip, c, st, args):
    v = sub(args[0], args[1])
    return both(st, ge0(v), lambda s: v, lambda s: ZERO)


@model("num::saturating_add", "num::wrapping_add")
def _sadd(ip, c, st, args):
    return add(args[0], args[1])


@model("num::wrapping_sub")
def _wsub(ip, c, st, args):
    v = sub(args[0], args[1])
    return both(st, ge0(v), lambda s: v, lambda s: app("wrapped", v, ty=c.dty))


@model("num::abs_diff")
def _absd(ip, c, st, args):
    v = sub(args[0], args[1])
    return both(st, ge0(v), lambda s: v, lambda s: scale(v, -1))


@model("num::is_power_of_two")
def _opq(ip, c, st, args):
    return app("intfn", c.name, *args, ty=c.dty)


@model("num::div_ceil")
def _divceil(ip, c, st, args):
    if is_const(args[1]):
        return app("div", add(args[0], C(cval(args[1]) - 1)), args[1], ty=c.dty)
    return NotImplemented


@model("num::div_euclid")
def _diveu(ip, c, st, args):
    return app("div", args[0], args[1], ty=c.dty)


@model("num::rem_euclid")
def _remeu(ip, c, st, args):
    if is_const(args[1]) and cval(args[1]):
        return sub(args[0], scale(app("div", args[0], args[1], ty=c.dty), cval(args[1])))
    return NotImplemented


@model("num::is_multiple_of")
def _ismult(ip, c, st, args):
    if is_const(args[1]) and cval(args[1]):
        return eq_int(sub(args[0], scale(app("div", args[0], args[1], ty=c.argtys[0]), cval(args[1]))), ZERO)
    return NotImplemented


# ------------------------------------------------------------------ Vec / slice
def seqarg(ip, c, st, i=0):
    """(object, projection, value) of a sequence argument given by reference"""
    ty = c.argtys[i]
    to = ip.p.pointee(ty)
    o, pr = ip.deref(c.args[i], to)
    v = ip.load(st, o, pr)
    n = 0
    while v.op == "ptr" and n < 5:
        o, pr = ip.deref(v)
        v = ip.load(st, o, pr)
        n += 1
    return o, pr, v


@model("vec::Vec::new", "vec::Vec::with_capacity", "string::String::new", "string::String::with_capacity", "collections::VecDeque::new",
       "collections::VecDeque::with_capacity")
def _vnew(ip, c, st, args):
    return EMPTY_SEQ


@model("vec::Vec::len", "slice::len", "string::String::len", "str::len", "collections::VecDeque::len", "array::len")
def _len(ip, c, st, args):
    return seq_len(seqarg(ip, c, st)[2])


@model("vec::Vec::is_empty", "slice::is_empty", "string::String::is_empty", "str::is_empty", "collections::VecDeque::is_empty")
def _is_empty(ip, c, st, args):
    return eq_int(seq_len(seqarg(ip, c, st)[2]), ZERO)


def capof(ip, v):
    u = getattr(ip.p, "_usize", None)
    if u is None:
        u = ip.p._usize = next(i for i, t in enumerate(ip.p.types) if t["s"] == "usize")
    return app("cap", v, ty=u)


@model("vec::Vec::capacity")
def _cap(ip, c, st, args):
    v = seqarg(ip, c, st)[2]
    cap = capof(ip, v)
    assume(st, ge0(add(cap, scale(seq_len(v), -1))))
    return cap


@model("vec::Vec::shrink_to_fit", "vec::Vec::reserve", "vec::Vec::reserve_exact", "string::String::reserve", "vec::Vec::shrink_to")
def _noop(ip, c, st, args):
    if c.name == "shrink_to_fit":
        v = seqarg(ip, c, st)[2]
        ip.event(st, "shrink", seq=v, call=c)
        assume(st, eq_int(capof(ip, v), seq_len(v)))
    return UNIT


@model("vec::Vec::push", "collections::VecDeque::push_back")
def _push(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    ip.store(st, o, pr, concat(v, mkseq([elem_e(args[1])])))
    ip.event(st, "push", obj=o, proj=pr, old=v, val=args[1], call=c)
    return UNIT


@model("collections::VecDeque::push_front")
def _push_front(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    ip.store(st, o, pr, concat(mkseq([elem_e(args[1])]), v))
    return UNIT


@model("vec::Vec::pop", "collections::VecDeque::pop_back")
def _pop(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    if not ip.nonempty(st, v):
        return NONE
    n = seq_len(v)
    a, _, b = ip.seq_split(st, v, sub(n, ONE))
    x = ip.seq_first(st, b)
    ip.store(st, o, pr, a)
    ip.event(st, "pop", obj=o, proj=pr, old=v, val=x, call=c)
    return some(x)


@model("collections::VecDeque::pop_front")
def _pop_front(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    if not ip.nonempty(st, v):
        return NONE
    x = ip.seq_first(st, v)
    _, _, b = ip.seq_split(st, v, ONE)
    ip.store(st, o, pr, b)
    return some(x)


@model("vec::Vec::insert", "collections::VecDeque::insert")
def _insert(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    i = args[1]
    if not check(ip, c, st, conj(ge0(i), le(i, seq_len(v))), "insert index"):
        return None
    a, _, b = ip.seq_split(st, v, i)
    ip.store(st, o, pr, concat(a, mkseq([elem_e(args[2])]), b))
    return UNIT


@model("vec::Vec::remove", "collections::VecDeque::remove", "vec::Vec::swap_remove")
def _remove(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    i = args[1]
    n = seq_len(v)
    if not check(ip, c, st, conj(ge0(i), lt(i, n)), "remove index"):
        return None
    a, _, b = ip.seq_split(st, v, i)
    x = ip.seq_first(st, b)
    _, _, r = ip.seq_split(st, b, ONE)
    if c.name == "swap_remove" and r is not EMPTY_SEQ and ip.nonempty(st, r):
        m, _, l = ip.seq_split(st, r, sub(seq_len(r), ONE))
        r = concat(l, m)
    ip.store(st, o, pr, concat(a, r))
    ip.event(st, "remove", obj=o, proj=pr, old=v, index=i, val=x, call=c)
    return x


@model("vec::Vec::swap", "slice::swap")
def _vswap(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    i, j = args[1], args[2]
    if not check(ip, c, st, conj(lt(i, seq_len(v)), lt(j, seq_len(v))), "swap index"):
        return None
    x, y = ip.seq_at(st, v, i), ip.seq_at(st, v, j)
    if i is j:
        return UNIT
    ip.store(st, o, pr + (("i", i),), y)
    ip.store(st, o, pr + (("i", j),), x)
    return UNIT


@model("vec::Vec::append")
def _append(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st, 0)
    o2, pr2, w = seqarg(ip, c, st, 1)
    ip.store(st, o, pr, concat(v, w))
    ip.store(st, o2, pr2, EMPTY_SEQ)
    return UNIT


@model("vec::Vec::extend_from_slice")
def _extend_slice(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st, 0)
    ip.store(st, o, pr, concat(v, val(ip, st, args[1])))
    return UNIT


@model("iter::Extend::extend")
def _extend(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st, 0)
    s = items(ip, c, st, args[1], c.argtys[1])
    if s is None:
        return NotImplemented
    t = ip.p.ty(ip.p.pointee(c.argtys[0]))
    ip.store(st, o, pr, concat(v, unref_items(ip, st, s, t, c)))
    return UNIT


def unref_items(ip, st, s, t, c):
    # extending a Vec<T> by an iterator of &T copies
    et = t["args"][0] if t["k"] == "adt" and t["args"] else None
    if et is not None and ip.p.ty(et)["k"] in ("int", "char") :
        return map_seq(ip, st, s, lambda x: ip.at(st, x) if x.op == "ptr" else x)
    return s


@model("vec::Vec::truncate")
def _truncate(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    n = seq_len(v)
    if ip.decide(st, lt(args[1], n)):
        a, _, _ = ip.seq_split(st, v, args[1])
        ip.store(st, o, pr, a)
    return UNIT


@model("vec::Vec::clear", "string::String::clear")
def _clear(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    ip.store(st, o, pr, EMPTY_SEQ)
    return UNIT


@model("vec::Vec::split_off", "collections::VecDeque::split_off")
def _split_off(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    if not check(ip, c, st, le(args[1], seq_len(v)), "split_off index"):
        return None
    a, _, b = ip.seq_split(st, v, args[1])
    ip.store(st, o, pr, a)
    return b


@model("vec::Vec::splice", "vec::Vec::drain", "vec::Vec::splice_unused", "collections::VecDeque::drain")
def _splice(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    n = seq_len(v)
    r = range_of(ip, st, args[1], n)
    if r is None:
        return NotImplemented
    lo, hi = r
    if not check(ip, c, st, conj(le(lo, hi), le(hi, n)), "splice range"):
        return None
    ins = EMPTY_SEQ
    if c.name == "splice":
        ins = items(ip, c, st, args[2], c.argtys[2])
        if ins is None:
            return NotImplemented
    a, _, b = ip.seq_split(st, v, lo)
    m, _, z = ip.seq_split(st, b, sub(hi, lo))
    ip.store(st, o, pr, concat(a, ins, z))
    return iter_of(m)


@model("vec::Vec::retain", "vec::Vec::dedup", "slice::sort", "slice::sort_by", "slice::sort_unstable", "slice::sort_by_key", "vec::Vec::retain_mut",
       "slice::sort_unstable_by_key", "vec::Vec::dedup_by_key")
def _havocseq(ip, c, st, args):
    return NotImplemented


@model("slice::reverse")
def _reverse(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    ip.store(st, o, pr, rev_seq(v))
    return UNIT


@model("slice::concat")
def _concat(ip, c, st, args):
    v = seqarg(ip, c, st)[2]
    v = as_seq(v)
    parts = []
    for p in v.a:
        if p.op != "e":
            return NotImplemented
        parts.append(val(ip, st, p.a[0]))
    if ip.blob:
        flat = []
        for x in parts:
            flat.extend(x.a[1] if x.op == "app" and x.a[0] == "cat" else (x,))
        return app("cat", *flat, ty=c.dty)
    return concat(*parts)


@model("slice::join")
def _join(ip, c, st, args):
    v = as_seq(seqarg(ip, c, st)[2])
    sep = val(ip, st, args[1])
    parts = []
    if any(p.op != "e" for p in v.a):
        return NotImplemented
    if ip.p.ty(c.argtys[1])["k"] == "ref" and (sep.op == "lin" or ip.intish(sep)):
        sep = mkseq([elem_e(sep)])
    for i, p in enumerate(v.a):
        if i:
            parts.append(sep)
        parts.append(val(ip, st, p.a[0]))
    return concat(*parts)


@model("slice::repeat")
def _repeat(ip, c, st, args):
    return NotImplemented


@model("slice::get", "slice::get_mut", "vec::Vec::get", "vec::Vec::get_mut", "collections::VecDeque::get")
def _get(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    i = args[1]
    n = seq_len(v)
    if ip.p.ty(c.argtys[1])["k"] != "int":
        r = range_of(ip, st, i, n)
        if r is None:
            return NotImplemented
        lo, hi = r
        return both(st, conj(le(lo, hi), le(hi, n)), lambda s: some(mk("ptr", o, pr + (("sl", lo, hi),))), lambda s: NONE)
    return both(st, lt(i, n), lambda s: some(mk("ptr", o, pr + (("i", i),))), lambda s: NONE)


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def _getu(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    return mk("ptr", o, pr + (("i", args[1]),))


@model("slice::first", "slice::first_mut", "collections::VecDeque::front")
def _first(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    return both(st, lt(ZERO, seq_len(v)), lambda s: some(mk("ptr", o, pr + (("i", ZERO),))), lambda s: NONE)


@model("slice::last", "slice::last_mut", "collections::VecDeque::back")
def _last(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    n = seq_len(v)
    return both(st, lt(ZERO, n), lambda s: some(mk("ptr", o, pr + (("i", sub(n, ONE)),))), lambda s: NONE)


@model("slice::split_at", "slice::split_at_mut")
def _split_at(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    n = seq_len(v)
    if not check(ip, c, st, le(args[1], n), "split_at"):
        return None
    return tup(mk("ptr", o, pr + (("sl", ZERO, args[1]),)), mk("ptr", o, pr + (("sl", args[1], n),)))


@model("slice::split_first", "slice::split_last")
def _split_first(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    n = seq_len(v)
    if c.name == "split_first":
        r = tup(mk("ptr", o, pr + (("i", ZERO),)), mk("ptr", o, pr + (("sl", ONE, n),)))
    else:
        r = tup(mk("ptr", o, pr + (("i", sub(n, ONE)),)), mk("ptr", o, pr + (("sl", ZERO, sub(n, ONE)),)))
    return both(st, lt(ZERO, n), lambda s: some(r), lambda s: NONE)


@model("slice::starts_with")
def _starts_with(ip, c, st, args):
    a = seqarg(ip, c, st, 0)[2]
    b = val(ip, st, args[1])
    return app("starts_with", a, b)


@model("slice::ends_with", "slice::eq_ignore_ascii_case", "slice::ascii::eq_ignore_ascii_case", "slice::is_ascii", "slice::ascii::is_ascii", "str::eq_ignore_ascii_case", "slice::is_sorted")
def _pure_bool(ip, c, st, args):
    return app("pure", mk("name", c.name), seqarg(ip, c, st, 0)[2], *[val(ip, st, a) for a in args[1:]], ty=ip.boolty)


@model("slice::trim_ascii", "slice::ascii::trim_ascii", "slice::trim_ascii_start", "slice::ascii::trim_ascii_start", "slice::trim_ascii_end", "slice::ascii::trim_ascii_end")
def _trim(ip, c, st, args):
    v = app("pure", mk("name", c.name), seqarg(ip, c, st, 0)[2], ty=ip.p.pointee(c.dty))
    return mk("ptr", mk("cst", v), ())


@model("slice::to_ascii_lowercase", "slice::ascii::to_ascii_lowercase", "slice::to_ascii_uppercase", "slice::ascii::to_ascii_uppercase")
def _pure_vec(ip, c, st, args):
    return app("pure", mk("name", c.name), seqarg(ip, c, st, 0)[2], ty=c.dty)


@model("slice::strip_prefix")
def _strip_prefix(ip, c, st, args):
    o, pr, a = seqarg(ip, c, st, 0)
    b = val(ip, st, args[1])
    return both(st, app("starts_with", a, b), lambda s: some(mk("ptr", o, pr + (("sl", seq_len(b), seq_len(a)),))), lambda s: NONE)


@model("slice::contains")
def _contains(ip, c, st, args):
    return app("contains", seqarg(ip, c, st, 0)[2], val(ip, st, args[1]))


@model("slice::copy_from_slice", "slice::clone_from_slice")
def _copyfrom(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    ip.store(st, o, pr, val(ip, st, args[1]))
    return UNIT


@model("slice::from_raw_parts", "slice::from_raw_parts_mut")
def _frp(ip, c, st, args):
    ip.event(st, "from_raw_parts", ptr=args[0], len=args[1], call=c)
    return mk("ptr", mk("cst", app("rawslice", args[0], args[1], ty=ip.p.pointee(c.dty))), ())


@model("vec::Vec::from_raw_parts")
def _vfrp(ip, c, st, args):
    ip.event(st, "vec_from_raw_parts", ptr=args[0], len=args[1], cap=args[2], call=c)
    return app("vecraw", *args, ty=c.dty)


@model("vec::Vec::as_mut_ptr", "vec::Vec::as_ptr", "slice::as_ptr", "slice::as_mut_ptr")
def _asptr(ip, c, st, args):
    return app("dataptr", seqarg(ip, c, st)[2], ty=c.dty)


# ------------------------------------------------------------------ iterators (eager: the sequence of items)
def iter_of(s):
    return mk("agg", "iter", 0, (s,))


def rev_seq(s):
    s = as_seq(s)
    out = []
    for p in reversed(s.a):
        if p.op == "e":
            out.append(p)
        else:
            lvl, lo, hi, tm = p.a
            tot = sub(add(lo, hi), ONE)
            out.append(seg(lo, hi, lambda i, p=p, tot=tot: part_at(p, sub(tot, i))))
    return mkseq(out)


def map_seq(ip, st, s, f):
    s = as_seq(s)
    out = []
    for p in s.a:
        if p.op == "e":
            out.append(elem_e(f(p.a[0])))
        else:
            lvl, lo, hi, tm = p.a
            sym = mk("it", mk("mapsym", p), lvl)
            r = f(part_at(p, sym))
            out.append(seg(lo, hi, lambda i: subst(r, {sym: i})))
    return mkseq(out)


def items(ip, c, st, v, ty=None):
    """the items of an iterator / collection value, or None"""
    n = 0
    while v.op == "ptr" and n < 5:
        # an iterator by reference (or boxed), or a collection by reference: items are references
        o, pr = ip.deref(v, ip.p.pointee(ty) if ty is not None else None)
        x = ip.load(st, o, pr)
        if ty is not None:
            ty = ip.p.pointee(ty)
        if x.op == "seq" or x.op == "app" and ip.p.is_seq_ty(x.a[2]):
            return refs(ip, st, o, pr, x)
        v = x
        n += 1
    if v.op == "agg":
        k = v.a[0]
        if k == "iter":
            return v.a[2][0]
        if k.endswith("ops::Range"):
            return rng(ip, st, v.a[2][0], v.a[2][1])
        if k.endswith("ops::RangeInclusive"):
            return rng(ip, st, v.a[2][0], add(v.a[2][1], ONE))
        if k == OPT:
            return mkseq([elem_e(v.a[2][0])]) if v.a[1] == 1 else EMPTY_SEQ
    if v.op == "seq":
        return v
    if v.op == "app" and (ip.p.is_seq_ty(v.a[2]) or ip.p.is_seq_ty(ty)):
        return v
    return None


def rng(ip, st, lo, hi):
    if ip.decide(st, lt(lo, hi)):
        return mkseq([seg(lo, hi, lambda i: i)])
    return EMPTY_SEQ


def refs(ip, st, o, pr, x):
    """sequence of references to the elements of the sequence at (o, pr)"""
    n = seq_len(x)
    if pr and pr[-1][0] == "sl":
        lo = pr[-1][1]
        return mkseq([seg(ZERO, n, lambda i: mk("ptr", o, pr[:-1] + (("i", add(lo, i)),)))])
    return mkseq([seg(ZERO, n, lambda i: mk("ptr", o, pr + (("i", i),)))])


@model("slice::iter", "slice::iter_mut", "vec::Vec::iter", "collections::VecDeque::iter", "vec::Vec::iter_mut")
def _iter(ip, c, st, args):
    o, pr, v = seqarg(ip, c, st)
    return iter_of(refs(ip, st, o, pr, v))


@model("iter::IntoIterator::into_iter")
def _into_iter(ip, c, st, args):
    t = ip.p.ty(c.argtys[0])
    v = args[0]
    if v.op == "agg" and v.a[0] == "iter":
        return v
    if t["k"] == "adt" and t["path"] in ("std::ops::Range", "std::ops::RangeInclusive"):
        return v
    s = items(ip, c, st, v, c.argtys[0]) if t["k"] in ("ref", "adt", "array") else None
    if s is None:
        return v
    if t["k"] == "ref" and ip.p.ty(t["to"])["k"] == "param":
        return v
    return iter_of(s)


@model("iter::empty", "iter::once", "iter::repeat")
def _iempty(ip, c, st, args):
    if c.name == "empty":
        return iter_of(EMPTY_SEQ)
    if c.name == "once":
        return iter_of(mkseq([elem_e(args[0])]))
    return NotImplemented


def iter_place(ip, c, st, i=0):
    """(object, projection, items) of an iterator passed by &mut"""
    o, pr = ip.deref(c.args[i], ip.p.pointee(c.argtys[i]))
    v = ip.load(st, o, pr)
    n = 0
    while v.op == "ptr" and n < 5:
        o, pr = ip.deref(v)
        v = ip.load(st, o, pr)
        n += 1
    s = items(ip, c, st, v)
    return o, pr, s


@model("iter::Iterator::next", "iter::DoubleEndedIterator::next_back")
def _next(ip, c, st, args):
    o, pr, s = iter_place(ip, c, st)
    if s is None:
        return NotImplemented
    if not ip.nonempty(st, s):
        return NONE
    if c.name == "next":
        x = ip.seq_first(st, s)
        _, _, r = ip.seq_split(st, s, ONE)
    else:
        r, _, b = ip.seq_split(st, s, sub(seq_len(s), ONE))
        x = ip.seq_first(st, b)
    ip.store_quiet(st, o, pr, iter_of(r))
    return some(x)


@model("iter::Iterator::rev")
def _rev(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    return NotImplemented if s is None else iter_of(rev_seq(s))


@model("iter::Iterator::enumerate")
def _enumerate(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    s = as_seq(s)
    out, off = [], ZERO
    for p in s.a:
        if p.op == "e":
            out.append(elem_e(tup(off, p.a[0])))
        else:
            d = sub(off, p.a[1])
            out.append(seg(p.a[1], p.a[2], lambda i, p=p, d=d: tup(add(i, d), part_at(p, i))))
        off = add(off, part_len(p))
    return iter_of(mkseq(out))


@model("iter::Iterator::step_by")
def _step_by(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    k = args[1]
    if s is None or not is_const(k) or cval(k) < 1:
        return NotImplemented
    k = cval(k)
    s = as_seq(s)
    if k == 1 or not s.a:
        return iter_of(s)
    if len(s.a) == 1 and s.a[0].op == "c":
        p = s.a[0]
        lo, hi = p.a[1], p.a[2]
        cnt = app("div", add(sub(hi, lo), C(k - 1)), C(k), ty=ip.usize)
        return iter_of(mkseq([seg(ZERO, cnt, lambda j: part_at(p, add(lo, scale(j, k))))]))
    if all(p.op == "e" for p in s.a):
        return iter_of(mkseq(list(s.a)[::k]))
    return NotImplemented


@model("iter::Iterator::skip", "iter::Iterator::take")
def _skip(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    n = seq_len(s)
    k = args[1]
    if not ip.decide(st, le(k, n)):
        return iter_of(EMPTY_SEQ if c.name == "skip" else s)
    a, _, b = ip.seq_split(st, s, k)
    return iter_of(b if c.name == "skip" else a)


@model("iter::Iterator::chain")
def _chain(ip, c, st, args):
    a = items(ip, c, st, args[0], c.argtys[0])
    b = items(ip, c, st, args[1], c.argtys[1])
    if a is None or b is None:
        return NotImplemented
    return iter_of(concat(a, b))


@model("iter::Iterator::zip", "iter::zip")
def _zip(ip, c, st, args):
    a = items(ip, c, st, args[0], c.argtys[0])
    b = items(ip, c, st, args[1], c.argtys[1])
    if a is None or b is None:
        return NotImplemented
    a, b = as_seq(a), as_seq(b)
    if all(p.op == "e" for p in a.a + b.a):
        return iter_of(mkseq([elem_e(tup(x.a[0], y.a[0])) for x, y in zip(a.a, b.a)]))
    if len(a.a) == 1 and len(b.a) == 1 and a.a[0].op == "c" and b.a[0].op == "c":
        p, q = a.a[0], b.a[0]
        n1, n2 = part_len(p), part_len(q)
        n = n1 if ip.decide(st, le(n1, n2)) else n2
        return iter_of(mkseq([seg(ZERO, n, lambda i: tup(part_at(p, add(p.a[1], i)), part_at(q, add(q.a[1], i))))]))
    return NotImplemented


@model("iter::Iterator::cloned", "iter::Iterator::copied")
def _icloned(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    return iter_of(map_seq(ip, st, s, lambda x: ip.at(st, x)))


@model("iter::Iterator::peekable", "iter::Iterator::fuse")
def _peekable(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    return NotImplemented if s is None else iter_of(s)


@model("iter::Peekable::peek")
def _peek(ip, c, st, args):
    o, pr, s = iter_place(ip, c, st)
    if s is None:
        return NotImplemented
    if not ip.nonempty(st, s):
        return NONE
    return some(mk("ptr", mk("cst", ip.seq_first(st, s)), ()))


def apply_items(ip, c, st, s, f, by_ref=False, tag="map"):
    """apply closure f to every item: [(state, sequence of results)], or None when it is not a pure map"""
    s = as_seq(s)
    states = [(st, [])]
    for n, p in enumerate(s.a):
        nxt = []
        for s0, acc in states:
            if p.op == "e":
                x = p.a[0]
                if by_ref:
                    x = mk("ptr", mk("cst", x), ())
                r = ip.call_value(c, s0, f, [x])
                for s1, v in r or ():
                    nxt.append((s1, acc + [elem_e(v)]))
            else:
                lvl, lo, hi, tm = p.a
                sym = mk("it", c.ctx, (tag, n))
                s1 = s0.copy()
                if not (assume(s1, le(lo, sym)) and assume(s1, lt(sym, hi))):
                    nxt.append((s0, acc))
                    continue
                x = part_at(p, sym)
                if by_ref:
                    x = mk("ptr", mk("cst", x), ())
                before = {k: v for k, v in s1.mem.items()}
                r = ip.call_value(c, s1, f, [x])
                if r is None or len(r) != 1:
                    return None
                s2, v = r[0]
                for k, w in s2.mem.items():
                    if k.op != "obj" and before.get(k) is not w:
                        return None
                # objects made for an item
                new = [k for k in s2.mem if k.op == "obj" and k not in before and k in objs_in(v)]
                s3 = s0
                if new:
                    for k in new:
                        s3.fams = s3.fams + ((sym, lo, hi, k, s2.mem[k]),)
                nxt.append((s3, acc + [seg(lo, hi, lambda i: subst(v, {sym: i}))]))
        states = nxt
    return [(a, mkseq(b)) for a, b in states]


def objs_in(v):
    from .interp import objs_of
    return objs_of(v)


@model("iter::Iterator::map")
def _imap(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    r = apply_items(ip, c, st, s, args[1])
    if r is None:
        return NotImplemented
    return [(a, iter_of(b)) for a, b in r]


@model("iter::Iterator::for_each")
def _for_each(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    s = as_seq(s)
    if all(p.op == "e" for p in s.a):
        states = [st]
        for p in s.a:
            states = [s1 for s0 in states for s1, _ in (ip.call_value(c, s0, args[1], [p.a[0]]) or ())]
        return [(s1, UNIT) for s1 in states]
    return NotImplemented


def pred_seq(ip, c, st, s, f, by_ref, tag):
    """sequence of the predicate's values on the items, when the predicate is pure and total"""
    return apply_items(ip, c, st, s, f, by_ref, tag)


@model("iter::Iterator::filter")
def _ifilter(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    s = as_seq(s)
    if all(p.op == "e" for p in s.a) and len(s.a) <= max(4, ip.unroll):
        states = [(st, [])]
        for p in s.a:
            nxt = []
            for s0, acc in states:
                for s1, b in ip.call_value(c, s0, args[1], [mk("ptr", mk("cst", p.a[0]), ())]) or ():
                    a1, a2 = fork2(s1, ip.as_bool(b))
                    if a1 is not None:
                        nxt.append((a1, acc + [p]))
                    if a2 is not None:
                        nxt.append((a2, acc))
            states = nxt
        return [(a, iter_of(mkseq(b))) for a, b in states]
    r = pred_seq(ip, c, st, s, args[1], True, "filter")
    if r is None or len(r) != 1:
        return NotImplemented
    st2, preds = r[0]
    F = app("filter", deep_items(ip, st2, s), preds)
    n = app("len", F)
    assume(st2, le(n, seq_len(s)))
    return [(st2, iter_of(mkseq([seg(ZERO, n, lambda k: at_index(s, app("fidx", F, k)))])))]


def deep_items(ip, st, s):
    return s


def at_index(s, i):
    s = as_seq(s)
    if len(s.a) == 1 and s.a[0].op == "c":
        p = s.a[0]
        return part_at(p, add(p.a[1], i))
    return app("elem", s, i)


def _item_by_item(ip, c, st, args):
    """adapters that are followed for sequences of known items only"""
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    s = as_seq(s)
    limit = max(4, EXPAND[0])
    if any(p.op != "e" for p in s.a) or len(s.a) > limit:
        return NotImplemented
    xs = [p.a[0] for p in s.a]
    if c.name == "fold":
        states = [(st, args[1])]
        for x in xs:
            states = [r for s0, acc in states for r in ip.call_value(c, s0, args[2], [acc, x]) or ()]
        return states or None
    ref = lambda x: mk("ptr", mk("cst", x), ())
    states, done = [(st, [])], []
    for n, x in enumerate(xs):
        nxt = []
        for s0, acc in states:
            if c.name == "flatten":
                q = items(ip, c, s0, x)
                if q is None:
                    return NotImplemented
                nxt.append((s0, acc + list(as_seq(q).a)))
                continue
            for s1, v in ip.call_value(c, s0, args[1], [ref(x) if c.name in ("take_while", "skip_while") else x]) or ():
                if c.name == "flat_map":
                    q = items(ip, c, s1, v)
                    if q is None:
                        return NotImplemented
                    nxt.append((s1, acc + list(as_seq(q).a)))
                elif c.name in ("filter_map", "map_while"):
                    for s2, k, fs in variants(ip, s1, v):
                        if k == 1:
                            nxt.append((s2, acc + [elem_e(fs[0])]))
                        else:
                            (nxt if c.name == "filter_map" else done).append((s2, acc))
                else:
                    a1, a2 = fork2(s1, ip.as_bool(v))
                    keep, stop = (a1, a2) if c.name == "take_while" else (a2, a1)
                    if c.name == "take_while":
                        if keep is not None:
                            nxt.append((keep, acc + [elem_e(x)]))
                        if stop is not None:
                            done.append((stop, acc))
                    else:
                        if stop is not None:
                            nxt.append((stop, acc))
                        if keep is not None:
                            done.append((keep, [elem_e(y) for y in xs[n:]]))
        states = nxt
        if len(states) + len(done) > 64:
            return NotImplemented
    return [(a, iter_of(mkseq(b))) for a, b in states + done] or None


@model("iter::Iterator::filter_map", "iter::Iterator::flat_map", "iter::Iterator::take_while", "iter::Iterator::skip_while", "iter::Iterator::flatten",
       "iter::Iterator::scan", "iter::Iterator::map_while", "iter::Iterator::fold", "iter::Iterator::try_fold", "iter::Iterator::sum",
       "iter::Iterator::min_by_key", "iter::Iterator::max_by_key", "slice::chunks", "slice::chunks_exact", "slice::windows", "iter::Iterator::inspect",
       "iter::Iterator::try_for_each")
def _complex_iter(ip, c, st, args):
    if c.name in ("filter_map", "flat_map", "flatten", "take_while", "skip_while", "map_while", "fold"):
        return _item_by_item(ip, c, st, args)
    if c.name in ("chunks", "chunks_exact", "windows") and is_const(args[1]):
        k = cval(args[1])
        o, pr, v = seqarg(ip, c, st)
        n = seq_len(v)
        if c.name == "chunks_exact" and pr[-1:][0:1] and pr[-1][0] == "sl":
            return NotImplemented
        if c.name == "chunks_exact":
            cnt = app("div", n, C(k), ty=ip.usize)
            return iter_of(mkseq([seg(ZERO, cnt, lambda j: mk("ptr", o, pr + (("sl", scale(j, k), add(scale(j, k), C(k))),)))]))
        if c.name == "chunks":
            # exact when the length is known to be a multiple; otherwise the last one is shorter
            cnt = app("div", n, C(k), ty=ip.usize)
            if holds(st, eq_int(sub(n, scale(cnt, k)), ZERO)) is True:
                return iter_of(mkseq([seg(ZERO, cnt, lambda j: mk("ptr", o, pr + (("sl", scale(j, k), add(scale(j, k), C(k))),)))]))
        return NotImplemented
    return NotImplemented


@model("iter::Iterator::any", "iter::Iterator::all")
def _any(ip, c, st, args):
    o, pr, s = iter_place(ip, c, st)
    if s is None:
        return NotImplemented
    r = pred_seq(ip, c, st, s, args[1], False, "any")
    if r is None or len(r) != 1:
        # a predicate with several outcomes: the answer is some boolean
        return app("unk", mk("any", c.ctx), ty=c.dty)
    st2, preds = r[0]
    isall = c.name == "all"
    preds = map_seq(ip, st2, preds, lambda b: neg(ip.as_bool(b)) if isall else ip.as_bool(b))
    terms = []
    for p in preds.a if preds.op == "seq" else as_seq(preds).a:
        if p.op == "e":
            terms.append(p.a[0])
        else:
            terms.append(app("any", p))
    x = disj(*terms)
    return [(st2, neg(x) if isall else x)]


@model("iter::Iterator::position", "iter::Iterator::rposition", "iter::Iterator::find")
def _position(ip, c, st, args):
    o, pr, s = iter_place(ip, c, st)
    if s is None:
        return NotImplemented
    s = as_seq(s)
    if len(s.a) == 0:
        return NONE
    if len(s.a) != 1 or s.a[0].op != "c":
        return NotImplemented
    p = s.a[0]
    r = pred_seq(ip, c, st, s, args[1], c.name == "find", c.name)
    if r is None or len(r) != 1:
        return NotImplemented
    st2, preds = r[0]
    q = as_seq(preds).a[0]
    if q.op != "c":
        return NotImplemented
    none, found = st2, st2.copy()
    lo, hi = q.a[1], q.a[2]
    k = app("pos", mk("const", c.name), q, ty=ip.usize)   # index within the segment
    ok_ = assume(found, conj(le(ZERO, k), lt(k, sub(hi, lo)))) and assume(found, ip.as_bool(part_at(q, add(lo, k))))
    sym = mk("it", c.ctx, ("posall", 0))
    out = []
    if assume_all(ip, none, q, sym, lo, hi, False):
        out.append((none, NONE))
    if ok_:
        if c.name == "rposition":
            assume_all(ip, found, q, sym, add(add(lo, k), ONE), hi, False)
        else:
            assume_all(ip, found, q, sym, lo, add(lo, k), False)
        out.append((found, some(k if c.name != "find" else part_at(p, add(lo, k)))))
    return out


def assume_all(ip, st, q, sym, lo, hi, value):
    """every element of boolean segment q in [lo,hi) has the given value"""
    f = ip.as_bool(part_at(q, sym))
    st.quant = st.quant + ((sym, lo, hi, ((f, value) if f.op != "not" else (f.a[0], not value),)),)
    return True


@model("iter::Iterator::count")
def _count(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    return NotImplemented if s is None else seq_len(s)


@model("iter::ExactSizeIterator::len")
def _exlen(ip, c, st, args):
    o, pr, s = iter_place(ip, c, st)
    return NotImplemented if s is None else seq_len(s)


@model("iter::Iterator::last", "iter::Iterator::nth")
def _ilast(ip, c, st, args):
    if c.name == "nth":
        o, pr, s = iter_place(ip, c, st)
        if s is None:
            return NotImplemented
        if not ip.decide(st, lt(args[1], seq_len(s))):
            return NONE
        a, _, b = ip.seq_split(st, s, args[1])
        x = ip.seq_first(st, b)
        _, _, r = ip.seq_split(st, b, ONE)
        ip.store_quiet(st, o, pr, iter_of(r))
        return some(x)
    s = items(ip, c, st, args[0], c.argtys[0])
    if s is None:
        return NotImplemented
    if not ip.nonempty(st, s):
        return NONE
    _, _, b = ip.seq_split(st, s, sub(seq_len(s), ONE))
    return some(ip.seq_first(st, b))


@model("iter::Iterator::collect", "iter::FromIterator::from_iter")
def _collect(ip, c, st, args):
    s = items(ip, c, st, args[0], c.argtys[0])
    t = ip.p.ty(c.dty)
    if s is None:
        return NotImplemented
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::collections::VecDeque"):
        return s
    return NotImplemented


# ------------------------------------------------------------------ streams
@model("futures_lite::StreamExt::map", "tokio_stream::StreamExt::map")
def _smap(ip, c, st, args):
    return mk("agg", "streammap", 0, (args[0], args[1]))


@model("futures_lite::StreamExt::filter", "futures_lite::StreamExt::take", "futures_lite::StreamExt::skip", "futures_lite::StreamExt::filter_map",
       "futures_lite::StreamExt::take_while", "futures_lite::StreamExt::skip_while", "futures_lite::StreamExt::boxed", "futures_lite::StreamExt::then")
def _sother(ip, c, st, args):
    return mk("agg", "streamother", 0, (mk("const", c.name),) + tuple(args))


# ------------------------------------------------------------------ runtime, tasks, C strings
@model("tokio::runtime::Runtime::new")
def _rtnew(ip, c, st, args):
    s2 = st.copy()
    ip.event(s2, "failure", kind="runtime", call=c)
    return [(st, ok(c.fresh("runtime", None))), (s2, err(app("ioerr", mk("const", "runtime"), c.ctx)))]


@model("tokio::runtime::Runtime::block_on", "tokio::runtime::Runtime::spawn", "tokio::spawn", "tokio::runtime::Handle::block_on",
       "tokio::runtime::Handle::spawn", "tokio::task::spawn", "futures_lite::future::block_on")
def _block_on(ip, c, st, args):
    ip.event(st, "spawn", name=c.name, call=c)
    f = args[-1]
    r = run_future(ip, c, st, val(ip, st, f) if f.op == "ptr" else f)
    if r is None:
        return None
    if c.name == "spawn":
        return [(s, app("joinhandle", c.ctx, ty=c.dty)) for s, _ in r]
    return r


@model("task::Waker::wake_by_ref", "task::Waker::wake")
def _wake(ip, c, st, args):
    ip.event(st, "wake", call=c)
    return UNIT


@model("task::Context::waker")
def _waker(ip, c, st, args):
    return app("waker", ty=c.dty)


@model("ptr::null_mut", "ptr::null")
def _null(ip, c, st, args):
    return app("null", ty=c.dty)


@model("ptr::const_ptr::is_null", "ptr::mut_ptr::is_null")
def _isnull(ip, c, st, args):
    if args[0].op == "ptr":
        return FALSE
    if args[0].op == "app" and args[0].a[0] == "null":
        return TRUE
    return eq_term(args[0], app("null"))


@model("ffi::CString::new")
def _csnew(ip, c, st, args):
    x = deep(ip, st, args[0])
    return [(st, ok(app("cstring", x, ty=None))), (st.copy(), err(app("nulerr", c.ctx)))]


@model("ffi::CString::into_raw", "ffi::CString::from_raw")
def _csraw(ip, c, st, args):
    ip.event(st, "cstring_" + c.name, val=args[0], call=c)
    return app("cs_" + c.name, args[0], ty=c.dty)


@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::unreachable_display", "rt::panic_fmt", "rt::begin_panic",
       "panicking::assert_failed", "process::abort", "process::exit", "option::unwrap_failed", "result::unwrap_failed", "panicking::panic_str_2015",
       "panicking::panic_explicit", "option::expect_failed", "panicking::unreachable_display")
def _panic(ip, c, st, args):
    return panic(ip, c, st, c.name)


@model("intrinsics::unreachable", "hint::unreachable_unchecked")
def _unreach(ip, c, st, args):
    return None


# formatting, debugging, thiserror: values nobody looks at
PREFIXES = [
    ("std::fmt::", opaque), ("core::fmt::", opaque), ("alloc::fmt::", opaque), ("thiserror::", opaque), ("tracing::", opaque),
    ("std::path::", lambda ip, c, st, args: app("path", c.name, *[deep(ip, st, a) for a in args], ty=c.dty)),
    ("std::ffi::", lambda ip, c, st, args: app("cstr", c.name, *[deep(ip, st, a) for a in args], ty=c.dty)),
    ("prost::alloc::ffi::", lambda ip, c, st, args: app("cstr", c.name, *[deep(ip, st, a) for a in args], ty=c.dty)),
    ("std::borrow::Cow", lambda ip, c, st, args: app("cow", c.name, *[deep(ip, st, a) for a in args], ty=c.dty)),
    ("std::error::", opaque), ("std::any::", opaque), ("std::time::", opaque),
]


def lookup(callee):
    """model for a callee"""
    p = callee["path"]
    if callee.get("trait"):
        m = MODELS.get(norm(p))
        if m is not None:
            return m
        rp = callee.get("rpath")
        if rp:
            m = MODELS.get(norm(rp))
            if m is not None:
                return m
    else:
        n = norm(p)
        m = MODELS.get(n)
        if m is not None:
            return m
        # inherent methods on primitives: core::num::<impl usize>::checked_sub -> num::checked_sub
    rp = callee.get("rpath") or p
    for pre, f in PREFIXES:
        if p.startswith(pre) or rp.startswith(pre):
            return f
    return None
