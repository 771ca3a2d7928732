"""Run one function of the library from an unconstrained initial state."""
from .interp import *
from .term import *


class Trace:
    """records events (debugging aid)"""
    def __init__(self, names=None):
        self.names = names
        self.log = []

    @property
    def events(self):
        return self.names or ("acquire", "release", "core_get", "absent", "core_append", "appended", "failure", "encode", "decode",
                              "map_get", "map_insert", "panic", "store", "alloc", "fncall", "unknown_call", "recursion")

    def on(self, ip, st, name, d):
        self.log.append((name, {k: v for k, v in d.items() if k not in ("frame", "call")}, ip.stack[-1][0].short if ip.stack else ""))

    def save(self):
        return len(self.log)

    def restore(self, s):
        del self.log[s:]


def restrict(ip, ext_pred, fncall=False, body_pred=None):
    """enter only functions from which a construct of interest can be reached"""
    g = getattr(ip.p, "_graph", None)
    if g is None:
        from .effects import Graph
        g = ip.p._graph = Graph(ip.p)
    ip.graph = g
    ip.relevant = g.reaching(ext_pred, fncall, body_pred)


def arg_value(ip, b, i):
    ty = b.locals[i + 1]
    return app("arg", i, ty=ty)


def start(ip, b, args=None, init=None):
    """[(state, result)] of calling body b; async functions are driven to completion"""
    st = State()
    if args is None:
        args = [arg_value(ip, b, i) for i in range(b.nargs)]
    if init:
        init(ip, st, args)
    root = mk("ctx", "root")
    out = ip.exec_fn(b, args, st, root, 0)
    res = []
    for s, v in out:
        fut = v
        n = 0
        while True:
            if fut.op == "agg" and fut.a[0] == "coroutine":
                cb = ip.p.body(fut.a[1])
                res.extend(ip.exec_fn(cb, [fut, UNIT], s, mk("ctxf", root, fut.a[1]), 0))
                break
            # Pin<Box<dyn Future>>
            if fut.op == "ptr" and n < 3:
                fut = ip.at(s, fut)
                n += 1
                continue
            res.append((s, v))
            break
    return res
