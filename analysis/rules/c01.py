"""Path-sensitive abstract interpretation of every put/del entry point: on each path the number of successful
data-block appends (core append whose payload is not the header message) is counted, loops being generalised
to an inductive state; every returned value is compared with the count: a result that reports a change needs
exactly one, a result that reports none, or an error, needs zero."""
from .common import *
from . import worlds


class Count(Monitor):
    events = ("appended",)

    def on_appended(self, ip, st, core, data, index, call):
        if is_header(data):
            return
        n = st.mon("data", ZERO)
        st.setmon("data", C(min(cval(n) + 1, 3)))


def check(p, R):
    for h, name, b in write_roots(p, HANDLES):
        m = Count(R)

        def final(ip, st, v):
            for s, k, pay in res(ip, st, v):
                if k == "err":
                    cases = [(s, None)]
                else:
                    cases = changed(ip, s, pay, name)
                for s2, ch in cases:
                    n = cval(s2.mon("data", ZERO))
                    if ch is None:
                        R.expect(n == 0, "%s: error after append" % b.path, "a path that returns an error has appended %d data blocks before" % n, b.span)
                    elif ch:
                        R.expect(n == 1, "%s: change reported" % b.path, "a path that reports a change appended %d data blocks" % n, b.span)
                    else:
                        R.expect(n == 0, "%s: no change reported" % b.path, "a path that reports no change appended %d data blocks" % n, b.span)
        analyse(R, p, b, [m], APPEND, final=final)
    worlds.decide(p, R, "C01")
