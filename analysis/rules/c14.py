"""Typestate over the traversal's poll function. Every path is derived by abstract interpretation, with each inner poll
taken as pending and as ready, and the abstract states (per inner future: none, pending, finished) reachable from the
constructor are enumerated, going on after error items. On each reachable path: a finished future is not polled again; a
pending result has the task woken, or an inner source that is kept has taken the waker; a failure that is delivered is
yielded; no panic or failing arithmetic check is reachable."""
from .common import *
from . import scans
from .traversal import *
from .c17 import g


def modular(p, R):
    R.rule = __doc__
    m = Machine(p, R)
    if m.why:
        R.open("traversal", m.why)
        return
    R.ok("traversal: states", "%d reachable abstract states, %d paths, %d transitions" % (len(m.states), len(m.reached), len(m.trans)))
    ends_wake = all("W" in [e[0] for e in x.log] for x in m.reached if m.ended(x))
    for x in m.reached:
        L = m.label(x)
        if not m.known(x):
            R.open("poll: %s" % L, "the result is not tracked")
            continue
        ends, item = m.ended(x), m.item(x)
        if m.pending(x):
            for s, t in x.froms:
                wake = False
                why = "no inner source holds the waker and the task is not woken"
                for e in x.log:
                    if e[0] == "W":
                        wake = True
                    elif e[0] == "P":
                        k = e[1]
                        if k is None:
                            wake = None
                        elif t[k] == LIVE and (kept(m, x, k) or e[2].op == "agg"):
                            wake = True
                        elif t[k] is None:
                            wake = None
                        else:
                            why = "%s has the waker but is discarded" % m.fields[k][0]
                    elif e[0] == "E" and m.role.get(e[1]) == "stream" and ends_wake:
                        wake = True      # the end of a child traversal wakes the task
                    if wake:
                        break
                R.expect(wake, "poll: %s: pending and woken" % L, "a poll returns pending and nobody wakes the task: %s (%s)" % (why, m.describe(x)), m.body.span)
        for s, t in x.froms:
            seen = {}
            for e in x.log:
                k = e[1]
                if k is None or e[0] == "W" or m.role.get(k) == "iter":
                    continue
                st = seen.get((k, e[2]), s[k] if e[2].op != "agg" else LIVE)
                c = True if st in (LIVE, FREE) else None if st is None else False
                R.expect(c, "poll: %s: %s is not polled again" % (L, m.role.get(k, m.fields[k][0])),
                         "%s is polled again after it has finished (%s)" % (m.fields[k][0], m.describe(x)), m.body.span)
                if e[0] in ("R", "E"):
                    seen[(k, e[2])] = DONE
        for e in x.log:
            if e[0] == "R" and e[3].op == "app":
                t = p.ty(e[3].a[2]) if e[3].a[2] is not None else {"k": "?"}
                if t["k"] == "adt" and t["path"] == "std::result::Result":
                    for s, k, fs in variants(m.ip, x.st.copy(), e[3]):
                        if k != 1:
                            continue
                        key = "poll: %s: a failure is yielded" % L
                        if item is None:
                            R.expect(None if unclear(x) else False, key, "a failure of %s is not yielded (%s)" % (m.fields[e[1]][0] if e[1] is not None else "a source", m.describe(x)), m.body.span)
                            continue
                        r = item.a[2][0] if item.op == "agg" and item.a[2] else item
                        bad = r.op == "agg" and r.a[0].endswith("result::Result") and r.a[1] == 0
                        R.expect(False if bad else True if inside(item, fs[0]) or inside(item, e[3]) else None, key, "a failure is yielded as a success (%s)" % m.describe(x), m.body.span)
            if e[0] == "S" and m.role.get(e[1]) == "stream" and item is None:
                R.expect(None if unclear(x) else False, "poll: %s: a failure is yielded" % L, "what a child yields, failures included, is dropped (%s)" % m.describe(x), m.body.span)
    panics(p, R, m)


def kept(m, x, k):
    return x.post[k] is m.before[k] or x.post[k].op == "agg" and x.post[k].a[1] == 1 and x.post[k].a[2] and x.post[k].a[2][0] is m.payload(k)


def panics(p, R, m):
    for x, why, where in m.panics:
        froms = [s for s in m.states if m.fits(x, s)]
        R.expect(True if not froms else None if unclear(x) else False, "poll: no panic at %s" % where, "the traversal can panic: %s (%s)" % (why, m.describe(x)), where)
    for st, d, where in m.asserts:
        R.expect(True if d.get("known") is True or holds(st, d["cond"]) is True else None, "poll: check at %s" % where, "", where)
    traps = {}
    starting(p, R, m, Report("C14"), traps)
    for w, t in traps.items():
        if t["bad"]:
            R.bad("positions of a node: check at %s" % w, "choosing the positions of a node can panic: %s" % t["bad"], w)
        elif t["open"]:
            R.open("positions of a node: check at %s" % w, "%d cases undecided" % t["open"])
        else:
            R.ok("positions of a node: check at %s" % w, "holds in %d cases" % t["ok"])


def check(p, R):
    modular(p, R)
    scans.scan(p, R, "C14")
