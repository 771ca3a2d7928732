"""What a check found: obligations, violations, what it could not decide."""
import json
import os
import re
import time
import traceback
from . import entry
from .interp import Interp, Undecided, State
from .term import *

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.rule = ""
        self.obl = {}          # key -> [discharged, text]
        self.viol = {}         # key -> dict
        self.undec = {}
        self.fns = set()
        self.quiet = set()
        self.roots = []
        self.steps = 0
        self.paths = 0
        self.imprecise = {}
        self.unmodelled = {}
        self.assume = []

    def ok(self, key, text=""):
        if key not in self.obl:
            self.obl[key] = [True, text]

    def bad(self, key, text, where=None, path=None):
        self.obl[key] = [False, text]
        if key not in self.viol:
            self.viol[key] = {"key": key, "what": text, "where": where, "path": path}

    def open(self, key, why):
        self.undec[key] = why

    def expect(self, cond, key, text, where=None):
        """cond: True / False / None (cannot tell)"""
        if cond is True:
            self.ok(key, text)
        elif cond is False:
            self.bad(key, text, where)
        else:
            self.open(key, text)

    def known(self):
        out = {}
        fn = os.path.join(VERIF, "known_findings.txt")
        for l in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == self.pid:
                out[m.group(2)] = m.group(3)
        return out

    def finish(self, errors=None):
        known = self.known()
        new = {k: v for k, v in self.viol.items() if slug(k) not in known}
        for k in self.viol:
            if slug(k) in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[slug(k)]))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        ndis = sum(1 for v in self.obl.values() if v[0])
        cov = {
            "explanation": self.rule,
            "obligations": len(self.obl) + len([k for k in self.undec if k not in self.obl]),
            "discharged": ndis,
            "undecided": [{"obligation": k, "why": w} for k, w in sorted(self.undec.items())][:60],
            "entry_points": sorted(set(self.roots)),
            "functions_analysed": sorted(self.fns),
            "functions_summarised_by_type": sorted(self.quiet),
            "abstract_steps": self.steps,
            "abstract_final_states": self.paths,
            "imprecision": self.imprecise,
            "unmodelled_callees": self.unmodelled,
            "samples": [{"obligation": k, "holds": v[0], "rule": v[1]} for k, v in sorted(self.obl.items())][:40],
            "trusted_base": ["rustc MIR construction (nightly)", "models of std/tokio/hypercore/prost callees in analysis/engine/models.py",
                             "type-level stand-ins in analysis/stubs for dependencies that are not available offline"],
        }
        if errors:
            cov["compile_errors"] = errors[:5]
        d = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
             "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        json.dump(d, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1, default=str)
        if new:
            rp = os.path.join(ev, self.pid + ".violations.json")
            json.dump(list(new.values()), open(rp, "w"), indent=1, default=str)
            for v in new.values():
                print("  %s\n     at %s" % (v["what"], v["where"]))
                if v["path"]:
                    print("     via " + " -> ".join(v["path"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        print("%s: held; %d obligations, %d discharged, %d undecided; %d functions analysed, %d summarised, %d abstract steps, %.1fs" % (
            self.pid, cov["obligations"], ndis, len(self.undec), len(self.fns), len(self.quiet), self.steps, time.time() - self.t0))
        return 0


def slug(k):
    return re.sub(r"\s+", "_", k)


class Monitor:
    """reacts to events of the interpreter; what it reports is rolled back with the loop round it belongs to"""
    events = ()

    def __init__(self, R):
        self.R = R
        self.root = None

    def save(self):
        return dict(self.R.obl), dict(self.R.viol), dict(self.R.undec)

    def restore(self, s):
        self.R.obl, self.R.viol, self.R.undec = dict(s[0]), dict(s[1]), dict(s[2])

    def on(self, ip, st, name, d):
        f = getattr(self, "on_" + name, None)
        if f is not None:
            f(ip, st, **d)

    def where(self, ip):
        return call_site(ip)

    def bad(self, ip, key, text):
        self.R.bad("%s: %s" % (self.root, key), text, call_site(ip), [b.short for b, _ in ip.stack])

    def ok(self, key, text=""):
        self.R.ok("%s: %s" % (self.root, key), text)

    def open(self, key, why):
        self.R.open("%s: %s" % (self.root, key), why)


def call_site(ip):
    if not ip.stack:
        return None
    for b, s in reversed(ip.stack):
        if s and "/repo/" in str(s) or s and str(s).startswith("src"):
            return "%s (%s)" % (s, b.path)
    b, s = ip.stack[-1]
    return "%s (%s)" % (s, b.path)


def short_fn(ip):
    return ip.stack[-1][0].short if ip.stack else "?"


def bodies(p, path, kinds=("fn",)):
    """the bodies of the function with this path; the generic one first"""
    return [p.body(i) for i in p.by_path.get(path, []) if p.raw[i]["kind"] in kinds]


DEADLINE = time.time() + float(os.environ.get("HB_SECONDS", "480"))       # runs that start later are undecided


def analyse(R, p, b, monitors, sel=None, fncall=False, budget=400000, seconds=200, args=None, init=None, setup=None, final=None, body_pred=None):
    """run body b with the monitors; None when undecided"""
    for m in monitors:
        m.root = b.path
    ip = Interp(p, monitors, budget, min(time.time() + seconds, max(DEADLINE, time.time() + 1)))
    if sel is not None:
        entry.restrict(ip, sel, fncall, body_pred)
    if setup:
        setup(ip)
    R.roots.append(b.path)
    before = monitors[0].save() if monitors else None
    res = None
    try:
        res = entry.start(ip, b, args, init)
        if final:
            for s, v in res:
                final(ip, s, v)
    except Undecided as e:
        R.open(b.path, "undecided: %s" % e)
        res = None
    except RecursionError:
        R.open(b.path, "undecided: recursion")
        res = None
    except Exception as e:
        R.open(b.path, "undecided: " + traceback.format_exc(limit=-2)[-300:])
        res = None
    if res is None and before is not None:
        # what was found before giving up on the path may be an artefact of a loop that had not settled
        u = dict(R.undec)
        monitors[0].restore(before)
        R.undec.update(u)
    R.steps += ip.steps
    R.fns.update(p.raw[i]["path"] for i in ip.visited)
    R.quiet.update(p.raw[i]["path"] for i in ip.quiet)
    for k, n in ip.imprecise.items():
        R.imprecise[k] = R.imprecise.get(k, 0) + n
    for k, n in ip.unmodelled.items():
        R.unmodelled[k] = R.unmodelled.get(k, 0) + n
    if res is not None:
        R.paths += len(res)
    return ip, res
