#!/usr/bin/env python3
"""check.py <property> [--dump FILE]: decide one property from the current source in /repo."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CRATE = os.path.join(HERE, "target_crate")
DRIVER = os.path.join(HERE, "driver", "target", "release", "mirdump")


def build(out):
    """type-check /repo/src and dump its MIR"""
    env = dict(os.environ)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    if not os.path.exists(DRIVER):
        subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "driver"), env=env)
    env.update(HB_DUMP=out, HB_CRATE="hyperbee", RUSTC_WORKSPACE_WRAPPER=DRIVER, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    t = os.path.join(CRATE, "target", "debug")
    for d in (".fingerprint", "build"):
        dd = os.path.join(t, d)
        if os.path.isdir(dd):
            for n in os.listdir(dd):
                if n == "hyperbee" or n.startswith("hyperbee-"):
                    shutil.rmtree(os.path.join(dd, n), ignore_errors=True)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-q", "--features", "debug"], cwd=CRATE, env=env, capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if l.startswith("error")]
    if not os.path.exists(out) and "--verbose" in sys.argv:
        print(r.stderr[-3000:])
    return errs


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    from engine.prog import Prog
    from engine.report import Report
    tmp = tempfile.mkdtemp(prefix="hbcheck")
    try:
        errs = []
        if "--dump" in sys.argv:
            dump = sys.argv[sys.argv.index("--dump") + 1]
        else:
            dump = os.path.join(tmp, "dump.json")
            errs = build(dump)
        mod = importlib.import_module("rules." + pid.lower())
        R = Report(pid, tier)
        R.rule = " ".join((mod.__doc__ or "").split())
        if not os.path.exists(dump):
            R.open("build", "the crate does not type-check: " + "; ".join(errs[:3]))
            return R.finish(errs)
        p = Prog(dump)
        try:
            mod.check(p, R)
        except Exception:
            if "--verbose" in sys.argv:
                traceback.print_exc()
            R.open("rule", "the rule does not apply: " + traceback.format_exc(limit=-2)[-300:])
        return R.finish(errs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join(840)
    if t.is_alive():
        # no decision in time: nothing that was found on the way is reported
        from engine.report import Report
        R = Report(sys.argv[1])
        R.rule = "no decision"
        R.open("time", "no decision within 840 s")
        res.append(R.finish([]))
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
