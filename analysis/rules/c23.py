"""Value flow through the constructors plus an effect check. Opening a directory asks for that directory, never with
permission to overwrite, and no function reachable from an opening reaches a deleting, truncating or renaming
file-system call; the tree that is returned holds the log that was built on that storage (in memory: on memory; from a
log: the given one), with nothing remembered from elsewhere. In every operation the log that is read, asked for its
length, appended to or given a replication stream is the one the handle holds, and the stream and the caller's role
reach it unchanged."""
from .common import *
from .c21 import same, value_same

OPENERS = (("tree::Tree", "from_storage_dir"), ("tree::Tree", "from_ram"), ("tree::Tree", "from_hypercore"),
           ("hb::Hyperbee", "from_storage_dir"), ("hb::Hyperbee", "from_ram"), ("hb::Hyperbee", "from_hypercore"))
FREE = (("ffi::hyperbee_from_storage_dir", "from_storage_dir"), ("ffi::hyperbee_from_ram", "from_ram"),
        ("external::hyperbee_from_storage_directory", "from_storage_dir"))
DESTROY = re.compile(r"(^|::)(fs::(remove_file|remove_dir|remove_dir_all|rename|write|copy|File::create|File::set_len|File::create_new)"
                     r"|fs::OpenOptions::(truncate|create_new))$|^random_access_(disk|memory)::.*(truncate|del)$")
OPS = ("get", "put", "put_compare_and_swap", "del", "del_compare_and_swap", "version", "create_header", "traverse", "add_stream", "height", "print")


def pathop(x):
    a = x.a[1][0]
    return a if isinstance(a, str) else a.a[0] if a.op == "const" else None


class Open(Monitor):
    events = ("ext_new_disk", "ext_new_memory", "ext_hbuild", "ext_hnew", "ext_storage_open")

    def __init__(self, R, src):
        super().__init__(R)
        self.src = src

    def on_ext_new_disk(self, ip, st, args, call):
        st.setmon("storage", C(min(cval(st.mon("storage", ZERO)) + 1, 2)))
        if len(args) > 1:
            ow = ip.as_bool(args[1])
            h = holds(st, ow)
            if h is False:
                self.ok("does not overwrite", "overwrite = false")
            elif ow.unk:
                self.open("does not overwrite", show(ow)[:60])
            else:
                self.bad(ip, "does not overwrite", "the storage directory is opened with overwrite = %s" % show(ow)[:60])
        path = models.deep(ip, st, args[0])
        moved = [x for x in subterms(path) if x.op == "app" and x.a[0] == "path" and pathop(x) in ("join", "parent", "with_file_name", "with_extension", "push", "file_name")]
        if moved and not path.unk:
            self.bad(ip, "opens the given directory", "the directory opened is %s, not the caller's" % show(path)[:80])
        elif any(x is self.src for x in subterms(path)):
            self.ok("opens the given directory", show(path)[:60])
        elif path.unk:
            self.open("opens the given directory", show(path)[:60])
        else:
            self.bad(ip, "opens the given directory", "the directory opened is %s, not the caller's" % show(path)[:80])

    def on_ext_new_memory(self, ip, st, args, call):
        st.setmon("memory", ONE)


class Use(Monitor):
    events = ("core_get", "core_append", "core_info", "add_stream")

    def __init__(self, R, a0, b):
        super().__init__(R)
        self.a0, self.b = a0, b

    def mine(self, ip, st, what, core):
        core = models.deep(ip, st, core)
        if any(x is self.a0 for x in subterms(core)):
            self.ok(what, show(core)[:80])
        elif core.unk or not any(x.op == "app" and x.a[0] in ("sharedcore", "ext", "hcbuilder") for x in subterms(core)):
            self.open(what, show(core)[:80])
        else:
            self.bad(ip, what, "%s: not the log the handle holds but %s" % (what, show(core)[:100]))

    def on_core_get(self, ip, st, core, **d):
        self.mine(ip, st, "reads its own log", core)

    def on_core_append(self, ip, st, core, **d):
        self.mine(ip, st, "appends to its own log", core)

    def on_core_info(self, ip, st, core, **d):
        self.mine(ip, st, "asks its own log", core)

    def on_add_stream(self, ip, st, args, call):
        self.mine(ip, st, "replicates its own log", args[0])
        st.setmon("streams", C(min(cval(st.mon("streams", ZERO)) + 1, 2)))
        if len(args) == 3 and self.b.nargs == 3:
            for i, what in ((1, "stream"), (2, "role")):
                x = models.deep(ip, st, args[i])
                want = app("arg", i, ty=self.b.locals[i + 1])
                if what == "role":
                    x, want = ip.as_bool(x), ip.as_bool(want)
                h = True if x is want or any(y is want for y in subterms(x)) and what == "stream" else None if x.unk else False
                self.R.expect(h, "%s: %s" % (self.root, what), "the %s given to the log is %s, not the caller's" % (what, show(x)[:80]), call_site(ip))


def check(p, R):
    from engine.effects import Graph
    g = p._graph = Graph(p)
    sel = lambda e: e.startswith(("hypercore::", "replicator::"))
    roots = [(b, n) for ty, n in OPENERS for b in methods(p, ty, n)[:1]]
    roots += [(p.body(i), n) for path, n in FREE for i in p.by_path.get(path, [])[:1]]
    for b, n in roots:
        opener(p, R, g, b, n, sel)
    for ty in HANDLES + ("blocks::Blocks",):
        for n in OPS + ("info", "append", "add_changes"):
            if ty != "blocks::Blocks" and n in ("get", "traverse", "height", "print"):
                continue
            for b in methods(p, ty, n)[:1]:
                uses(p, R, g, b, n)


def uses(p, R, g, b, n):
    a0 = app("arg", 0, ty=b.locals[1])

    def final(ip, st, v):
        if n != "add_stream":
            return
        for s, k, pay in res(ip, st, v):
            if k == "ok":
                c = cval(s.mon("streams", ZERO))
                R.expect(c == 1, b.path + ": attached once", "add_stream succeeds after attaching the stream %s" % ("not at all" if c == 0 else "twice"), b.span)
    ends = ("::append", "::add_stream", "::info") + (("::get",) if "Blocks" in b.path else ())
    analyse(R, p, b, [Use(R, a0, b)], lambda e: e.startswith(("hypercore::", "replicator::")) and e.endswith(ends), final=final)


def opener(p, R, g, b, n, sel):
    src = None
    if n in ("from_storage_dir", "from_hypercore"):
        i = next((i for i in range(b.nargs) if p.ty(b.locals[i + 1])["k"] not in ("ref",) or n == "from_storage_dir"), None)
        if b.path.startswith("external::"):
            i = next((i for i in range(b.nargs) if p.ty(b.locals[i + 1])["k"] in ("ptr", "ref") and p.ty(p.pointee(b.locals[i + 1]))["k"] == "int"), None)
        src = app("arg", i, ty=b.locals[i + 1]) if i is not None else None
    reach = g.reach_from([b.idx])
    for k in sorted(reach):
        for e in sorted(g.ext[k]):
            if DESTROY.search(e):
                R.bad("%s: destroys nothing" % b.path, "%s, reached when opening, calls %s" % (p.raw[k]["path"], e), p.raw[k].get("span") or b.span)
    R.ok("%s: destroys nothing" % b.path, "%d functions" % len(reach))

    def final(ip, st, v):
        v = models.deep(ip, st, v)
        for s, k, pay in res(ip, st, v):
            if k == "err":
                continue
            pay = models.deep(ip, s, pay)
            bs = [x for x in subterms(pay) if x.op == "agg" and x.a[0] == "adt:blocks::Blocks"]
            if not bs:
                if not pay.unk and not b.path.startswith("external::"):
                    R.open("%s: log" % b.path, show(pay)[:100])
                continue
            t = next(t for t in p.types if t["k"] == "adt" and t["path"] == "blocks::Blocks")
            fs = dict(zip([f[0] for f in t["variants"][0]["fields"]], bs[0].a[2]))
            core = fs.get("core", bs[0])
            key = "%s: uses the log" % b.path
            if core.unk:
                R.open(key, show(core)[:100])
                continue
            kinds = {x.a[1][0].a[0] for x in subterms(core) if x.op == "app" and x.a[0] == "ext"}
            if n == "from_storage_dir":
                h = "new_disk" in kinds and "new_memory" not in kinds
            elif n == "from_ram":
                h = "new_memory" in kinds and "new_disk" not in kinds
            else:
                h = any(x is src for x in subterms(core)) and not kinds
            R.expect(h, key, "%s returns a tree on %s" % (b.path, show(core)[:120]), b.span)
            c = fs.get("cache")
            if c is not None:
                stale = [x for x in subterms(c) if x.op == "app" and x.a[0] in ("arg", "static", "glob")]
                R.expect(not stale, "%s: nothing remembered" % b.path, "a new tree starts with remembered blocks %s" % show(c)[:80], b.span)
    def setup(ip):
        ip.graph, ip.cap = g, 32
    analyse(R, p, b, [Open(R, src)], None, final=final, setup=setup)
