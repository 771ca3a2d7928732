"""The wire table of every stored message (tag, codec, cardinality, program field) is derived by abstract interpretation
of its encoder and decoder and compared with the published schema of the JavaScript implementation, and encoder
against decoder; the message appended by put and delete carries the caller's key under tag 2, the caller's value under
tag 3 and an encoded index under tag 1; terms for what a node read back from a block contains are traced to message
tags: keys and (block, offset) child pairs of level[offset], key and value of the block a key refers to, and back in the
node-to-level conversion; the defaults of the sub-tree separator and the key limit of a node are decided from the terms
of the functions that use them."""
from .common import *

# message -> tag -> (codec, cardinality)
SCHEMA = {
    "Header": {1: ("string", "required"), 2: ("message", "optional")},
    "header::Metadata": {1: ("bytes", "optional"), 2: ("bytes", "optional")},
    "Node": {1: ("bytes", "required"), 2: ("bytes", "required"), 3: ("bytes", "optional")},
    "YoloIndex": {1: ("message", "repeated")},
    "yolo_index::Level": {1: ("uint64", "packed"), 2: ("uint64", "packed")},
}
METADATA = {1: "content_feed", 2: "user_data"}


def message_bodies(p, name):
    out = {}
    for i, r in enumerate(p.raw):
        if r.get("trait") == "prost::Message" and r["kind"] == "fn" and r["path"].startswith("<messages::%s as " % name):
            out[r["name"]] = p.body(i)
    return out


def root_field(v):
    """the field of *self (argument 0) a reference or value reads, ('f', index) or None"""
    if v.op == "ptr":
        for x in v.a[1]:
            if x[0] == "f":
                return x[1]
        return None
    f = None
    for x in subterms(v):
        if x.op == "app" and x.a[0] == "fld":
            b, i = x.a[1][0], x.a[1][1]
            if b.op == "app" and b.a[0] in ("at", "arg"):
                f = cval(i)
    return f


class Wire(Monitor):
    """records calls of the codec library"""
    events = ("unknown_call",)

    def __init__(self, R, what):
        super().__init__(R)
        self.what, self.rows = what, []

    def save(self):
        return super().save(), len(self.rows)

    def restore(self, s):
        super().restore(s[0])
        del self.rows[s[1]:]

    def on_unknown_call(self, ip, st, path, args, call):
        m = re.search(r"prost::encoding::(\w+)::(encode\w*|merge\w*)$", models.norm(path))
        if not m:
            m2 = re.search(r"prost::encoding::(encode_varint|encode_key)$", models.norm(path))
            if m2:
                self.rows.append(None)
            return
        codec, op = m.groups()
        if op.startswith("encode"):
            tag, v = cval(args[0]) if is_const(args[0]) else None, args[1]
            if tag is None:
                self.rows.append(None)
                return
            n = st.mon("tag%d" % tag, ZERO)
            st.setmon("tag%d" % tag, C(min(cval(n) + 1, 9)) if is_const(n) else n)
            self.rows.append((tag, codec, op, root_field(v)))
        else:
            tag = None
            t = self.tagarg
            for k in range(1, 33):
                if holds(st, eq_int(t, C(k))) is True:
                    tag = k
            if tag is None:
                self.rows.append(None)
                return
            self.rows.append((tag, codec, op, root_field(args[1])))


def wire(p, R, name):
    """{tag: field} of the message, None if not derived"""
    bs = message_bodies(p, name)
    enc, dec = bs.get("encode_raw"), bs.get("merge_field")
    if enc is None or dec is None:
        R.open("message %s" % name, "no encoder found")
        return None
    t = p.ty(enc.locals[1])
    sty = p.ty(t["to"]) if t["k"] == "ref" else t
    fields = sty["variants"][0]["fields"] if sty.get("variants") else []
    spec = SCHEMA[name]
    w = Wire(R, name)
    finals = []

    def setup(ip):
        ip.graph = g(p)
        ip.cap = 64
    r = analyse(R, p, enc, [w], None, setup=setup, final=lambda ip, st, v: finals.append(st))
    if r is None or r[1] is None or None in w.rows:
        R.open("message %s" % name, "its encoder is not decided")
        return None
    table = {}
    for tag, codec, op, f in w.rows:
        table.setdefault(tag, set()).add((codec, op, f))
    out = {}
    for tag in sorted(set(spec) | set(table)):
        key = "message %s: tag %d" % (name, tag)
        if tag not in spec:
            R.bad(key, "message %s is written with a field number %d other implementations do not know" % (name, tag), enc.span)
            continue
        codec, card = spec[tag]
        if tag not in table:
            R.bad(key, "message %s is written without its field number %d" % (name, tag), enc.span)
            continue
        if len(table[tag]) != 1:
            R.open(key, "written in several ways: %s" % sorted(map(str, table[tag])))
            continue
        c, op, f = next(iter(table[tag]))
        out[tag] = f
        want = {"packed": "encode_packed"}.get(card, "encode")
        okay = c == codec and (op == want or card == "repeated" and op == "encode_repeated")
        R.expect(okay, key + " codec", "field %d of %s is written as %s %s, other implementations read %s %s" % (tag, name, c, op, codec, card), enc.span)
        if f is None:
            R.open(key, "the program field is not tracked")
            continue
        # presence
        fty = p.ty(fields[f][1]) if f < len(fields) else {"k": "?"}
        opt = fty.get("path") == "std::option::Option"
        for st in finals:
            n = st.mon("tag%d" % tag, ZERO)
            if not is_const(n):
                continue
            n = cval(n)
            if card in ("required", "packed"):
                R.expect(n == 1, key + " always written", "a path writes field %d of %s %d times" % (tag, name, n), enc.span)
            elif card == "optional" and opt:
                d = app("discr", app("fld", app("at", app("arg", 0, ty=enc.locals[1]), ty=t.get("to")), C(f), ty=fields[f][1]))
                h = holds(st, eq_int(d, ONE))
                if h is None and holds(st, eq_int(d, ZERO)) is True:
                    h = False
                if h is not None:
                    R.expect((n == 1) is h, key + " written when present", "a path writes field %d of %s %d times when it is %s" % (tag, name, n, "present" if h else "absent"), enc.span)
                else:
                    R.open(key, "presence not tracked")
    # the decoder stores each tag in the field it was written from
    w2 = Wire(R, name)
    w2.tagarg = app("arg", 1, ty=dec.locals[2])
    r = analyse(R, p, dec, [w2], None, setup=setup)
    if r is None or r[1] is None or None in w2.rows:
        R.open("message %s: decoder" % name, "its decoder is not decided")
    else:
        for tag, codec, op, f in w2.rows:
            if tag in out and f is not None and out[tag] is not None:
                R.expect(f == out[tag] and codec == spec[tag][0], "message %s: tag %d read back" % (name, tag),
                         "field %d of %s is read back into another field or by another codec (%s)" % (tag, name, codec), dec.span)
        seen = {x[0] for x in w2.rows}
        for tag in spec:
            if tag not in seen:
                R.bad("message %s: tag %d read back" % (name, tag), "field %d of %s is not read back" % (tag, name), dec.span)
    if name == "header::Metadata":
        for tag, want in METADATA.items():
            f = out.get(tag)
            if f is not None and f < len(fields):
                if {x[0] for x in fields} >= set(METADATA.values()):
                    R.expect(fields[f][0] == want, "message %s: tag %d name" % (name, tag), "field %d of the metadata carries %s" % (tag, fields[f][0]), enc.span)
    return out


def g(p):
    from engine.effects import Graph
    if getattr(p, "_graph", None) is None:
        p._graph = Graph(p)
    return p._graph


def names_of(p, v):
    t = next((t for t in p.types if t["k"] == "adt" and v.op == "agg" and "adt:" + t["path"] == v.a[0].replace("adt:adt:", "adt:")), None)
    if t is None:
        return None
    vs = t.get("variants")
    if not vs or len(vs) > 1 and v.a[1] >= len(vs):
        return None
    return [f[0] for f in vs[v.a[1] if len(vs) > 1 else 0]["fields"]]


def named(p, v):
    n = names_of(p, v)
    return dict(zip(n, v.a[2])) if n else None


def fields_of(p, path):
    t = next((t for t in p.types if t["k"] == "adt" and t["path"] == path and t.get("variants")), None)
    return {f[0]: i for i, f in enumerate(t["variants"][0]["fields"])} if t else {}


def result_ty(p, i):
    """the final result type of function i (the output of the future for async functions)"""
    b = p.body(i)
    t = p.ty(b.locals[0])
    if t["k"] == "coroutine":
        for j in p.by_path.get(t.get("path") or "", []):
            return p.body(j).locals[0]
        for j, r in enumerate(p.raw):
            if r["kind"] == "coroutine" and r["path"].startswith(b.path + "::{closure#"):
                return p.body(j).locals[0]
    return b.locals[0]


def by_signature(p, args, result):
    """functions whose arguments and final result print as given (regular expressions)"""
    out = []
    for i, r in enumerate(p.raw):
        if r["kind"] != "fn" or r.get("tainted"):
            continue
        b = p.body(i)
        if b.nargs != len(args):
            continue
        if all(re.search(a, p.tys(b.locals[k + 1])) for k, a in enumerate(args)) and re.search(result, p.tys(result_ty(p, i))):
            out.append(b)
    return out


class Store(Monitor):
    """what a cached block entry is made of"""
    events = ("map_insert",)

    def __init__(self, R, o):
        super().__init__(R)
        self.o = o

    def on_map_insert(self, ip, st, **d):
        v = models.deep(ip, st, d.get("value") if d.get("value") is not None else d.get("val"))
        k = models.deep(ip, st, d["key"])
        for x in subterms(v):
            if x.op == "agg" and x.a[0].startswith("adt:"):
                rows = {}
                for i, f in enumerate(x.a[2]):
                    if f.op == "agg" and f.a[0] == "adt:std::option::Option":
                        if f.a[1] == 0:
                            continue
                        f = f.a[2][0]
                    og = self.o.of(f)
                    if og is not None and og[0] in ("tag", "levels", "index", "msg"):
                        rows[i] = og
                if rows:
                    for i, og in rows.items():
                        old = self.o.entry.get(i)
                        self.o.entry[i] = og[:1] + ("k",) + og[2:] if old in (None, og[:1] + ("k",) + og[2:]) else ("mixed", "k", "either of two fields")
                    self.o.keyed.append((og[1], k))
                    return


class Origin:
    """the place in a block that a term was read from"""
    def __init__(self, p, tables):
        self.p, self.tables = p, tables
        self.entry = {}
        self.keyed = []
        self.complete = all(t for t in tables.values())

    def tag(self, msg, f):
        for t, x in (self.tables.get(msg) or {}).items():
            if x == f:
                return t
        return None

    def of(self, t):
        if t.op == "app":
            a = t.a[1]
            if t.a[0] == "dec":
                ty = a[1].a[0]
                if ty.endswith("messages::Node") and a[0].op == "app" and a[0].a[0] == "blk":
                    return ("msg", a[0].a[1][0])
                o = self.of(a[0])
                if ty.endswith("messages::YoloIndex") and o and o[0] == "tag":
                    return ("index", o[1]) if o[2] == 1 else ("wrong", o[1])
                return None
            if t.a[0] == "fld":
                b, i = a[0], cval(a[1])
                k = mapped(b)
                if k is not None:
                    o = self.entry.get(i)
                    return o[:1] + (k,) + o[2:] if o and o[0] != "?" else None
                o = self.of(b)
                if o is None:
                    return None
                if o[0] == "tag" and o[2] == 3 and i == 0:
                    return o
                if o[0] == "msg":
                    n = self.tag("Node", i)
                    return ("tag", o[1], n) if n else None
                if o[0] == "index":
                    n = self.tag("YoloIndex", i)
                    return ("levels", o[1]) if n else None
                if o[0] == "level":
                    n = self.tag("yolo_index::Level", i)
                    return ("list", o[1], o[2], n) if n else None
                return None
            if t.a[0] == "elem":
                o = self.of(a[0])
                if o and o[0] == "levels":
                    return ("level", o[1], a[1])
                if o and o[0] == "list":
                    return ("item", o[1], o[2], o[3], a[1])
                return None
            if t.a[0] == "at" and len(a) == 1:
                return self.of(a[0])
        return None


def mapped(b):
    """the key of the cached block whose contents b are"""
    x = b
    for _ in range(4):
        if x.op == "app" and x.a[0] == "mapget":
            return x.a[1][-1]
        if x.op == "app" and x.a[0] in ("at", "fld"):
            if x.a[0] == "fld" and cval(x.a[1][1]) != 0:
                return None
            x = x.a[1][0]
        else:
            return None
    return None


def walk(seq):
    """(position, element) of the elements of a sequence; the position uses the bound variable of a family"""
    pos = ZERO
    for q in seq.a:
        if q.op == "e":
            yield pos, q.a[0]
            pos = add(pos, ONE)
        elif q.op == "c":
            bv, lo, hi, el = q.a[0], q.a[1], q.a[2], q.a[3]
            bv = mk("bv", bv)
            yield add(pos, sub(bv, lo)), el
            pos = add(pos, sub(hi, lo))
        else:
            return


def check_node(p, R, ip, st, v, o, where, key, want_k, want_off):
    node = next((x for x in subterms(v) if x.op == "agg" and x.a[0] in ("adt:Node", "adt:adt:Node")), None)
    d = named(p, node) if node is not None else None
    if not d or "keys" not in d or "children" not in d:
        R.open(key, "the node read is not tracked")
        return

    def expect(x, want, what):
        if x is None or x.unk:
            R.open(key + what, "not tracked")
            return
        og = o.of(x)
        if og is None:
            if o.complete and (len(o.entry) >= 3 or not any(y.op == "app" and y.a[0] == "mapget" for y in subterms(x))) and any(y.op == "app" and y.a[0] in ("blk", "mapget", "dec") for y in subterms(x)) or is_const(x):
                R.bad(key + what, "%s is %s" % (what, show(x)[:120]), where)
            else:
                R.open(key + what, show(x)[:80])
            return
        if og[0] != "item":
            R.bad(key + what, "%s is %s" % (what, og[0]), where)
            return
        _, k, off, tag, ix = og
        h = tag == want[0]
        if h:
            hh = holds(st, eq_int(ix, want[1]))
            h = hh if hh is not None else (False if not (ix.unk or want[1].unk) and cval(sub(ix, want[1])) is not None else None)
        R.expect(h, key + what, "%s is entry %s of list %d of the stored node" % (what, show(ix), tag), where)
        if want_k is not None:
            R.expect(bare(k) is bare(want_k) or (None if k.unk else False), key + " block", "the node is read from block %s" % show(k)[:100], where)
            R.expect(bare(off) is bare(want_off) or (None if off.unk else False), key + " offset", "the node is read at offset %s" % show(off)[:100], where)
    ks = d["keys"]
    if ks.op == "seq":
        for pos, el in walk(ks):
            f = named(p, el) if el.op == "agg" else None
            if pos is not None and f and "seq" in f:
                expect(f["seq"], (1, pos), " keys")
    cs = next((x for x in subterms(d["children"]) if x.op == "seq"), None)
    if cs is not None:
        for pos, el in walk(cs):
            f = named(p, el) if el.op == "agg" else None
            if pos is not None and f and "seq" in f and "offset" in f:
                expect(f["seq"], (2, lin_scale(pos, 2)), " child block")
                expect(f["offset"], (2, add(lin_scale(pos, 2), ONE)), " child offset")


def lin_scale(t, k):
    return add(ZERO, t, k)


def reading(p, R, tables):
    o = Origin(p, tables)
    gr = g(p)

    def setup(ip):
        ip.graph = gr
        ip.cap = 64
    kv = [b for b in by_signature(p, [r"^&Node$", r"^usize$"], r"Result<KeyValueData,")]
    ch = [b for b in by_signature(p, [r"^&(Node|Children)$", r"^usize$"], r"Result<std::sync::Arc<tokio::sync::RwLock<Node>>")]
    cf = fields_of(p, "Child")
    for b in kv:
        def final(ip, st, v, b=b):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                d = named(p, models.deep(ip, s, pay))
                if not d or not {"seq", "key", "value"} <= set(d):
                    R.open(b.path, "the entry is not tracked")
                    continue
                for f, tag in (("key", 2), ("value", 3)):
                    og = o.of(d[f])
                    if og is None and d[f].op == "agg" and d[f].a[2]:
                        og = o.of(d[f].a[2][0])
                    if og is None:
                        R.open("%s: %s" % (b.path, f), show(d[f])[:80])
                        continue
                    R.expect(og[0] == "tag" and og[2] == tag, "%s: %s" % (b.path, f), "the %s of an entry is read from field %s of its block" % (f, og[2:]), b.span)
                    R.expect(bare(og[1]) is bare(d["seq"]) or (None if og[1].unk or d["seq"].unk else False), "%s: block of %s" % (b.path, f),
                             "the %s is read from block %s, the entry is reported at %s" % (f, show(og[1])[:80], show(d["seq"])[:80]), b.span)
        analyse(R, p, b, [Store(R, o)], None, setup=setup, final=final)
    for b in ch:
        def final(ip, st, v, b=b):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                w = models.deep(ip, s, pay)
                lv = [x for x in subterms(w) if o.of(x) and o.of(x)[0] == "level"]
                wk = wo = None
                if lv and cf:
                    ogs = {o.of(x) for x in lv}
                    if len(ogs) == 1:
                        _, k, off = next(iter(ogs))
                        # block and offset come from the two parts of the same child reference
                        ke = k.op == "app" and k.a[0] == "fld" and k.a[1][0]
                        oe = off.op == "app" and off.a[0] == "fld" and off.a[1][0]
                        if isinstance(ke, T) and off.op == "lin" and not off.unk:
                            R.bad(b.path + ": child reference", "the child is read from block %s at offset %s" % (show(k)[:80], show(off)[:80]), b.span)
                        if ke is not False and oe is not False and isinstance(ke, T) and isinstance(oe, T):
                            okay = ke is oe and cval(k.a[1][1]) == cf.get("seq") and cval(off.a[1][1]) == cf.get("offset")
                            R.expect(okay, b.path + ": child reference", "the child is read from block %s at offset %s" % (show(k)[:80], show(off)[:80]), b.span)
                            if ke.op == "app" and ke.a[0] == "elem":
                                i = app("arg", 1, ty=b.locals[2])
                                R.expect(holds(s, eq_int(ke.a[1][1], i)) if ke.a[1][1] is not i else True, b.path + ": child index", "another child than the requested one is read", b.span)
                check_node(p, R, ip, s, w, o, b.span, b.path, None, None)
        analyse(R, p, b, [Store(R, o)], None, setup=setup, final=final)
    for b in by_signature(p, [r"^&messages::yolo_index::Level$"] + [r"Arc<tokio::sync::RwLock<blocks::Blocks>>"], r"^Node$"):
        def final(ip, st, v, b=b):
            w = models.deep(ip, st, v)
            o2 = Direct(tables, o)
            check_node(p, R, ip, st, w, o2, b.span, b.path, None, None)
        analyse(R, p, b, [Monitor(R)], None, setup=setup, final=final)
    # decoded message -> stored entry: a value is kept exactly when present
    vf = (tables.get("Node") or {}).get(3)
    for i, r in enumerate(p.raw):
        if r["kind"] != "fn" or r.get("trait") or r.get("tainted") or vf is None:
            continue
        b = p.body(i)
        ms = [k for k in range(b.nargs) if p.tys(b.locals[k + 1]).lstrip("&") == "messages::Node"]
        if len(ms) != 1 or not re.search(r"Result<blocks::|^blocks::", p.tys(b.locals[0])):
            continue
        a = app("arg", ms[0], ty=b.locals[ms[0] + 1])
        if p.ty(b.locals[ms[0] + 1])["k"] == "ref":
            a = app("at", a, ty=p.pointee(b.locals[ms[0] + 1]))

        def final(ip, st, v, b=b, a=a):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                w = models.deep(ip, s, pay)
                if w.op != "agg":
                    continue
                src = ip.field(a, vf, None)
                for s2, k, fs in variants(ip, s, src):
                    for f in w.a[2]:
                        if f.op == "agg" and f.a[0] == "adt:std::option::Option":
                            R.expect(f.a[1] == k, b.path + ": value kept", "a value that is %s in the block is %s when the block is read" % (("absent", "present")[k], ("dropped", "made up")[f.a[1]]), b.span)
                        elif bare(f) is bare(src):
                            R.ok(b.path + ": value kept", "the same term")
        analyse(R, p, b, [Monitor(R)], None, setup=setup, final=final)
    # node -> level
    for b in by_signature(p, [r"^&Node$"], r"^messages::yolo_index::Level$"):
        lt = tables.get("yolo_index::Level")
        kf, cfl = fields_of(p, "KeyValue"), fields_of(p, "Child")
        if not lt or not kf or not cfl:
            R.open(b.path, "field tables missing")
            continue

        def final(ip, st, v, b=b):
            w = models.deep(ip, st, v)
            if w.op != "agg":
                R.open(b.path, "the level is not tracked")
                return
            ks, cs = w.a[2][lt[1]], w.a[2][lt[2]]
            if ks.op == "seq":
                for pos, el in walk(ks):
                    e = item(el)
                    if e is None or pos is None:
                        R.open(b.path + ": keys", show(el)[:80])
                        continue
                    base, ix, f = e
                    h = f == kf["seq"] and holds(st, eq_int(ix, pos))
                    R.expect(h if h is not None else (False if cval(sub(ix, pos)) is not None else None), b.path + ": keys", "entry %s of the stored keys is %s" % (show(pos), show(el)[:80]), b.span)
                    n = seq_len(ks)
                    hh = holds(st, eq_int(n, app("len", base)))
                    if hh is not None:
                        R.expect(hh, b.path + ": all keys", "only %s of the node's keys are stored" % show(n), b.span)
            if cs.op == "seq":
                tail = []
                for q in cs.a:
                    if q.op == "e":
                        tail.append(q.a[0])
                    else:
                        tail = []
                if tail:
                    if len(tail) % 2:
                        R.expect(None if len(cs.a) > len(tail) else False, b.path + ": children", "an odd number of entries is stored for the children", b.span)
                        its = [item(x) for x in tail]
                        if all(its) and len(tail) == 1:
                            R.bad(b.path + ": children", "only one entry is stored per child", b.span)
                        return
                    for x, y in zip(tail[::2], tail[1::2]):
                        i, j = item(x), item(y)
                        if i is None or j is None:
                            R.open(b.path + ": children", show(x)[:60])
                            continue
                        okay = i[0] is j[0] and i[1] is j[1] and i[2] == cfl["seq"] and j[2] == cfl["offset"]
                        R.expect(okay, b.path + ": children", "a child is stored as (%s, %s)" % (show(x)[:60], show(y)[:60]), b.span)
                    last = item(tail[-1])
                    if last is not None:
                        h = holds(st, eq_int(last[1], sub(app("len", last[0]), ONE)))
                        R.expect(h, b.path + ": children in order", "the last stored child is number %s" % show(last[1]), b.span)
        analyse(R, p, b, [Monitor(R)], None, setup=setup, final=final)


class Direct:
    """origins relative to a level that is the first argument"""
    def __init__(self, tables, o):
        self.t, self.o, self.complete = tables.get("yolo_index::Level") or {}, o, o.complete

    def of(self, x):
        if x.op == "app" and x.a[0] == "elem":
            b, ix = x.a[1]
            if b.op == "app" and b.a[0] == "fld" and b.a[1][0].op == "app" and b.a[1][0].a[0] == "at":
                for tag, f in self.t.items():
                    if f == cval(b.a[1][1]):
                        return ("item", None, None, tag, ix)
        return None


def item(x):
    """(sequence, index, field) of a field of an element"""
    if x.op == "app" and x.a[0] == "fld" and x.a[1][0].op == "app" and x.a[1][0].a[0] == "elem":
        b, i = x.a[1][0].a[1]
        return b, i, cval(x.a[1][1])
    return None


class Data(Monitor):
    events = ("core_append",)

    def __init__(self, R, p, tables, keyv, valv):
        super().__init__(R)
        self.p, self.t, self.keyv, self.valv = p, tables.get("Node"), keyv, valv

    def on_core_append(self, ip, st, core, data, call):
        if is_header(data) or not self.t:
            return
        d = data
        if d.op == "seq":
            es = [q for q in d.a]
            if any(q.op != "e" for q in es) and len(es) == 1 and es[0].op == "c":
                d = seqform(d)
        d = seqform(d)
        if d.op == "app" and d.a[0] != "enc" and any(x.op == "app" and x.a[0] == "enc" for x in subterms(d)) and d.a[0] == "cat":
            self.bad(ip, "block is one message", "the appended block is not just the encoded message: %s" % show(d)[:120])
            return
        if d.op == "app" and d.a[0].startswith("encode_length_delimited"):
            self.bad(ip, "block is one message", "the appended block starts with the length of the message")
            return
        if d.op != "app" or d.a[0] != "enc":
            self.open("block is one message", show(d)[:100])
            return
        self.R.expect(d.a[1][0].a[0].endswith("messages::Node"), self.root + ": block is one message", "a block holds a %s" % d.a[1][0].a[0], call_site(ip))
        msg = next((x for x in subterms(data) if x.op == "app" and x.a[0] == "enc"), d).a[1][1]
        if msg.op != "agg":
            self.open("message", show(msg)[:80])
            return
        f = {tag: msg.a[2][i] for tag, i in self.t.items() if i is not None and i < len(msg.a[2])}
        if 2 in f:
            self.same(ip, f[2], self.keyv, "key")
        ix = seqform(f[1]) if 1 in f else None
        if ix is not None:
            if ix.op == "app" and ix.a[0] == "enc":
                self.R.expect(ix.a[1][0].a[0].endswith("YoloIndex"), self.root + ": index", "the index field holds a %s" % ix.a[1][0].a[0], call_site(ip))
            elif ix.unk or ix.op == "app" and ix.a[0] in ("new", "res"):
                self.open("index", show(ix)[:80])
            else:
                self.bad(ip, "index", "the index field does not hold an encoded index: %s" % show(ix)[:100])
        if 3 in f:
            for s, k, fs in variants(ip, st, f[3]):
                if self.valv is None:
                    self.R.expect(k == 0 or (None if f[3].unk else False), self.root + ": value of a deletion", "the block of a deletion carries a value", call_site(ip))
                    continue
                d = app("discr", self.valv)
                for kk in (0, 1):
                    if holds(s, eq_int(d, C(kk))) is True:
                        self.R.expect(kk == k or (None if f[3].unk else False), self.root + ": presence of the value",
                                      "the block of a put %s a value although the caller gave %s" % ("has" if k else "lacks", "one" if kk else "none"), call_site(ip))
                        if kk == k == 1:
                            pv = [x for _, q, x in variants(ip, s, self.valv) if q == 1]
                            if pv:
                                self.same(ip, fs[0], ip.at(s, pv[0][0]), "value")

    def same(self, ip, a, b, what):
        a, b = seqform(a), seqform(b)
        if a is b:
            self.ok(what + " field", "is the caller's")
        elif a.unk or b.unk or any(x.op == "app" and x.a[0] in ("new", "itv", "res", "unk") for x in subterms(a)):
            self.open(what + " field", show(a)[:80])
        else:
            self.bad(ip, what + " field", "the %s field of the block holds %s, not the caller's %s" % (what, show(a)[:100], what))


def writing(p, R, tables):
    for h, n, b in write_roots(p):
        if b.nargs < 2:
            continue
        kv = app("at", app("arg", 1, ty=b.locals[2]), ty=p.pointee(b.locals[2]))
        vv = app("arg", 2, ty=b.locals[3]) if n.startswith("put") and b.nargs >= 3 else None
        analyse(R, p, b, [Data(R, p, tables, kv, vv)], lambda e: APPEND(e) or INFO(e), body_pred=lambda i: constructor(p, i))


def constructor(p, i):
    """a straight function that builds one of the program's structures that hold bytes"""
    r = p.raw[i]
    if r["kind"] != "fn" or r.get("tainted"):
        return False
    b = p.body(i)
    t = p.ty(b.locals[0])
    return t["k"] == "adt" and bool(t.get("variants")) and not t["enum"] and not b.loops and any(re.search(r"^(std::option::Option<)?std::vec::Vec<u8", p.tys(f[1])) for f in t["variants"][0]["fields"]) and not t["path"].startswith(("std::", "tokio::"))


def defaults(p, R):
    """the separator used when none is configured is one zero byte"""
    want = [0]
    for i, r in enumerate(p.raw):
        if r["kind"] != "fn":
            continue
        build = r["path"].endswith("PrefixedConfigBuilder::build")
        dflt = r.get("trait") == "std::default::Default" and r["path"].startswith("<prefixed::PrefixedConfig as")
        if not (build or dflt):
            continue
        b = p.body(i)

        def setup(ip):
            ip.graph = g(p)
            ip.cap = 64

        def final(ip, st, v, b=b):
            for s, kind, pay in res(ip, st, v):
                if kind == "err":
                    continue
                w = models.deep(ip, s, pay)
                for x in subterms(w):
                    if x.op == "seq" and all(q.op == "e" and is_const(q.a[0]) for q in x.a):
                        R.expect([cval(q.a[0]) for q in x.a] == want, b.path + ": default separator", "the default separator is %s" % [cval(q.a[0]) for q in x.a], b.span)
        analyse(R, p, b, [Monitor(R)], None, setup=setup, final=final)


def check(p, R):
    g(p)
    tables = {n: wire(p, R, n) for n in SCHEMA}
    reading(p, R, tables)
    writing(p, R, tables)
    defaults(p, R)
