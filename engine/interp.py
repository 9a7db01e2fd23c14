"""Abstract interpreter for monomorphic MIR: every statement and call is given its meaning on abstract
values (values.py); branches on facts the state does not determine split the disjunct (ctx.py)."""
import re
import time
from .poly import P, ZERO, ONE, atom_id
from .values import *
from .ctx import Partial, BV
from .rel import Partial_t
from . import models

MAXSTEPS = 60000
CLOSURE = re.compile(r"\{closure#\d+\}\Z")


def discr(t, i):
    """Discriminant of a variant as a signed number."""
    d = int(t["variants"][i]["discr"])
    if t["name"].endswith("cmp::Ordering") and d >= 128:
        return d - 256
    return d - (1 << 64) if d >= 1 << 63 else d


class Frame:
    __slots__ = ("fid", "body", "loc", "span", "visits", "parent", "block")

    def __init__(self, fid, body, parent):
        self.fid = fid
        self.body = body
        self.loc = [None] * len(body["locals"])
        self.span = None
        self.visits = {}
        self.parent = parent
        self.block = 0


class Call:
    """What a library model gets to see of a call."""
    __slots__ = ("fn", "rty", "it", "frame", "span")

    def __init__(self, fn, rty, it, frame, span):
        self.fn = fn
        self.rty = rty
        self.it = it
        self.frame = frame
        self.span = span


class Interp:
    def __init__(self, ctx, unroll=3):
        self.ctx = ctx
        self.prog = ctx.prog
        self.unroll = unroll
        self.frame = None
        self.depth = 0
        self.maxsteps = MAXSTEPS
        self.deadline = None
        self.steps = 0
        self.opaque = {}      # fid -> python function, replaces the body (set by obligations)
        self.visited_local = set()
        self.loops = None
        self.opaque_display = None
        self.last_where = None

    # ---- calls ----------------------------------------------------------------------------------
    def where(self):
        """Innermost location in analysed (not library) code."""
        f = self.frame
        while f is not None:
            fn = self.prog.fns[f.fid]
            if fn["local"] and fn["crate"] != self.prog.crate:
                return "%s (%s)" % (fn["name"], self.prog.span(f.span))
            f = f.parent
        f = self.frame
        return "%s" % (self.prog.fns[f.fid]["name"] if f else "?")

    def panic(self, kind):
        raise Panic(kind, self.where())

    def call(self, fid, args, rty=None, span=None):
        fn = self.prog.fns[fid]
        if fid in self.opaque:
            return self.opaque[fid](self, args, Call(fn, rty, self, self.frame, span))
        if fn["kind"].startswith("Virtual"):
            return self.virtual(fn, args, rty)
        m = models.lookup(fn)
        if m is not None:
            r = m(self, Call(fn, rty, self, self.frame, span), *args)
            if r is not NotImplemented:
                return r
        body = fn.get("body")
        if body is None:
            c = self.constructor(fn, rty)
            if c is not None:
                return Agg(rty, c, args)
            raise Unknown("no body and no model: " + fn["name"][:160])
        return self.run(fid, body, args)

    def virtual(self, fn, args, rty):
        """A call through a trait object: the receiver's concrete type decides."""
        idx = int("".join(ch for ch in fn["kind"] if ch.isdigit()))
        v = args[0]
        while isinstance(v, (Ref, BoxV)):
            v = self.ctx.read(self.deref(v)) if isinstance(v, Ref) else v.cell.v
        if not isinstance(v, (Agg, Sym, Fn)):
            raise Unknown("virtual call on %r" % (v,))
        t = self.prog.t(v.ty)
        if t["k"] == "dyn":
            raise Unknown("virtual call on an unknown object")
        f = self.prog.slot(v.ty, fn["args"][0], idx)
        if f is None:
            raise Unknown("no vtable of %s for %s" % (t["text"][:80], self.prog.text(fn["args"][0])[:80]))
        if t["k"] in ("closure", "fndef") and fn["name"].split("::")[-1] in ("call", "call_mut", "call_once"):
            return self.call_closure(args[0] if isinstance(args[0], Ref) else v, self.tuple_fields(args[1]), rty)
        return self.call(f, args, rty)

    def constructor(self, fn, rty):
        """Index of the variant a tuple struct or tuple variant used as a function makes."""
        if rty is None or self.prog.t(rty)["k"] != "adt":
            return None
        name = self.prog.t(rty)["name"]
        if fn["name"] == name:
            return 0
        if fn["name"].startswith(name + "::"):
            last = fn["name"].rsplit("::", 1)[-1]
            if fn["name"].startswith(name + "::<") and last.endswith(">"):
                return 0
            return self.prog.variant_index(rty, last)
        return None

    def run(self, fid, body, args):
        if self.depth > 120:
            raise Unknown("calls nested too deeply")
        fr = Frame(fid, body, self.frame)
        fn = self.prog.fns[fid]
        if fn["local"]:
            self.visited_local.add(fid)
        n = body["arg_count"]
        if len(args) != n:
            if n == 1 + self.tuple_len(args[1]) if len(args) == 2 else False:
                args = [args[0]] + self.tuple_fields(args[1])
            else:
                raise Unknown("argument count of " + fn["name"])
        for i, l in enumerate(body["locals"]):
            fr.loc[i] = Cell(UNINIT)
        for i, a in enumerate(args):
            fr.loc[i + 1].v = a
        self.frame = fr
        self.depth += 1
        try:
            return self.blocks(fr, 0)
        except Unknown:
            if self.last_where is None:
                self.last_where = "%s < %s" % (fn["name"][:100], self.where())
            raise
        finally:
            self.frame = fr.parent
            self.depth -= 1

    def tuple_len(self, v):
        if isinstance(v, (Agg, Sym)):
            return len(self.prog.fields(v.ty))
        return -1

    def tuple_fields(self, v):
        return [self.ctx.field(v, i) for i in range(self.tuple_len(v))]

    def call_closure(self, f, args, rty=None):
        """Call a closure / function item value (or a reference to one)."""
        v = f
        while isinstance(v, Ref):
            v = self.ctx.read(v)
        if isinstance(v, Fn):
            inst = self.prog.t(v.ty).get("inst")
            if inst is None:
                raise Unknown("unresolved function value")
            return self.call(inst, list(args), rty)
        if isinstance(v, (Agg, Sym)) and self.prog.t(v.ty)["k"] == "closure":
            t = self.prog.t(v.ty)
            inst = t.get("inst_mut") if t.get("inst_mut") is not None else t.get("inst")
            if inst is None:
                raise Unknown("unresolved closure")
            body = self.prog.fns[inst].get("body")
            if body is None:
                raise Unknown("closure without body")
            lty = self.prog.t(body["locals"][1]["ty"])
            self_arg = v
            if lty["k"] == "ref":
                self_arg = f if isinstance(f, Ref) else Ref(Cell(v), (), None, True)
            return self.run(inst, body, [self_arg] + list(args))
        if isinstance(v, Sym) and self.prog.t(v.ty)["k"] == "fnptr" and rty is not None:
            # a function the input brings along: any result
            self.called = getattr(self, "called", 0) + 1
            return self.ctx.mk(rty, ("in", "result%d" % self.called))
        raise Unknown("call of %r" % (v,))

    # ---- control flow ---------------------------------------------------------------------------
    def blocks(self, fr, b, until=None):
        """Run from block b to the function's return (value) or until block `until` is reached again."""
        body = fr.body
        headers = self.prog.loops(fr.fid)
        first = True
        while True:
            if until is not None and b == until and not first:
                return "header"
            first = False
            fr.block = b
            if b in headers and until != b:
                b = self.at_header(fr, b)
                if b is None:
                    raise Dead()
            bb = body["blocks"][b]
            for s in bb["statements"]:
                k = s["kind"]
                if isinstance(k, dict) and "Assign" in k:
                    fr.span = s["source_info"]["span"] if "source_info" in s else s.get("span")
                    pl, rv = k["Assign"]
                    self.assign(fr, pl, self.rvalue(fr, rv, s.get("rty")))
                elif isinstance(k, dict) and "StorageDead" in k:
                    pass
                elif isinstance(k, dict) and "StorageLive" in k:
                    fr.loc[k["StorageLive"]] = Cell(UNINIT)
                elif isinstance(k, dict) and "SetDiscriminant" in k:
                    raise Unknown("SetDiscriminant")
            self.steps += 1
            if self.steps > self.maxsteps or (self.deadline is not None and self.steps & 1023 == 0 and time.time() > self.deadline):
                raise Unknown("analysis budget of one path exhausted")
            t = bb["terminator"]
            k = t["kind"]
            fr.span = t["source_info"]["span"] if "source_info" in t else t.get("span")
            if isinstance(k, str):
                if k == "Return":
                    r = fr.loc[0].v
                    return self.fill(body["locals"][0]["ty"]) if r is UNINIT else r
                if k == "Unreachable":
                    raise Dead()
                raise Unknown("terminator " + k)
            n, v = next(iter(k.items()))
            if n == "Goto":
                b = v["target"]
            elif n == "SwitchInt":
                b = self.switch(fr, v)
            elif n == "Drop":
                b = v["target"]
            elif n == "Assert":
                c = self.operand(fr, v["cond"])
                if self.ctx.decide(c) != v["expected"]:
                    msg = v["msg"]
                    self.panic(msg if isinstance(msg, str) else self.assert_msg(msg))
                b = v["target"]
            elif n == "Call":
                fty = self.prog.t(t["fty"])
                args = [self.operand(fr, a) for a in v["args"]]
                dst = v["destination"]
                rty = self.place_ty(fr, dst)
                if fty["k"] == "fndef":
                    inst = fty.get("inst")
                    if inst is None:
                        r = models.unresolved(self, fty, args, Call(None, rty, self, fr, fr.span))
                    else:
                        callee = self.prog.fns[inst]
                        if len(args) == 2 and callee.get("body") is not None and fty["name"].split("::")[-1] in ("call_once", "call_mut", "call") \
                                and CLOSURE.search(callee["name"]) and callee["kind"] == "Item":
                            args = [args[0]] + self.tuple_fields(args[1])
                        r = self.call(inst, args, rty, fr.span)
                else:
                    r = self.call_closure(self.operand(fr, v["func"]), args, rty)
                if v["target"] is None:
                    raise Dead() if self.prog.t(rty)["k"] == "never" else Unknown("diverging call returned")
                self.assign(fr, dst, r)
                b = v["target"]
            else:
                raise Unknown("terminator " + n)

    def assert_msg(self, msg):
        k = next(iter(msg))
        if k == "Overflow":
            return "arithmetic overflow (%s)" % msg[k][0]
        if k == "BoundsCheck":
            return "index out of bounds"
        return k

    def at_header(self, fr, b):
        if self.loops is not None:
            r = self.loops.at_header(self, fr, b)
            if r is not NotImplemented:
                return r
        n = fr.visits.get(b, 0) + 1
        fr.visits[b] = n
        if n > self.unroll + 1:
            raise Unknown("loop at %s not summarised" % self.where())
        return b

    def switch(self, fr, v):
        d = self.operand(fr, v["discr"])
        br = v["targets"]["branches"]
        if isinstance(d, (bool, C, Not)):
            val = 1 if self.ctx.decide(d) else 0
            for x, t in br:
                if x == val:
                    return t
            return v["targets"]["otherwise"]
        if isinstance(d, P):
            k = self.ctx.norm(d).const()
            if k is not None and k < 0:
                for x, t in br:
                    if any(x == k % (1 << n) for n in (8, 16, 32, 64, 128)):
                        return t
                return v["targets"]["otherwise"]
            for x, t in br:
                if self.ctx.decide(C("eq", d - x)):
                    return t
            return v["targets"]["otherwise"]
        raise Unknown("switch on %r" % (d,))

    # ---- places ---------------------------------------------------------------------------------
    def place_ty(self, fr, pl):
        ty = fr.body["locals"][pl["local"]]["ty"]
        for e in pl["projection"]:
            t = self.prog.t(ty)
            if e == "Deref":
                ty = t["to"] if "to" in t else t["args"][0]
            elif "Field" in e:
                ty = e["Field"][1]
            elif "Index" in e or "ConstantIndex" in e:
                ty = t["elem"]
        return ty

    def place(self, fr, pl, mut=False):
        """-> Ref for a place."""
        cell = fr.loc[pl["local"]]
        path = ()
        rng = None
        var = None
        ctx = self.ctx
        for e in pl["projection"]:
            if e == "Deref":
                v = ctx.read(Ref(cell, path))
                if isinstance(v, Ref):
                    cell, path, rng = v.cell, v.path, v.rng
                elif isinstance(v, BoxV):
                    cell, path, rng = v.cell, (), None
                elif isinstance(v, Sym):
                    cell, path, rng = ctx.deref_cell(v), (), None
                else:
                    raise Unknown("deref of %r" % (v,))
                var = None
            elif "Field" in e:
                path = path + ((e["Field"][0], var),)
                var = None
            elif "Downcast" in e:
                var = e["Downcast"]
            elif "Index" in e:
                i = fr.loc[e["Index"]].v
                r = self.elem_place(Ref(cell, path, rng, True), i, mut)
                cell, path, rng = r.cell, r.path, None
            elif "ConstantIndex" in e:
                ci = e["ConstantIndex"]
                r0 = Ref(cell, path, rng, True)
                i = P.c(ci["offset"])
                if ci["from_end"]:
                    i = self.seq_len(r0) - i
                r = self.elem_place(r0, i, mut)
                cell, path, rng = r.cell, r.path, None
            elif "Subslice" in e:
                ss = e["Subslice"]
                r0 = Ref(cell, path, rng, True)
                n = self.seq_len(r0)
                lo = P.c(ss["from"])
                hi = n - ss["to"] if ss["from_end"] else P.c(ss["to"])
                base = rng[0] if rng else ZERO
                rng = (ctx.norm(base + lo), ctx.norm(hi - lo))
            else:
                raise Unknown("projection %r" % (e,))
        return Ref(cell, path, rng, mut)

    # ---- sequences behind references ------------------------------------------------------------
    def deref(self, v):
        """Ref for whatever v (a reference-like value) points to."""
        if isinstance(v, Ref):
            return v
        if isinstance(v, BoxV):
            return Ref(v.cell, (), None, True)
        if isinstance(v, Sym):
            return Ref(self.ctx.deref_cell(v), (), None, True)
        raise Unknown("reference expected: %r" % (v,))

    def seq(self, ref):
        """The sequence (as VecV) a reference to Vec/slice/array/str denotes."""
        ref = self.deref(ref)
        x = self.ctx.read(ref)
        x = self.ctx.vec(x)
        if ref.rng is not None:
            return self.ctx.slice(x, ref.rng[0], ref.rng[1])
        return x

    def seq_len(self, ref):
        ref = self.deref(ref)
        if ref.rng is not None:
            n = self.ctx.norm(ref.rng[1])
            return self.ctx.small(n) if self.ctx.K else n
        return self.ctx.vlen(self.ctx.vec(self.ctx.read(ref)))

    def elem_place(self, ref, i, mut):
        """Ref to element i (known to be in bounds) of the sequence behind ref."""
        ctx = self.ctx
        ref = self.deref(ref)
        v = ctx.vec(ctx.read(ref))
        gi = i if ref.rng is None else ctx.norm(ref.rng[0] + i)
        if len(v.segs) == 1 and isinstance(v.segs[0], Sl) and not mut:
            return Ref(Cell(ctx.elem_at(v.segs[0], gi)))
        before, rest = ctx.split(v.segs, gi)
        rest = list(rest)
        while rest and not isinstance(rest[0], Elem):
            if isinstance(rest[0], Sl):
                if ctx.decide(C("ge", rest[0].len - 1)):
                    break
                rest.pop(0)
            elif isinstance(rest[0], Rep):
                if ctx.decide(C("ge", rest[0].count - 1)):
                    break
                rest.pop(0)
            else:
                raise Unknown("element of an accumulator")
        if not rest:
            raise Unknown("element beyond the end")
        if isinstance(rest[0], Elem):
            return Ref(rest[0].cell, (), None, mut)
        val, rest2 = ctx.front(rest)
        if not mut:
            return Ref(Cell(val))
        c = Cell(val)
        ctx.write(Ref(ref.cell, ref.path), VecV(list(before) + [Elem(c)] + list(rest2), v.ety))
        return Ref(c, (), None, True)

    def set_seq(self, ref, segs, ety):
        ref = self.deref(ref)
        if ref.rng is not None:
            raise Unknown("resizing a slice")
        self.ctx.write(ref, VecV(segs, ety))

    # ---- values ---------------------------------------------------------------------------------
    def assign(self, fr, pl, val):
        if not pl["projection"]:
            fr.loc[pl["local"]].v = val
            return
        r = self.place(fr, pl, True)
        if r.rng is not None:
            raise Unknown("assignment to a slice")
        self.ctx.write(r, val)

    def load(self, fr, pl):
        if not pl["projection"]:
            v = fr.loc[pl["local"]].v
        else:
            r = self.place(fr, pl)
            v = self.ctx.read(r)
            if r.rng is not None:
                v = self.ctx.slice(self.ctx.vec(v), r.rng[0], r.rng[1])
        if isinstance(v, Partial):
            v = self.complete(v, self.place_ty(fr, pl))
        elif v is UNINIT:
            v = self.fill(self.place_ty(fr, pl))
        return v

    def fill(self, ty):
        """Value of a zero-sized place nothing was ever stored to."""
        return self.zst(ty) if self.is_zst(ty) else UNINIT

    def inhabited(self, ty, depth=0):
        t = self.prog.t(ty)
        if t["k"] == "never":
            return False
        if t["k"] == "adt" and t["kind"] == "Enum":
            return any(all(self.inhabited(f[1], depth + 1) for f in v["fields"]) for v in t["variants"]) if depth < 4 else True
        if t["k"] in ("tuple", "adt") and depth < 4:
            return all(self.inhabited(f[1], depth + 1) for f in self.prog.fields(ty))
        return True

    def live_variants(self, ty):
        return [i for i, v in enumerate(self.prog.t(ty)["variants"]) if all(self.inhabited(f[1]) for f in v["fields"])]

    def is_zst(self, ty, depth=0):
        t = self.prog.t(ty)
        k = t["k"]
        if k == "fndef":
            return True
        if depth > 4:
            return False
        if k == "adt" and t["kind"] == "Enum":
            l = self.live_variants(ty)
            return len(l) == 1 and all(self.is_zst(f[1], depth + 1) for f in t["variants"][l[0]]["fields"])
        if k in ("tuple", "adt"):
            return t.get("kind") != "Union" and all(self.is_zst(f[1], depth + 1) for f in self.prog.fields(ty))
        return k == "array" and t["len"] == 0

    def complete(self, v, ty):
        fs = self.prog.fields(ty)
        if set(v.d) == set(range(len(fs))):
            return Agg(ty, 0, [self.complete(v.d[i], f[1]) if isinstance(v.d[i], Partial) else v.d[i] for i, f in enumerate(fs)])
        return v

    def operand(self, fr, o):
        if "Copy" in o:
            return self.load(fr, o["Copy"])
        if "Move" in o:
            return self.load(fr, o["Move"])
        if "Constant" in o:
            return self.const(o["Constant"]["const_"])
        if "RuntimeChecks" in o:
            return False
        raise Unknown("operand %r" % (o,))

    def const(self, c):
        ty = c["ty"]
        k = c["kind"]
        if k == "ZeroSized":
            return self.zst(ty)
        if isinstance(k, dict) and "Allocated" in k:
            a = k["Allocated"]
            return self.decode(ty, a, 0)
        raise Unknown("constant %r" % (k,))

    def zst(self, ty):
        t = self.prog.t(ty)
        if t["k"] == "fndef":
            return Fn(ty)
        if t["k"] == "adt" and t["kind"] == "Enum":
            l = self.live_variants(ty)
            if len(l) != 1:
                raise Unknown("zero sized constant of " + t["text"])
            return Agg(ty, l[0], [self.zst(f[1]) for f in self.prog.fields(ty, l[0])])
        if t["k"] in ("closure", "tuple", "adt"):
            return Agg(ty, 0, [self.zst(f[1]) for f in self.prog.fields(ty)])
        if t["k"] == "array":
            return VecV((), t["elem"])
        raise Unknown("zero sized constant of " + t["text"])

    def size(self, ty):
        t = self.prog.t(ty)
        k = t["k"]
        if k in ("uint", "int"):
            w = t["w"]
            return {"Usize": 8, "Isize": 8, "U8": 1, "I8": 1, "U16": 2, "I16": 2, "U32": 4, "I32": 4, "U64": 8, "I64": 8, "U128": 16, "I128": 16}[w]
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ref", "ptr"):
            to = self.prog.t(t["to"])["k"]
            return 16 if to in ("str", "slice", "dyn") else 8
        if k == "array":
            return t["len"] * self.size(t["elem"])
        if t.get("layout"):
            return t["layout"]["size"]["num_bits"] // 8
        raise Unknown("size of " + t["text"])

    def decode(self, ty, a, off):
        t = self.prog.t(ty)
        k = t["k"]
        by = a["bytes"]

        def num(o, n, signed=False):
            b = by[o:o + n]
            if any(x is None for x in b):
                raise Unknown("uninitialised constant")
            return int.from_bytes(bytes(b), "little", signed=signed)
        if k in ("uint", "int"):
            return P.c(num(off, self.size(ty), k == "int"))
        if k == "char":
            return P.c(num(off, 4))
        if k == "bool":
            return num(off, 1) != 0
        if k in ("ref", "ptr"):
            prov = dict((p[0], p[1]) for p in a["provenance"]["ptrs"])
            if off not in prov:
                raise Unknown("integer pointer constant")
            target = prov[off]
            al = self.prog.allocs.get(target if isinstance(target, int) else target[0])
            if al is None or "bytes" not in al:
                raise Unknown("constant pointer")
            o2 = num(off, 8)
            to = t["to"]
            tk = self.prog.t(to)
            if tk["k"] == "str":
                n = num(off + 8, 8)
                s = bytes(al["bytes"][o2:o2 + n]).decode("utf-8")
                return Ref(Cell(self.string(s)))
            if tk["k"] == "slice":
                n = num(off + 8, 8)
                es = self.size(tk["elem"])
                return Ref(Cell(VecV([Elem(Cell(self.decode(tk["elem"], al, o2 + i * es))) for i in range(n)], tk["elem"])))
            return Ref(Cell(self.decode(to, al, o2)))
        if k == "array":
            es = self.size(t["elem"])
            return VecV([Elem(Cell(self.decode(t["elem"], a, off + i * es))) for i in range(t["len"])], t["elem"])
        if k == "adt" and t["name"] in ("std::vec::Vec", "std::string::String"):
            return VecV((), self.ctx.elem_ty(ty))       # constants own no heap memory
        lay = t.get("layout")
        if k in ("adt", "tuple") and lay:
            vs = lay["variants"]
            if "Single" in vs:
                vi = vs["Single"]["index"] if k == "adt" and t["kind"] == "Enum" else 0
                offs = lay["fields"].get("Arbitrary", {}).get("offsets", []) if isinstance(lay["fields"], dict) else []
            elif "Multiple" in vs:
                m = vs["Multiple"]
                tag = m["tag"]["Initialized"]["value"]
                if "Int" in tag:
                    n = int(tag["Int"]["length"][1:]) // 8
                else:
                    n = 8
                o = off + lay["fields"]["Arbitrary"]["offsets"][m["tag_field"]]["num_bits"] // 8
                if "Int" not in tag and any(p[0] == o for p in a["provenance"]["ptrs"]):
                    raw = None       # a real pointer: not one of the niche values
                else:
                    raw = num(o, n)
                mod = 1 << (8 * n)
                enc = m["tag_encoding"]
                vi = None
                if enc == "Direct":
                    for i, v in enumerate(t["variants"]):
                        if (int(v["discr"]) - raw) % mod == 0:
                            vi = i
                else:
                    e = enc["Niche"]
                    lo, hi = e["niche_variants"]["start"], e["niche_variants"]["end"]
                    vi = e["untagged_variant"]
                    if raw is not None:
                        d = (raw - e["niche_start"]) % mod
                        if d <= hi - lo:
                            vi = lo + d
                if vi is None:
                    raise Unknown("constant of type " + t["text"])
                offs = m["variants"][vi]["offsets"]
            else:
                raise Unknown("constant of type " + t["text"])
            fs = self.prog.fields(ty, vi)
            if len(fs) == len(offs):
                return Agg(ty, vi, [self.decode(f[1], a, off + offs[i]["num_bits"] // 8) if not self.is_zst(f[1])
                                    else self.zst(f[1]) for i, f in enumerate(fs)])
        raise Unknown("constant of type " + t["text"])

    def string(self, s):
        return VecV([Elem(Cell(P.c(ord(ch)))) for ch in s], self.prog.char)

    def rvalue(self, fr, rv, rty):
        ctx = self.ctx
        k, v = next(iter(rv.items()))
        if k == "Use":
            return self.operand(fr, v[0])
        if k == "Ref":
            mut = isinstance(v[1], dict) and "Mut" in v[1]
            r = self.place(fr, v[2], mut)
            return Ref(r.cell, r.path, r.rng, mut)
        if k == "AddressOf":
            mut = v[0] == "Mut"
            r = self.place(fr, v[1], mut)
            return Ref(r.cell, r.path, r.rng, mut)
        if k in ("BinaryOp", "CheckedBinaryOp"):
            a, b = self.operand(fr, v[1]), self.operand(fr, v[2])
            return self.binop(v[0], a, b, rty, k == "CheckedBinaryOp")
        if k == "UnaryOp":
            a = self.operand(fr, v[1])
            if v[0] == "Not":
                if isinstance(a, bool):
                    return not a
                if isinstance(a, C):
                    return a.neg()
                if isinstance(a, Not):
                    return a.c
                if isinstance(a, P) and self.prog.t(rty)["k"] in ("uint", "int"):
                    return self.ctx.norm(P.c((1 << (8 * self.size(rty))) - 1 if self.prog.t(rty)["k"] == "uint" else -1) - a)
                raise Unknown("bitwise not")
            if v[0] == "PtrMetadata":
                return self.seq_len(a)
            raise Unknown("unary " + str(v[0]))
        if k == "Aggregate":
            kind, ops = v
            vals = [self.operand(fr, o) for o in ops]
            if kind == "Tuple":
                return Agg(rty, 0, vals)
            if isinstance(kind, dict):
                if "Adt" in kind:
                    return Agg(rty, kind["Adt"][1], vals)
                if "Closure" in kind:
                    return Agg(rty, 0, vals)
                if "Array" in kind:
                    return VecV([Elem(Cell(x)) for x in vals], kind["Array"])
            raise Unknown("aggregate %r" % (kind,))
        if k == "Discriminant":
            r = self.place(fr, v)
            x = ctx.read(r)
            if x is UNINIT:
                x = self.fill(self.place_ty(fr, v))
            i = ctx.variant(x)
            t = self.prog.t(x.ty)
            return P.c(discr(t, i))
        if k == "Cast":
            return self.cast(v[0], self.operand(fr, v[1]), v[2])
        if k == "Repeat":
            x = self.operand(fr, v[0])
            t = self.prog.t(rty)
            if t["len"] > 64:
                raise Unknown("large array")
            return VecV([Elem(Cell(ctx.copyval(x))) for _ in range(t["len"])], t["elem"])
        if k == "CopyForDeref":
            return self.load(fr, v)
        if k == "Len":
            return self.seq_len(self.place(fr, v))
        raise Unknown("rvalue " + k)

    def cast(self, kind, x, ty):
        t = self.prog.t(ty)
        if kind == "IntToInt":
            if isinstance(x, (bool, C, Not)):
                return ONE if self.ctx.decide(x) else ZERO
            if isinstance(x, P):
                c = x.const()
                if c is not None and t["k"] == "uint":
                    return P.c(c % (1 << (8 * self.size(ty))))
                if t["k"] in ("uint", "int") and self.size(ty) == 8 or t["k"] == "char":
                    return x
                if self.ctx.ge(P.c((1 << (8 * self.size(ty) - 1)) - 1), x):
                    return x
                raise Unknown("truncating cast")
        if kind in ("Transmute", "PtrToPtr", "BoxDerefTransmute") and isinstance(x, (Ref, BoxV, Sym)):
            return x
        if kind == "Transmute":
            return x
        if isinstance(kind, dict) and "PointerCoercion" in kind:
            if kind["PointerCoercion"] == "Unsize":
                to = self.prog.t(t["to"])["k"] if "to" in t else None
                if isinstance(x, Ref) and to == "slice":
                    return Ref(x.cell, x.path, x.rng, x.mut)
                if isinstance(x, BoxV):
                    return x
            if isinstance(x, (Fn, Agg, Ref)):
                return x
        raise Unknown("cast %r" % (kind,))

    def binop(self, op, a, b, rty, checked):
        ctx = self.ctx
        B = (bool, C, Not)
        if isinstance(a, B) or isinstance(b, B):
            if op == "BitAnd":
                return (ctx.decide(a) and ctx.decide(b))
            if op == "BitOr":
                return (ctx.decide(a) or ctx.decide(b))
            x, y = ctx.decide(a), ctx.decide(b)
            r = {"Eq": x == y, "Ne": x != y, "BitXor": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(op)
            if r is None:
                raise Unknown("bool op " + op)
            return r
        if not isinstance(a, P) or not isinstance(b, P):
            raise Unknown("%s on %r, %r" % (op, a, b))
        cmpo = {"Eq": lambda: C("eq", a - b), "Ne": lambda: C("ne", a - b), "Lt": lambda: C("ge", b - a - 1), "Le": lambda: C("ge", b - a),
                "Gt": lambda: C("ge", a - b - 1), "Ge": lambda: C("ge", a - b)}
        if op in cmpo:
            return cmpo[op]()
        if op == "Cmp":
            return self.ordering(a, b, rty)
        if op in ("Add", "AddUnchecked"):
            r = a + b
            over = False if ctx.max is None else C("ge", r - ctx.max - 1)
        elif op in ("Sub", "SubUnchecked"):
            r = a - b
            over = C("ge", b - a - 1)
        elif op in ("Mul", "MulUnchecked"):
            r = a * b
            over = False if ctx.max is None else C("ge", r - ctx.max - 1)
        elif op in ("Div", "Rem"):
            q, m = ctx.divmod(a, b)
            return q if op == "Div" else m
        else:
            x, y = a.const(), b.const()
            if op == "Shl" and y is not None and y < 64:
                return ctx.norm(a * (1 << y))
            if op == "Shr" and y is not None and y < 64:
                return ctx.divmod(a, P.c(1 << y))[0]
            if op == "BitAnd" and y is not None and (y & (y + 1)) == 0:
                return ctx.divmod(a, P.c(y + 1))[1]
            if x is not None and y is not None:
                f = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(op)
                if f is not None:
                    return P.c(f)
            raise Unknown("operation " + op)
        r = ctx.norm(r)
        if checked:
            return Agg(rty, 0, [r, over])
        if not op.endswith("Unchecked") and over is not False and ctx.decide(over):
            raise Unknown("wrapping arithmetic")
        return r

    def ordering(self, a, b, rty):
        ctx = self.ctx
        if ctx.decide(C("ge", b - a - 1)):
            n = "Less"
        elif ctx.decide(C("eq", a - b)):
            n = "Equal"
        else:
            n = "Greater"
        return Agg(rty, self.prog.variant_index(rty, n), ())
