"""Meaning of the standard library's leaf functions on abstract values.

Only functions whose bodies are raw-pointer code or intrinsics are modelled; everything generic on top
of them (Option, Result, iterator adaptors ...) is analysed from its own MIR."""
import re
from .poly import P, ZERO, ONE
from .values import *
from .rel import Partial_t

RULES = []
_cache = {}


def model(*patterns):
    def deco(f):
        for p in patterns:
            RULES.append((re.compile(p + r"\Z"), f))
        return f
    return deco


def lookup(fn):
    key = fn["def"]
    r = _cache.get(key, 0)
    if r == 0:
        r = None
        for rx, f in RULES:
            if rx.match(key):
                r = f
                break
        _cache[key] = r
    return r


# ---- helpers -----------------------------------------------------------------------------------
def some(it, rty, v):
    return Agg(rty, it.prog.variant_index(rty, "Some"), (v,))


def none(it, rty):
    return Agg(rty, it.prog.variant_index(rty, "None"), ())


def ok_unit(it, rty):
    fs = it.prog.t(rty)["variants"][it.prog.variant_index(rty, "Ok")]["fields"]
    return Agg(rty, it.prog.variant_index(rty, "Ok"), (Agg(fs[0][1], 0, ()),))


def unit(it):
    return Agg(it.prog.unit, 0, ())


def unresolved(it, fty, args, call):
    raise Unknown("unresolved call to " + fty["name"])


def usize_ok(it, v):
    if not isinstance(v, P):
        raise Unknown("integer expected: %r" % (v,))
    return v


def write_back(it, ref, v):
    it.ctx.write(it.deref(ref), v)


# ---- panics --------------------------------------------------------------------------------------
@model(r"core::panicking::panic.*", r"core::panicking::assert_failed.*", r"core::panicking::todo_default_msg", r"core::panicking::unreachable.*",
       r"std::rt::panic_fmt", r"std::rt::begin_panic.*", r"std::rt::panic_display.*", r"std::panicking::.*",
       r"std::option::(unwrap|expect)_failed", r"std::result::unwrap_failed", r"core::slice::index::slice_.*fail.*",
       r"core::str::slice_error_fail.*", r"alloc::raw_vec::handle_error.*", r"std::alloc::handle_alloc_error",
       r"core::option::.*failed", r"core::panicking::.*")
def m_panic(it, call, *args):
    n = call.fn["def"]
    kind = "panic"
    if "unwrap_failed" in n:
        kind = "unwrap on a missing value"
    elif "expect_failed" in n:
        kind = "expect on a missing value"
    elif "assert_failed" in n:
        kind = "assertion failed"
    elif "todo" in n:
        kind = "not implemented (todo!)"
    elif "slice" in n:
        kind = "slice index out of range"
    else:
        for a in args:
            if isinstance(a, Ref) and isinstance(a.cell.v, VecV):
                s = text_of(it, a.cell.v)
                if s:
                    kind = "panic: " + s
            if isinstance(a, ArgsV):
                s = "".join(p[1] for p in a.pieces if p[0] == "lit")
                kind = "panic: " + s
                if "not yet implemented" in s:
                    kind = "not implemented (todo!)"
    it.panic(kind)


def text_of(it, v):
    out = []
    for s in v.segs:
        if not isinstance(s, Elem) or not isinstance(s.cell.v, P) or s.cell.v.const() is None:
            return None
        out.append(chr(s.cell.v.const()))
    return "".join(out)


# ---- memory --------------------------------------------------------------------------------------
@model(r"std::mem::replace", r"std::ptr::replace")
def m_replace(it, call, dst, v):
    r = it.deref(dst)
    old = it.ctx.read(r)
    it.ctx.write(r, v)
    return old


@model(r"std::mem::swap", r"std::ptr::swap")
def m_swap(it, call, a, b):
    ra, rb = it.deref(a), it.deref(b)
    x, y = it.ctx.read(ra), it.ctx.read(rb)
    it.ctx.write(ra, y)
    it.ctx.write(rb, x)
    return unit(it)


@model(r"<std::boxed::Box<T, A> as std::ops::Drop>::drop", r"<std::vec::Vec<T, A> as std::ops::Drop>::drop", r"<std::(sync::Arc|rc::Rc)<T, A> as std::ops::Drop>::drop", r"std::mem::forget", r"std::mem::drop", r"std::ptr::drop_in_place", r"std::hint::assert_unchecked", r"std::intrinsics::assume",
       r".*::precondition_check", r"std::intrinsics::(assert_inhabited|cold_path)", r"std::hint::cold_path", r"std::hint::black_box_unit")
def m_nop(it, call, *a):
    return unit(it)


@model(r"std::ptr::read", r"std::ptr::const_ptr::<impl \*const T>::read", r"std::ptr::mut_ptr::<impl \*mut T>::read")
def m_ptr_read(it, call, p):
    return it.ctx.read(it.deref(p))


@model(r"std::(sync::Arc|rc::Rc)::<T>::new")
def m_rc_new(it, call, v):
    return RcV(Cell(v))


@model(r"std::(sync::Arc|rc::Rc)::<T>::new_cyclic")
def m_rc_cyclic(it, call, f):
    c = Cell(UNINIT)
    c.v = it.call_closure(f, [Ref(Cell(RcV(c)))], None)
    return RcV(c)


@model(r"std::(sync|rc)::Weak::<T, A>::upgrade")
def m_rc_upgrade(it, call, r):
    b = it.ctx.read(it.deref(r))
    if not isinstance(b, RcV):
        raise Unknown("Weak of the input")
    return none(it, call.rty) if b.cell.v is UNINIT else some(it, call.rty, b)


@model(r"std::(sync::Arc|rc::Rc)::<T, A>::downgrade")
def m_rc_downgrade(it, call, r):
    return it.ctx.read(it.deref(r))


@model(r"<std::(sync::(Arc|Weak)|rc::(Rc|Weak))<T, A> as std::clone::Clone>::clone")
def m_rc_clone(it, call, r):
    return it.ctx.read(it.deref(r))


@model(r"std::boxed::Box::<T>::new", r"<std::boxed::Box<T> as std::convert::From<T>>::from")
def m_box_new(it, call, v):
    return BoxV(Cell(v))


@model(r"std::boxed::Box::<T>::new_uninit", r"std::boxed::Box::<T>::new_uninit_in")
def m_box_uninit(it, call, *a):
    return BoxV(Cell(UNINIT))


def dig(v):
    while isinstance(v, Partial_t):
        if len(v.d) != 1:
            raise Unknown("partially initialised")
        v = next(iter(v.d.values()))
    return v


@model(r"std::boxed::box_assume_init_into_vec_unsafe", r"std::slice::<impl \[T\]>::into_vec", r"core::slice::<impl \[T\]>::into_vec")
def m_box_into_vec(it, call, b):
    if isinstance(b, Sym):
        return it.ctx.vec(it.ctx.deref_cell(b).v)
    v = dig(b.cell.v)
    if not isinstance(v, (VecV, Sym)):
        raise Unknown("boxed array expected")
    return it.ctx.vec(v)


@model(r"<std::boxed::Box<T, A> as std::clone::Clone>::clone", r"<std::boxed::Box<T> as std::clone::Clone>::clone")
def m_box_clone(it, call, r):
    return it.ctx.copyval(it.ctx.read(it.deref(r)))


@model(r"<std::(sync::Arc|rc::Rc)<T, A> as std::ops::Deref>::deref", r"<std::boxed::Box<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?",
       r"<std::boxed::Box<T, A> as std::convert::As(Ref|Mut)<T>>::as_(ref|mut)", r"<std::(sync::Arc|rc::Rc)<T, A> as std::convert::AsRef<T>>::as_ref",
       r"<std::boxed::Box<T, A> as std::borrow::Borrow(Mut)?<T>>::borrow(_mut)?")
def m_box_deref(it, call, r):
    b = it.ctx.read(it.deref(r))
    return it.deref(b)


# ---- clone / identity ------------------------------------------------------------------------------
@model(r"std::clone::impls::<impl std::clone::Clone for .*>::clone", r"<std::vec::Vec<T, A> as std::clone::Clone>::clone",
       r"<std::string::String as std::clone::Clone>::clone", r"<std::slice::Iter<'_, T> as std::clone::Clone>::clone",
       r"<std::slice::Iter<'a, T> as std::clone::Clone>::clone", r"<std::vec::IntoIter<T, A> as std::clone::Clone>::clone",
       r"<std::str::Chars<'a> as std::clone::Clone>::clone", r"<std::str::Chars<'_> as std::clone::Clone>::clone",
       r"core::array::<impl std::clone::Clone for \[T; N\]>::clone", r"<std::alloc::Global as std::clone::Clone>::clone")
def m_clone(it, call, r):
    ref = it.deref(r)
    v = it.ctx.read(ref)
    if ref.rng is not None:
        v = it.ctx.slice(it.ctx.vec(v), *ref.rng)
    return it.ctx.copyval(v)


@model(r"std::slice::<impl \[T\]>::to_vec", r"core::slice::<impl \[T\]>::to_vec", r"std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned",
       r"<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from", r"<std::vec::Vec<T> as std::convert::From<&'a \[T\]>>::from",
       r"std::slice::<impl \[T\]>::to_vec_in", r"<std::vec::Vec<T> as std::convert::From<&\[T; N\]>>::from",
       r"std::str::<impl std::borrow::ToOwned for str>::to_owned", r"<std::string::String as std::convert::From<&str>>::from",
       r"<std::string::String as std::convert::From<&std::string::String>>::from",
       r"alloc::str::<impl std::borrow::ToOwned for str>::to_owned", r"alloc::slice::<impl \[T\]>::to_vec",
       r"<str as std::string::ToString>::to_string", r"<str as std::string::SpecToString>::spec_to_string",
       r"<std::string::String as std::string::SpecToString>::spec_to_string", r"<&str as std::string::SpecToString>::spec_to_string",
       r"std::string::String::as_str_to_owned", r"<std::vec::Vec<T> as std::convert::From<&mut \[T\]>>::from")
def m_to_vec(it, call, r):
    if call.fn["def"].startswith("<&str"):
        r = it.ctx.read(it.deref(r))
    return it.ctx.copyval(it.seq(r))


@model(r"<std::vec::Vec<T> as std::convert::From<\[T; N\]>>::from", r"<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<\[T\], A>>>::from",
       r"<T as std::convert::From<T>>::from", r"std::slice::<impl \[T\]>::into_vec", r"<std::string::String as std::convert::From<std::string::String>>::from")
def m_vec_from(it, call, a):
    if isinstance(a, BoxV):
        a = a.cell.v
    if it.ctx.is_seq(a):
        return it.ctx.vec(a)
    return a


# ---- Vec -------------------------------------------------------------------------------------------
def vec_elem(it, call):
    a = call.fn["args"]
    return a[0] if a else None


@model(r"std::vec::Vec::<T>::new", r"std::vec::Vec::<T>::with_capacity", r"std::vec::Vec::<T, A>::with_capacity_in", r"std::vec::Vec::<T, A>::new_in",
       r"<std::vec::Vec<T> as std::default::Default>::default")
def m_vec_new(it, call, *a):
    return VecV((), vec_elem(it, call))


@model(r"std::string::String::new", r"std::string::String::with_capacity", r"<std::string::String as std::default::Default>::default")
def m_string_new(it, call, *a):
    return VecV((), it.prog.char)


@model(r"std::vec::Vec::<T, A>::len", r"core::slice::<impl \[T\]>::len", r"<std::slice::Iter(Mut)?<.*> as std::iter::ExactSizeIterator>::len_placeholder")
def m_len(it, call, r):
    return it.seq_len(r)


def char_width(it, c):
    """Bytes of a character in UTF-8."""
    ctx = it.ctx
    n = ctx.norm(c).const()
    if n is not None:
        return len(chr(n).encode("utf-8", "surrogatepass"))
    for w, top in ((1, 0x80), (2, 0x800), (3, 0x10000)):
        if ctx.decide(C("ge", P.c(top - 1) - c)):
            return w
    return 4


@model(r"std::string::String::len", r"core::str::<impl str>::len")
def m_byte_len(it, call, r):
    """Length in bytes: at least one and at most four per character."""
    ctx = it.ctx
    total = ZERO
    for s in it.seq(r).segs:
        n = ctx.norm(ctx.seg_len(s))
        if isinstance(s, Elem):
            total = total + char_width(it, ctx.index(VecV((s,), it.prog.char), ZERO))
            continue
        if isinstance(s, Sl):
            b = ctx.mk(it.prog.usize, ("bytes", ctx.cterm(s.base), ctx.norm(s.lo), n))
        else:
            raise Unknown("length in bytes")
        ctx.assume(C("ge", b - n))
        ctx.assume(C("ge", n * 4 - b))
        total = total + b
    return ctx.norm(total)


def chars_of(it, r):
    """The characters of a text of known length."""
    v = it.seq(r)
    n = it.ctx.norm(it.ctx.vlen(v)).const()
    if n is None:
        raise Unknown("a place in a text of unknown length")
    return [it.ctx.index(v, P.c(i)) for i in range(n)]


def char_at(it, cs, b, what="byte index is not a char boundary"):
    """The number of characters in front of a byte index."""
    pos = 0
    for i, c in enumerate(cs + [None]):
        if it.ctx.decide(C("eq", b - pos)):
            return i
        if c is None or not it.ctx.decide(C("ge", b - pos - 1)):
            break
        pos += char_width(it, c)
    it.panic(what)


def bytes_to(it, cs, i):
    return P.c(sum(char_width(it, c) for c in cs[:i]))


@model(r"core::str::traits::<impl std::ops::Index(Mut)?<I> for str>::index(_mut)?", r"<std::string::String as std::ops::Index(Mut)?<I>>::index(_mut)?",
       r"std::string::<impl std::ops::Index(Mut)?<.*> for std::string::String>::index(_mut)?")
def m_str_index(it, call, r, i):
    cs = chars_of(it, r)
    total = bytes_to(it, cs, len(cs))
    lo, hi = bounds(it, i, total)
    a = char_at(it, cs, lo)
    b = char_at(it, cs, hi)
    if a > b:
        it.panic("slice index starts after its end")
    return subslice(it, r, P.c(a), P.c(b))


@model(r"core::str::<impl str>::get")
def m_str_get(it, call, r, i):
    cs = chars_of(it, r)
    lo, hi = bounds(it, i, bytes_to(it, cs, len(cs)))
    try:
        a, b = char_at(it, cs, lo), char_at(it, cs, hi)
    except Panic:
        return none(it, call.rty)
    return none(it, call.rty) if a > b else some(it, call.rty, subslice(it, r, P.c(a), P.c(b)))


@model(r"core::str::<impl str>::is_char_boundary")
def m_char_boundary(it, call, r, b):
    try:
        char_at(it, chars_of(it, r), b)
        return True
    except Panic:
        return False


def pattern_of(it, p):
    """What a text pattern looks for, as characters."""
    v = p
    while isinstance(v, (Ref, Sym)) and not isinstance(v, P):
        inner = it.ctx.read(it.deref(v))
        if isinstance(inner, (Ref,)) or isinstance(inner, Sym) and it.ctx.is_ptr(inner):
            v = inner
            continue
        if isinstance(inner, P):
            return [inner]
        return chars_of(it, v)
    if isinstance(v, P):
        return [v]
    raise Unknown("text pattern")


def same_chars(it, a, b):
    return len(a) == len(b) and all(it.ctx.decide(C("eq", x - y)) for x, y in zip(a, b))


@model(r"core::str::<impl str>::find", r"core::str::<impl str>::rfind")
def m_str_find(it, call, r, p):
    cs, w = chars_of(it, r), pattern_of(it, p)
    places = range(len(cs) - len(w) + 1)
    for i in (reversed(places) if call.fn["def"].endswith("rfind") else places):
        if same_chars(it, cs[i:i + len(w)], w):
            return some(it, call.rty, bytes_to(it, cs, i))
    return none(it, call.rty)


@model(r"core::str::<impl str>::contains")
def m_str_contains(it, call, r, p):
    cs, w = chars_of(it, r), pattern_of(it, p)
    return any(same_chars(it, cs[i:i + len(w)], w) for i in range(len(cs) - len(w) + 1))


@model(r"core::str::<impl str>::(starts|ends)_with", r"core::str::<impl str>::strip_(prefix|suffix)")
def m_str_ends(it, call, r, p):
    cs, w = chars_of(it, r), pattern_of(it, p)
    d = call.fn["def"]
    front = d.endswith("starts_with") or d.endswith("strip_prefix")
    k = len(cs) - len(w)
    ok = k >= 0 and same_chars(it, cs[:len(w)] if front else cs[k:], w)
    if "strip" not in d:
        return ok
    if not ok:
        return none(it, call.rty)
    return some(it, call.rty, subslice(it, r, P.c(len(w)), P.c(len(cs))) if front else subslice(it, r, ZERO, P.c(k)))


@model(r"core::str::<impl str>::char_indices")
def m_char_indices(it, call, r):
    cs = chars_of(it, r)
    tup = next((i for i, u in it.prog.types.items() if u["k"] == "tuple" and u["elems"] == [it.prog.usize, it.prog.char]), None)
    if tup is None:
        raise Unknown("char_indices")
    return OwnIter(call.rty, VecV(tuple(Elem(Cell(Agg(tup, 0, (bytes_to(it, cs, i), c)))) for i, c in enumerate(cs)), tup))


@model(r"std::vec::Vec::<T, A>::is_empty", r"core::slice::<impl \[T\]>::is_empty", r"core::str::<impl str>::is_empty", r"std::string::String::is_empty")
def m_is_empty(it, call, r):
    return C("eq", it.seq_len(r))


@model(r"std::vec::Vec::<T, A>::push", r"std::string::String::push")
def m_push(it, call, r, x):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    it.set_seq(r, v.segs + (Elem(Cell(x)),), v.ety)
    return unit(it)


@model(r"std::string::String::push_str", r"std::vec::Vec::<T, A>::extend_from_slice")
def m_push_str(it, call, r, s):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    w = it.ctx.copyval(it.seq(s))
    it.set_seq(r, v.segs + w.segs, v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::pop")
def m_pop(it, call, r):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    n = it.ctx.vlen(v)
    if not it.ctx.decide(C("ge", n - 1)):
        return none(it, call.rty)
    x, rest = it.ctx.back(v.segs)
    it.set_seq(r, rest, v.ety)
    return some(it, call.rty, x)


def place_check(it, n, i, incl, what):
    """Decide i < n (or i <= n)."""
    if not it.ctx.decide(C("ge", n - i - (0 if incl else 1))):
        it.panic(what)


@model(r"std::vec::Vec::<T, A>::insert")
def m_insert(it, call, r, i, x):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    place_check(it, it.ctx.vlen(v), i, True, "insertion index out of range")
    a, b = it.ctx.split(v.segs, i)
    it.set_seq(r, list(a) + [Elem(Cell(x))] + list(b), v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::remove")
def m_remove(it, call, r, i):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    place_check(it, it.ctx.vlen(v), i, False, "removal index out of range")
    a, b = it.ctx.split(v.segs, i)
    x, b = it.ctx.front(b)
    it.set_seq(r, list(a) + list(b), v.ety)
    return x


@model(r"std::vec::Vec::<T, A>::swap_remove")
def m_swap_remove(it, call, r, i):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    n = it.ctx.vlen(v)
    place_check(it, n, i, False, "removal index out of range")
    last, init = it.ctx.back(v.segs)
    if it.ctx.decide(C("eq", n - 1 - i)):
        it.set_seq(r, init, v.ety)
        return last
    a, b = it.ctx.split(init, i)
    x, b = it.ctx.front(b)
    it.set_seq(r, list(a) + [Elem(Cell(last))] + list(b), v.ety)
    return x


@model(r"std::vec::Vec::<T, A>::truncate")
def m_truncate(it, call, r, n):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    if it.ctx.decide(C("ge", it.ctx.vlen(v) - n)):
        a, _ = it.ctx.split(v.segs, n)
        it.set_seq(r, a, v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::clear", r"std::string::String::clear")
def m_clear(it, call, r):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    it.set_seq(r, (), v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::append")
def m_append(it, call, r, o):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    w = it.ctx.vec(it.ctx.read(it.deref(o)))
    it.set_seq(r, v.segs + w.segs, v.ety)
    it.set_seq(o, (), v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::split_off")
def m_split_off(it, call, r, i):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    place_check(it, it.ctx.vlen(v), i, True, "split index out of range")
    a, b = it.ctx.split(v.segs, i)
    it.set_seq(r, a, v.ety)
    return VecV(b, v.ety)


@model(r"std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)", r"std::string::String::reserve")
def m_reserve(it, call, *a):
    return unit(it)


@model(r"std::vec::Vec::<T, A>::(as_slice|as_mut_slice|as_ptr|as_mut_ptr)", r"<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?",
       r"<std::vec::Vec<T, A> as std::convert::As(Ref|Mut)<.*>>::as_(ref|mut)", r"<std::vec::Vec<T, A> as std::borrow::Borrow(Mut)?<.*>>::borrow(_mut)?",
       r"core::array::<impl \[T; N\]>::as_(mut_)?slice", r"std::array::<impl \[T; N\]>::as_(mut_)?slice",
       r"<std::string::String as std::ops::Deref>::deref", r"std::string::String::as_str", r"<std::string::String as std::convert::AsRef<str>>::as_ref",
       r"<str as std::convert::AsRef<str>>::as_ref", r"<std::string::String as std::borrow::Borrow<str>>::borrow",
       r"<\[T\] as std::convert::AsRef<\[T\]>>::as_ref", r"std::vec::Vec::<T, A>::leak_placeholder",
       r"core::array::<impl std::convert::AsRef<\[T\]> for \[T; N\]>::as_ref", r"core::array::<impl std::borrow::Borrow<\[T\]> for \[T; N\]>::borrow")
def m_as_slice(it, call, r):
    ref = it.deref(r)
    return Ref(ref.cell, ref.path, ref.rng, ref.mut)


def bounds(it, rng, n):
    """(lo, hi) of a range value over a sequence of length n."""
    ctx = it.ctx
    if not isinstance(rng, (Agg, Sym)):
        raise Unknown("range expected: %r" % (rng,))
    t = it.prog.t(rng.ty)
    nm = t["name"].split("::")[-1] if t["k"] == "adt" else ""
    if nm == "Range":
        return ctx.get(rng, "start"), ctx.get(rng, "end")
    if nm == "RangeFrom":
        return ctx.get(rng, "start"), n
    if nm == "RangeTo":
        return ZERO, ctx.get(rng, "end")
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeInclusive":
        return ctx.get(rng, "start"), ctx.norm(ctx.get(rng, "end") + 1)
    if nm == "RangeToInclusive":
        return ZERO, ctx.norm(ctx.get(rng, "end") + 1)
    raise Unknown("range of type " + t["text"])


def check_bounds(it, rng, n):
    lo, hi = bounds(it, rng, n)
    if not it.ctx.decide(C("ge", hi - lo)):
        it.panic("slice range starts after its end")
    if not it.ctx.decide(C("ge", n - hi)):
        it.panic("slice range end out of range")
    return lo, hi


def subslice(it, r, lo, hi, mut=None):
    ref = it.deref(r)
    base = ref.rng[0] if ref.rng is not None else ZERO
    return Ref(ref.cell, ref.path, (it.ctx.norm(base + lo), it.ctx.norm(hi - lo)), ref.mut)


@model(r"<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?", r"core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?",
       r"core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?")
def m_index(it, call, r, i):
    n = it.seq_len(r)
    mut = "index_mut" in call.fn["def"]
    if isinstance(i, P):
        place_check(it, n, i, False, "index out of bounds")
        return it.elem_place(r, i, mut)
    lo, hi = check_bounds(it, i, n)
    return subslice(it, r, lo, hi)


@model(r"core::slice::<impl \[T\]>::get(_mut)?")
def m_get(it, call, r, i):
    n = it.seq_len(r)
    mut = call.fn["def"].endswith("get_mut")
    if isinstance(i, P):
        if not it.ctx.decide(C("ge", n - i - 1)):
            return none(it, call.rty)
        return some(it, call.rty, it.elem_place(r, i, mut))
    lo, hi = bounds(it, i, n)
    if not it.ctx.decide(C("ge", hi - lo)) or not it.ctx.decide(C("ge", n - hi)):
        return none(it, call.rty)
    return some(it, call.rty, subslice(it, r, lo, hi))


@model(r"core::slice::<impl \[T\]>::get_unchecked(_mut)?")
def m_get_unchecked(it, call, r, i):
    mut = call.fn["def"].endswith("_mut")
    if isinstance(i, P):
        return it.elem_place(r, i, mut)
    lo, hi = bounds(it, i, it.seq_len(r))
    return subslice(it, r, lo, hi)


@model(r"core::slice::<impl \[T\]>::(first|last)(_mut)?")
def m_first_last(it, call, r):
    n = it.seq_len(r)
    if not it.ctx.decide(C("ge", n - 1)):
        return none(it, call.rty)
    d = call.fn["def"]
    return some(it, call.rty, it.elem_place(r, ZERO if "::first" in d else it.ctx.norm(n - 1), d.endswith("_mut")))


@model(r"core::slice::<impl \[T\]>::split_(first|last)(_mut)?")
def m_split_first(it, call, r):
    n = it.seq_len(r)
    if not it.ctx.decide(C("ge", n - 1)):
        return none(it, call.rty)
    d = call.fn["def"]
    mut = d.endswith("_mut")
    tty = it.prog.t(call.rty)["variants"][it.prog.variant_index(call.rty, "Some")]["fields"][0][1]
    if "split_first" in d:
        e = it.elem_place(r, ZERO, mut)
        s = subslice(it, r, ONE, n)
    else:
        e = it.elem_place(r, it.ctx.norm(n - 1), mut)
        s = subslice(it, r, ZERO, it.ctx.norm(n - 1))
    return some(it, call.rty, Agg(tty, 0, (e, s)))


@model(r"core::slice::<impl \[T\]>::split_at(_mut)?")
def m_split_at(it, call, r, i):
    n = it.seq_len(r)
    place_check(it, n, i, True, "split index out of range")
    return Agg(call.rty, 0, (subslice(it, r, ZERO, i), subslice(it, r, i, n)))


@model(r"core::slice::<impl \[T\]>::swap")
def m_slice_swap(it, call, r, i, j):
    n = it.seq_len(r)
    place_check(it, n, i, False, "index out of bounds")
    place_check(it, n, j, False, "index out of bounds")
    a, b = it.elem_place(r, i, True), it.elem_place(r, j, True)
    x, y = it.ctx.read(a), it.ctx.read(b)
    it.ctx.write(a, y)
    it.ctx.write(b, x)
    return unit(it)


@model(r"core::slice::<impl \[T\]>::reverse")
def m_reverse(it, call, r):
    v = it.seq(r)
    if not all(isinstance(s, Elem) for s in v.segs):
        it.set_seq(r, tuple(Elem(Cell(e)) for e in reversed(listed(it, v, "reversing"))), v.ety)
        return unit(it)
    it.set_seq(r, tuple(reversed(v.segs)), v.ety)
    return unit(it)


def listed(it, v, what):
    """The elements of a sequence of known length."""
    n = it.ctx.norm(it.ctx.vlen(v)).const()
    if n is None:
        raise Unknown(what + " a sequence of unknown length")
    return [it.ctx.index(v, P.c(i)) for i in range(n)]


def known_number(it, n, what):
    n = it.ctx.norm(it.ctx.small(n) if it.ctx.K else n).const() if isinstance(n, P) else None
    if n is None:
        raise Unknown(what + " by an unknown number")
    return n


@model(r"core::slice::<impl \[T\]>::contains")
def m_slice_contains(it, call, r, x):
    v = it.seq(r)
    want = it.ctx.read(it.deref(x))
    return any(it.ctx.eq_val(e, want) for e in listed(it, v, "searching"))


@model(r"core::slice::<impl \[T\]>::rotate_(left|right)")
def m_rotate(it, call, r, k):
    v = it.seq(r)
    es, k = listed(it, v, "rotating"), known_number(it, k, "rotating")
    if k > len(es):
        raise Panic("rotating too far", None)
    if call.fn["def"].endswith("right"):
        k = len(es) - k
    it.set_seq(r, tuple(Elem(Cell(e)) for e in es[k:] + es[:k]), v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::dedup")
def m_dedup(it, call, r):
    v = it.seq(r)
    out = []
    for e in listed(it, v, "removing repetitions from"):
        if not out or not it.ctx.eq_val(out[-1], e):
            out.append(e)
    it.set_seq(r, tuple(Elem(Cell(e)) for e in out), v.ety)
    return unit(it)


@model(r"core::slice::<impl \[T\]>::(clone_from_slice|copy_from_slice)")
def m_clone_from_slice(it, call, r, o):
    v, w = it.seq(r), it.seq(o)
    if not it.ctx.decide(C("eq", it.ctx.vlen(v) - it.ctx.vlen(w))):
        raise Panic("slices of different lengths", None)
    it.set_seq(r, tuple(Elem(Cell(it.ctx.copyval(e))) for e in listed(it, w, "copying")), v.ety)
    return unit(it)


@model(r"core::slice::<impl \[T\]>::fill")
def m_fill(it, call, r, x):
    v = it.seq(r)
    it.set_seq(r, tuple(Elem(Cell(it.ctx.copyval(x))) for _ in listed(it, v, "filling")), v.ety)
    return unit(it)


@model(r"std::vec::Vec::<T, A>::resize")
def m_resize(it, call, r, n, x):
    v = it.seq(r)
    es, n = listed(it, v, "resizing"), known_number(it, n, "resizing")
    es = es[:n] + [it.ctx.copyval(x) for _ in range(n - len(es))]
    it.set_seq(r, tuple(Elem(Cell(e)) for e in es), v.ety)
    return unit(it)


@model(r"core::slice::<impl \[T\]>::(windows|chunks|chunks_exact|rchunks|array_windows)", r"core::slice::<impl \[T\]>::(chunks_mut|chunks_exact_mut)")
def m_windows(it, call, r, k):
    d = call.fn["def"].split("::")[-1]
    k = known_number(it, k, d)
    if k == 0:
        raise Panic("size of %s is zero" % d, None)
    n = it.ctx.norm(it.seq_len(r)).const()
    if n is None:
        raise Unknown(d + " of a sequence of unknown length")
    if d == "windows":
        at = [(i, k) for i in range(n - k + 1)]
    elif d == "rchunks":
        at = [(max(0, e - k), min(k, e)) for e in range(n, 0, -k)]
    else:
        at = [(i, min(k, n - i)) for i in range(0, n, k) if i + k <= n or "exact" not in d]
    return OwnIter(call.rty, VecV(tuple(Elem(Cell(subslice(it, r, P.c(i), P.c(i + m)))) for i, m in at), None))


@model(r"core::slice::<impl \[T\]>::split")
def m_slice_split(it, call, r, f):
    v = it.seq(r)
    at, lo, es = [], 0, listed(it, v, "splitting")
    for i, e in enumerate(es):
        b = it.call_closure(f, [Ref(Cell(e))])
        if b if isinstance(b, bool) else it.ctx.decide(b):
            at.append((lo, i))
            lo = i + 1
    at.append((lo, len(es)))
    return OwnIter(call.rty, VecV(tuple(Elem(Cell(subslice(it, r, P.c(a), P.c(b)))) for a, b in at), None))


@model(r"core::str::<impl str>::split")
def m_str_split(it, call, r, p):
    cs, w = chars_of(it, r), pattern_of(it, p)
    if not w:
        raise Unknown("splitting a text at nothing")
    at, lo, i = [], 0, 0
    while i + len(w) <= len(cs):
        if same_chars(it, cs[i:i + len(w)], w):
            at.append((lo, i))
            i = lo = i + len(w)
        else:
            i += 1
    at.append((lo, len(cs)))
    return OwnIter(call.rty, VecV(tuple(Elem(Cell(subslice(it, r, P.c(a), P.c(b)))) for a, b in at), None))


@model(r"(core|std|alloc)::str::<impl str>::replace")
def m_str_replace(it, call, r, p, to):
    cs, w, t = chars_of(it, r), pattern_of(it, p), chars_of(it, to)
    if not w:
        raise Unknown("replacing nothing in a text")
    out, i = [], 0
    while i < len(cs):
        if i + len(w) <= len(cs) and same_chars(it, cs[i:i + len(w)], w):
            out += t
            i += len(w)
        else:
            out.append(cs[i])
            i += 1
    return VecV(tuple(Elem(Cell(c)) for c in out), it.prog.char)


@model(r"(core|std|alloc)::str::<impl str>::repeat")
def m_str_repeat(it, call, r, n):
    cs, n = chars_of(it, r), known_number(it, n, "repeating")
    return VecV(tuple(Elem(Cell(c)) for _ in range(n) for c in cs), it.prog.char)


@model(r"core::slice::<impl \[T\]>::binary_search")
def m_binary_search(it, call, r, x):
    """In a sorted sequence; the place is unique unless elements repeat."""
    v = it.seq(r)
    ordering = next(i for i, t in it.prog.types.items() if t["k"] == "adt" and t["name"] == "std::cmp::Ordering")
    want = it.ctx.read(it.deref(x))
    names = [y["name"] for y in it.prog.t(ordering)["variants"]]
    rs = [names[it.ctx.variant(elem_cmp(it, "cmp", v.ety, e, want, ordering))] for e in listed(it, v, "searching")]
    if rs != sorted(rs, key=["Less", "Equal", "Greater"].index) or rs.count("Equal") > 1:
        raise Unknown("searching a sequence that is not sorted or repeats elements")
    k = rs.count("Less")
    return Agg(call.rty, it.prog.variant_index(call.rty, "Ok" if "Equal" in rs else "Err"), (P.c(k),))


@model(r"<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend_one(_unchecked)?")
def m_extend_one(it, call, r, x):
    return m_push(it, call, r, x)


@model(r"std::vec::Vec::<T, A>::push_mut")
def m_push_mut(it, call, r, x):
    v = it.ctx.vec(it.ctx.read(it.deref(r)))
    n = it.ctx.vlen(v)
    it.set_seq(r, v.segs + (Elem(Cell(x)),), v.ety)
    return it.elem_place(r, n, True)


@model(r"(std|core|alloc)::slice::<impl \[T\]>::concat", r"<\[V\] as std::slice::Concat<T>>::concat")
def m_concat(it, call, r):
    segs, ety = [], None
    for e in listed(it, it.seq(r), "joining"):
        w = it.seq(e) if isinstance(e, Ref) or isinstance(e, Sym) and it.ctx.is_ptr(e) else it.ctx.vec(e)
        segs += [Elem(Cell(it.ctx.copyval(s.cell.v))) if isinstance(s, Elem) else s for s in w.segs]
        ety = w.ety
    if ety is None:
        ety = it.prog.t(call.rty)["args"][0] if it.prog.t(call.rty).get("args") else None
    return VecV(tuple(segs), ety)


@model(r"<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition")
def m_rposition(it, call, r, f):
    v = iter_of(it, r)
    n = it.ctx.norm(it.ctx.small(v.len) if it.ctx.K else v.len).const()
    if n is None:
        raise Unknown("searching a sequence of unknown length")
    for i in range(n - 1, -1, -1):
        b = it.call_closure(f, [it.elem_place(v.ref, it.ctx.norm(v.lo + i), False)])
        if b if isinstance(b, bool) else it.ctx.decide(b):
            return some(it, call.rty, P.c(i))
    return none(it, call.rty)


@model(r"core::slice::<impl \[T\]>::iter", r"core::slice::iter::<impl std::iter::IntoIterator for &'a \[T\]>::into_iter",
       r"<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"core::array::<impl std::iter::IntoIterator for &'a \[T; N\]>::into_iter",
       r"core::slice::<impl \[T\]>::iter_mut", r"core::slice::iter::<impl std::iter::IntoIterator for &'a mut \[T\]>::into_iter",
       r"<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"core::array::<impl std::iter::IntoIterator for &'a mut \[T; N\]>::into_iter",
       r"std::slice::Iter::<'a, T>::new", r"std::slice::IterMut::<'a, T>::new")
def m_iter(it, call, r):
    d = call.fn["def"]
    mut = "mut" in d.lower().split("::into_iter")[0] or d.endswith("iter_mut")
    ref = it.deref(r)
    n = it.seq_len(ref)
    lo = ref.rng[0] if ref.rng is not None else ZERO
    return SliceIter(call.rty, Ref(ref.cell, ref.path, None, mut), lo, n, mut)


@model(r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", r"std::array::<impl std::iter::IntoIterator for \[T; N\]>::into_iter",
       r"core::array::<impl std::iter::IntoIterator for \[T; N\]>::into_iter", r"std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter",
       r"core::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter")
def m_into_iter(it, call, v):
    return OwnIter(call.rty, it.ctx.vec(v))


@model(r"core::str::<impl str>::chars")
def m_chars(it, call, r):
    return OwnIter(call.rty, it.seq(r))


def iter_of(it, r):
    v = it.ctx.read(it.deref(r))
    return v


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::vec::IntoIter<T, A> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::array::IntoIter<T, N> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::array::IntoIter<T, .*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::vec::Drain<'_, T, A> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::vec::Splice<'_, I, A> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::str::Chars<'a> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::str::CharIndices<'a> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::slice::(Windows|Chunks|ChunksExact|RChunks|ChunksMut|ChunksExactMut|Split)<'a, T.*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)",
       r"<std::str::Split<'a, P> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)")
def m_next(it, call, r):
    ctx = it.ctx
    v = iter_of(it, r)
    back = call.fn["def"].endswith("next_back")
    if isinstance(v, SliceIter):
        if not ctx.decide(C("ge", v.len - 1)):
            return none(it, call.rty)
        i = ctx.norm(v.lo + v.len - 1) if back else v.lo
        e = it.elem_place(v.ref, i, v.mut)
        write_back(it, r, SliceIter(v.ty, v.ref, v.lo if back else ctx.norm(v.lo + 1), ctx.norm(v.len - 1), v.mut))
        return some(it, call.rty, e)
    if isinstance(v, OwnIter):
        if not ctx.decide(C("ge", ctx.vlen(v.vec) - 1)):
            return none(it, call.rty)
        x, rest = (ctx.back if back else ctx.front)(v.vec.segs)
        write_back(it, r, OwnIter(v.ty, VecV(rest, v.vec.ety)))
        return some(it, call.rty, x)
    raise Unknown("iterator %r" % (v,))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::__iterator_get_unchecked")
def m_iter_get_unchecked(it, call, r, i):
    v = iter_of(it, r)
    if isinstance(v, SliceIter):
        return it.elem_place(v.ref, it.ctx.norm(v.lo + i), v.mut)
    if isinstance(v, OwnIter):
        return it.ctx.index(v.vec, i)
    raise Unknown("iterator %r" % (v,))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::count", r"<std::slice::Iter(Mut)?<'.*, T> as std::iter::ExactSizeIterator>::len",
       r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::count", r"<std::str::Chars<'a> as std::iter::Iterator>::count",
       r"std::iter::ExactSizeIterator::len", r"<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len")
def m_iter_count(it, call, v):
    if isinstance(v, Ref):
        v = it.ctx.read(v)
    if isinstance(v, SliceIter):
        return v.len
    if isinstance(v, OwnIter):
        return it.ctx.vlen(v.vec)
    if call.fn.get("body") is not None:
        return NotImplemented
    raise Unknown("length of iterator %r" % (v,))


@model(r"<.* as std::iter::adapters::zip::TrustedRandomAccessNoCoerce>::size", r"std::iter::adapters::zip::TrustedRandomAccessNoCoerce::size")
def m_tra_size(it, call, r):
    v = iter_of(it, r)
    if isinstance(v, SliceIter):
        return v.len
    if isinstance(v, OwnIter):
        return it.ctx.vlen(v.vec)
    if call.fn.get("body") is not None:
        return NotImplemented
    raise Unknown("size of %r" % (v,))


@model(r"<std::slice::(Windows|Chunks|ChunksExact|RChunks|ChunksMut|ChunksExactMut|Split)<'a, T.*> as std::iter::Iterator>::size_hint", r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::size_hint", r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint")
def m_size_hint(it, call, r):
    v = iter_of(it, r)
    n = v.len if isinstance(v, SliceIter) else it.ctx.vlen(v.vec)
    oty = it.prog.fields(call.rty)[1][1]
    return Agg(call.rty, 0, (n, some(it, oty, n)))


@model(r"std::slice::Iter::<'a, T>::as_slice", r"std::vec::IntoIter::<T, A>::as_slice")
def m_iter_as_slice(it, call, r):
    v = iter_of(it, r)
    if isinstance(v, SliceIter):
        return Ref(v.ref.cell, v.ref.path, (v.lo, v.len))
    return Ref(Cell(v.vec))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::(nth|last)", r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::nth_placeholder")
def m_iter_nth(it, call, r, *a):
    ctx = it.ctx
    if call.fn["def"].endswith("last"):
        v = r
        if not ctx.decide(C("ge", v.len - 1)):
            return none(it, call.rty)
        return some(it, call.rty, it.elem_place(v.ref, ctx.norm(v.lo + v.len - 1), v.mut))
    v = iter_of(it, r)
    n = a[0]
    if not ctx.decide(C("ge", v.len - n - 1)):
        write_back(it, r, SliceIter(v.ty, v.ref, ctx.norm(v.lo + v.len), ZERO, v.mut))
        return none(it, call.rty)
    e = it.elem_place(v.ref, ctx.norm(v.lo + n), v.mut)
    write_back(it, r, SliceIter(v.ty, v.ref, ctx.norm(v.lo + n + 1), ctx.norm(v.len - n - 1), v.mut))
    return some(it, call.rty, e)


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::(nth_back|advance_back_by)",
       r"<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::advance_back_by")
def m_iter_nth_back(it, call, r, n):
    ctx = it.ctx
    v = iter_of(it, r)
    nth = call.fn["def"].endswith("nth_back")
    ln = v.len if isinstance(v, SliceIter) else ctx.vlen(v.vec)
    full = ctx.decide(C("ge", ln - n - (1 if nth else 0)))
    k = ctx.norm(n + (1 if nth else 0)) if full else ln
    e = it.elem_place(v.ref, ctx.norm(v.lo + v.len - k), v.mut) if nth and full else None
    if isinstance(v, SliceIter):
        write_back(it, r, SliceIter(v.ty, v.ref, v.lo, ctx.norm(v.len - k), v.mut))
    else:
        rest, _ = ctx.split(v.vec.segs, ctx.norm(ln - k))
        write_back(it, r, OwnIter(v.ty, VecV(rest, v.vec.ety)))
    if nth:
        return some(it, call.rty, e) if full else none(it, call.rty)
    if full:
        return ok_unit(it, call.rty)
    return Agg(call.rty, it.prog.variant_index(call.rty, "Err"), (Opaque("remaining"),))


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::advance_by", r"<std::vec::IntoIter<T, A> as std::iter::Iterator>::advance_by",
       r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::nth_placeholder")
def m_advance_by(it, call, r, n):
    """Result<(), NonZero<usize>>"""
    ctx = it.ctx
    v = iter_of(it, r)
    ln = v.len if isinstance(v, SliceIter) else ctx.vlen(v.vec)
    full = ctx.decide(C("ge", ln - n))
    k = n if full else ln
    if isinstance(v, SliceIter):
        write_back(it, r, SliceIter(v.ty, v.ref, ctx.norm(v.lo + k), ctx.norm(v.len - k), v.mut))
    else:
        _, rest = ctx.split(v.vec.segs, k)
        write_back(it, r, OwnIter(v.ty, VecV(rest, v.vec.ety)))
    if full:
        return ok_unit(it, call.rty)
    vi = it.prog.variant_index(call.rty, "Err")
    nz = it.prog.t(call.rty)["variants"][vi]["fields"][0][1]
    return Agg(call.rty, vi, (Opaque("remaining"),))


@model(r"<std::iter::.* as std::iter::Iterator>::for_each", r"std::iter::Iterator::for_each")
def m_for_each_drop(it, call, x, f):
    """Consuming an iterator and dropping every item."""
    if not (isinstance(f, Fn) and it.prog.t(f.ty)["name"] == "std::mem::drop"):
        return NotImplemented
    if bulk(it, x) is NotImplemented:
        return NotImplemented
    return unit(it)


@model(r"<std::iter::.* as std::iter::Iterator>::count", r"std::iter::Iterator::count")
def m_count_bulk(it, call, x):
    b = bulk(it, x)
    return NotImplemented if b is NotImplemented else seglen(it.ctx, b[0])


# ---- bulk consumption of iterators -------------------------------------------------------------------
def bulk(it, v, limit=None):
    """All remaining items of an iterator value as segments (at most `limit`); returns (segs, iterator
    value afterwards) or NotImplemented when the items have to be produced one by one."""
    ctx = it.ctx
    if isinstance(v, Ref):
        r = bulk(it, ctx.read(v), limit)
        if r is NotImplemented:
            return r
        ctx.write(v, r[1])
        return r[0], v
    if isinstance(v, OwnIter):
        if limit is None:
            return list(v.vec.segs), OwnIter(v.ty, VecV((), v.vec.ety))
        n = ctx.vlen(v.vec)
        if ctx.decide(C("ge", limit - n)):
            return list(v.vec.segs), OwnIter(v.ty, VecV((), v.vec.ety))
        a, b = ctx.split(v.vec.segs, limit)
        return list(a), OwnIter(v.ty, VecV(b, v.vec.ety))
    if isinstance(v, (Agg, Sym)):
        t = it.prog.t(v.ty)
        if t["k"] != "adt":
            return NotImplemented
        n = t["name"].split("::")[-1]
        if n == "Take":
            k = ctx.get(v, "n")
            if limit is not None:
                if not ctx.decide(C("ge", limit - k)):
                    k0, k = k, limit
                else:
                    k0 = k
            else:
                k0 = k
            r = bulk(it, ctx.get(v, "iter"), k)
            if r is NotImplemented:
                return r
            got = seglen(ctx, r[0])
            return r[0], rebuild(it, v, iter=r[1], n=ctx.norm(k0 - got))
        if n == "Skip" and limit is None:
            k = ctx.get(v, "n")
            r = bulk(it, ctx.get(v, "iter"), k)
            if r is NotImplemented:
                return r
            r = bulk(it, r[1], limit)
            if r is NotImplemented:
                return r
            return r[0], rebuild(it, v, iter=r[1], n=ZERO)
        if n == "Rev" and limit is None:
            r = items(it, ctx.get(v, "iter"))
            if r is NotImplemented:
                return r
            return reverse_segs(it, r[0]), rebuild(it, v, iter=r[1])
        if n == "Map" and limit is None:
            r = items(it, ctx.get(v, "iter"))
            if r is NotImplemented or not any(isinstance(s, (Sl, Rep)) for s in r[0]):
                return NotImplemented
            return map_segs(it, r[0], lambda e: it.call_closure(ctx.get(v, "f"), [e])), rebuild(it, v, iter=r[1])
        if n in ("Cloned", "Copied"):
            r = view(it, ctx.get(v, "it"), limit)
            if r is NotImplemented:
                return r
            s, after = r
            return list(ctx.copyval(s).segs), rebuild(it, v, it=after)
        if n == "Empty":
            return [], v
        if n == "Chain" and limit is None:
            out = []
            new = {}
            for f in ("a", "b"):
                o = ctx.get(v, f)
                if ctx.is_variant(o, "Some"):
                    r = bulk(it, ctx.vget(o, "Some", "0"), None)
                    if r is NotImplemented:
                        if out:
                            raise Unknown("chained iterator")
                        return r
                    out += r[0]
            return out, v
        if n in ("FlatMap", "Flatten") and limit is None:
            return flatten(it, v)
        if n == "IntoIter" and t["name"].startswith("std::option"):
            return NotImplemented
        if n == "Once":
            return NotImplemented
    return NotImplemented


def flatten(it, v):
    """Items of a flattened iterator whose outer part has a known number of items."""
    ctx = it.ctx
    inner = ctx.get(v, "inner")
    front, back, outer = ctx.get(inner, "frontiter"), ctx.get(inner, "backiter"), ctx.get(ctx.get(inner, "iter"), "iter")
    if not (ctx.is_variant(front, "None") and ctx.is_variant(back, "None") and ctx.is_variant(outer, "Some")):
        return NotImplemented
    src = ctx.vget(outer, "Some", "0")
    f = None
    if isinstance(src, Agg) and it.prog.t(src.ty)["name"].split("::")[-1] == "Map":
        f = ctx.get(src, "f")
        src = ctx.get(src, "iter")
    r = items(it, src)
    if r is NotImplemented:
        return r
    outs = []
    for s in r[0]:
        if isinstance(s, Elem):
            outs.append(s.cell.v)
            continue
        n = ctx.norm(ctx.seg_len(s)).const()
        if n is None or n > 8:
            return NotImplemented
        for i in range(n):
            src = [Elem(Cell(ctx.elem_at(s, P.c(i))))] if isinstance(s, Sl) else ctx.rep_at(s, P.c(i))
            if not all(isinstance(g, Elem) for g in src):
                return NotImplemented
            outs += [g.cell.v for g in src]
    segs = []
    for o in outs:
        u = it.call_closure(f, [o]) if f is not None else o
        if isinstance(u, VecV) or isinstance(u, Sym) and ctx.is_seq(u):
            segs += list(ctx.vec(u).segs)
            continue
        if isinstance(u, Ref):
            try:
                segs += list(refs_of(it, it.seq(u), None).segs)
                continue
            except Unknown:
                pass
        b = items(it, u)
        if b is NotImplemented:
            raise Unknown("flattening %r" % (u,))
        segs += b[0]
    return segs, Agg(v.ty, v.variant, [UNINIT for _ in it.prog.fields(v.ty)])


def view(it, v, limit=None):
    """The stretch of a stored sequence an iterator over references (slice iterator, skipped or limited) still covers (at
    most `limit` items); (stretch, iterator afterwards) or NotImplemented."""
    ctx = it.ctx
    if isinstance(v, Ref):
        r = view(it, ctx.read(v), limit)
        if r is NotImplemented:
            return r
        ctx.write(v, r[1])
        return r[0], v
    if isinstance(v, SliceIter):
        if v.mut:
            return NotImplemented
        k = v.len
        if limit is not None and not ctx.decide(C("ge", limit - k)):
            k = limit
        s = ctx.slice(ctx.vec(ctx.read(v.ref)), v.lo, k)
        return s, SliceIter(v.ty, v.ref, ctx.norm(v.lo + k), ctx.norm(v.len - k), v.mut)
    if isinstance(v, (Agg, Sym)) and it.prog.t(v.ty)["k"] == "adt":
        n = it.prog.t(v.ty)["name"].split("::")[-1]
        if n == "Take":
            k0 = k = ctx.get(v, "n")
            if limit is not None and not ctx.decide(C("ge", limit - k)):
                k = limit
            r = view(it, ctx.get(v, "iter"), k)
            if r is NotImplemented:
                return r
            return r[0], rebuild(it, v, iter=r[1], n=ctx.norm(k0 - ctx.vlen(r[0])))
        if n == "Skip":
            r = view(it, ctx.get(v, "iter"), ctx.get(v, "n"))
            if r is NotImplemented:
                return r
            r = view(it, r[1], limit)
            return r[0], rebuild(it, v, iter=r[1], n=ZERO)
    return NotImplemented


def items(it, v):
    """Like bulk, for iterators over references too."""
    r = view(it, v)
    if r is not NotImplemented:
        return list(refs_of(it, r[0], None).segs), r[1]
    return bulk(it, v)


def bound(it):
    """A bound variable for the rounds of a repetition that no enclosing round uses."""
    from .poly import atom_id
    it.bound_n = getattr(it, "bound_n", 10) + 1
    return atom_id(("bv", it.bound_n))


def reverse_segs(it, segs):
    from .poly import atom_id
    ctx = it.ctx
    out = []
    for s in reversed(segs):
        if isinstance(s, Elem):
            out.append(s)
        elif isinstance(s, Sl):
            bv = bound(it)
            out.append(Rep(s.len, bv, (((), (Elem(Cell(ctx.elem_at(s, s.len - 1 - P.a(bv)))),)),)))
        elif isinstance(s, Rep) and len(s.branches) == 1 and all(isinstance(g, Elem) for g in s.branches[0][1]):
            bv = bound(it)
            inner = [ctx.subst_seg(g, {s.bv: s.count - 1 - P.a(bv)}, {}) for g in reversed(s.branches[0][1])]
            out.append(Rep(s.count, bv, (((), tuple(inner)),)))
        else:
            raise Unknown("reversing a repetition")
    return out


def map_segs(it, segs, fn):
    """fn applied to every item; stretches of arbitrary length are evaluated for a generic item."""
    ctx = it.ctx
    out = []
    for s in segs:
        if isinstance(s, Elem):
            out.append(Elem(Cell(fn(s.cell.v))))
            continue
        bv = bound(it)
        n = ctx.norm(s.len if isinstance(s, Sl) else s.count)
        if n.const() is not None and n.const() <= 8:
            for i in range(n.const()):
                src = [Elem(Cell(ctx.elem_at(s, P.c(i))))] if isinstance(s, Sl) else ctx.rep_at(s, P.c(i))
                if not all(isinstance(g, Elem) for g in src):
                    raise Unknown("nested repetition")
                out += [Elem(Cell(fn(g.cell.v))) for g in src]
            continue
        if not ctx.decide(C("ge", n - 1)):
            continue

        def round_(s=s, bv=bv):
            src = [Elem(Cell(ctx.elem_at(s, P.a(bv))))] if isinstance(s, Sl) else ctx.rep_at(s, P.a(bv))
            if not all(isinstance(g, Elem) for g in src):
                raise Unknown("nested repetition")
            return tuple(Elem(Cell(fn(g.cell.v))) for g in src)
        br = ctx.generic(bv, n, round_)
        if not br:
            raise Dead()
        out.append(Rep(n, bv, tuple(br)))
    return out


def seglen(ctx, segs):
    n = ZERO
    for s in segs:
        n = n + ctx.seg_len(s)
    return ctx.norm(n)


def rebuild(mach, v, **kw):
    it = mach
    v = it.ctx.expand(v)
    fs = it.prog.fields(v.ty, v.variant)
    return Agg(v.ty, v.variant, [kw.get(n, v.fields[i]) for i, (n, _) in enumerate(fs)])


@model(r"<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", r"<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<.*>>::spec_extend",
       r"std::vec::Vec::<T, A>::extend_desugared", r"std::vec::Vec::<T, A>::extend_trusted")
def m_extend(it, call, r, x):
    ctx = it.ctx
    v = ctx.vec(ctx.read(it.deref(r)))
    if isinstance(x, VecV) or isinstance(x, Sym) and ctx.is_seq(x):
        segs = list(ctx.vec(x).segs)
    else:
        b = bulk(it, x)
        if b is NotImplemented:
            if call.fn.get("helper"):
                return NotImplemented
            raise Unknown("extend with %r" % (x,))
        segs = b[0]
    v = ctx.vec(ctx.read(it.deref(r)))
    it.set_seq(r, tuple(v.segs) + tuple(segs), v.ety)
    return unit(it)


@model(r"<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def m_extend_ref(it, call, r, x):
    ctx = it.ctx
    if isinstance(x, SliceIter):
        s = ctx.slice(ctx.vec(ctx.read(x.ref)), x.lo, x.len)
    elif isinstance(x, Ref):
        s = it.seq(x)
    else:
        if call.fn.get("helper"):
            return NotImplemented
        raise Unknown("extend with %r" % (x,))
    v = ctx.vec(ctx.read(it.deref(r)))
    it.set_seq(r, tuple(v.segs) + tuple(ctx.copyval(s).segs), v.ety)
    return unit(it)


@model(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", r"<std::vec::Vec<T> as std::vec::spec_from_iter::SpecFromIter<.*>>::from_iter")
def m_from_iter(it, call, x):
    ctx = it.ctx
    ety = call.fn["args"][0]
    if isinstance(x, VecV) or isinstance(x, Sym) and ctx.is_seq(x):
        return ctx.vec(x)
    b = items(it, x)
    if b is NotImplemented:
        if call.fn.get("helper"):
            return NotImplemented
        raise Unknown("collect of %r" % (x,))
    return VecV(b[0], ety)


def refs_of(it, s, ety):
    out = []
    from .poly import atom_id
    bv = atom_id(("bv", 7))
    for g in s.segs:
        if isinstance(g, Elem):
            out.append(Elem(Cell(Ref(g.cell))))
        elif isinstance(g, Sl):
            out.append(Rep(g.len, bv, (((), (Elem(Cell(Ref(Cell(it.ctx.elem_at(g, P.a(bv)))))),)),)))
        else:
            br = []
            for c, segs in g.branches:
                if not all(isinstance(e, Elem) for e in segs):
                    raise Unknown("references into a repetition")
                br.append((c, tuple(Elem(Cell(Ref(e.cell))) for e in segs)))
            out.append(Rep(g.count, g.bv, tuple(br)))
    return VecV(out, ety)


@model(r"std::vec::Vec::<T, A>::splice")
def m_splice(it, call, r, rng, x):
    ctx = it.ctx
    v = ctx.vec(ctx.read(it.deref(r)))
    n = ctx.vlen(v)
    lo, hi = check_bounds(it, rng, n)
    if isinstance(x, VecV) or isinstance(x, Sym) and ctx.is_seq(x):
        segs = list(ctx.vec(x).segs)
    else:
        b = bulk(it, x)
        if b is NotImplemented:
            raise Unknown("splice with %r" % (x,))
        segs = b[0]
    a, rest = ctx.split(v.segs, lo)
    mid, c = ctx.split(rest, ctx.norm(hi - lo))
    it.set_seq(r, list(a) + segs + list(c), v.ety)
    return OwnIter(call.rty, VecV(mid, v.ety))


@model(r"std::vec::Vec::<T, A>::drain")
def m_drain(it, call, r, rng):
    ctx = it.ctx
    v = ctx.vec(ctx.read(it.deref(r)))
    lo, hi = check_bounds(it, rng, ctx.vlen(v))
    a, rest = ctx.split(v.segs, lo)
    mid, c = ctx.split(rest, ctx.norm(hi - lo))
    it.set_seq(r, list(a) + list(c), v.ety)
    return OwnIter(call.rty, VecV(mid, v.ety))


# ---- sequence comparison ---------------------------------------------------------------------------
@model(r"<std::vec::Vec<T, A1> as std::cmp::PartialEq<std::vec::Vec<U, A2>>>::(eq|ne)", r"core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)",
       r"std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)", r"std::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)",
       r"core::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)", r"<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)",
       r"std::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)", r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)",
       r"<str as std::cmp::PartialEq(<.*>)?>::(eq|ne)", r"<.* as core::slice::cmp::SlicePartialEq<.*>>::(not_)?equal(_same_length)?",
       r"alloc::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)")
def m_seq_eq(it, call, a, b):
    def s(x):
        ref = it.deref(x)
        v = it.ctx.read(ref)
        while isinstance(v, Ref) or isinstance(v, Sym) and it.ctx.is_ptr(v):
            ref = it.deref(v)
            v = it.ctx.read(ref)
        return it.seq(ref)
    A, B = s(a), s(b)
    eq = it.ctx.seq_eq(A, B, A.ety)
    d = call.fn["def"]
    return (not eq) if d.endswith("::ne") or "not_equal" in d else eq


@model(r"(alloc|std)::slice::<impl \[T\]>::sort", r"core::slice::<impl \[T\]>::sort_unstable")
def m_sort(it, call, r):
    """A list of known length; the comparisons are the type's own."""
    v = it.seq(r)
    n = it.ctx.norm(it.ctx.vlen(v)).const()
    if n is None:
        raise Unknown("sorting a list of unknown length")
    ordering = next(i for i, t in it.prog.types.items() if t["k"] == "adt" and t["name"] == "std::cmp::Ordering")
    out = []
    for i in range(n):
        e = it.ctx.index(v, P.c(i))
        k = len(out)
        while k > 0 and it.prog.t(ordering)["variants"][it.ctx.variant(elem_cmp(it, "cmp", v.ety, out[k - 1], e, ordering))]["name"] == "Greater":
            k -= 1
        out.insert(k, e)
    it.set_seq(r, tuple(Elem(Cell(e)) for e in out), v.ety)
    return unit(it)


@model(r"(alloc|std|core)::slice::<impl \[T\]>::sort(_unstable)?_by(_key|_cached_key)?")
def m_sort_by(it, call, r, f):
    """A list of known length; the comparisons are the caller's."""
    v = it.seq(r)
    n = it.ctx.norm(it.ctx.vlen(v)).const()
    if n is None:
        raise Unknown("sorting a list of unknown length")
    ordering = next(i for i, t in it.prog.types.items() if t["k"] == "adt" and t["name"] == "std::cmp::Ordering")
    if "_key" in call.fn["def"]:
        raise Unknown("sorting by a key")
    out = []
    for i in range(n):
        e = it.ctx.index(v, P.c(i))
        k = len(out)
        while k > 0 and it.prog.t(ordering)["variants"][it.ctx.variant(it.call_closure(f, [Ref(Cell(out[k - 1])), Ref(Cell(e))], ordering))]["name"] == "Greater":
            k -= 1
        out.insert(k, e)
    it.set_seq(r, tuple(Elem(Cell(e)) for e in out), v.ety)
    return unit(it)


@model(r"core::str::<impl str>::split_at(_checked)?")
def m_str_split_at(it, call, r, i):
    cs = chars_of(it, r)
    checked = call.fn["def"].endswith("_checked")
    tty = it.prog.t(call.rty)["variants"][it.prog.variant_index(call.rty, "Some")]["fields"][0][1] if checked else None
    try:
        k = char_at(it, cs, i)
    except Panic:
        if checked:
            return none(it, call.rty)
        raise
    pair = lambda t: Agg(t, 0, (subslice(it, r, ZERO, P.c(k)), subslice(it, r, P.c(k), P.c(len(cs)))))
    return some(it, call.rty, pair(tty)) if checked else pair(call.rty)


@model(r"std::vec::Vec::<T, A>::retain(_mut)?")
def m_retain(it, call, r, f):
    v = it.seq(r)
    n = it.ctx.norm(it.ctx.vlen(v)).const()
    if n is None:
        raise Unknown("retain on a list of unknown length")
    keep = []
    for i in range(n):
        c = Cell(it.ctx.index(v, P.c(i)))
        b = it.call_closure(f, [Ref(c)])
        if b if isinstance(b, bool) else not it.ctx.decide(C("eq", it.ctx.norm(b))) if isinstance(b, (P, Sym)) else it.ctx.decide(b):
            keep.append(c)
    it.set_seq(r, tuple(Elem(c) for c in keep), v.ety)
    return unit(it)


@model(r"core::slice::<impl \[T\]>::starts_with")
def m_starts_with(it, call, a, b):
    A, B = it.seq(a), it.seq(b)
    st = it.ctx.common_prefix(A, B, A.ety)[1]
    return st in ("both", "b")


@model(r"core::slice::<impl \[T\]>::ends_with")
def m_ends_with(it, call, a, b):
    A, B = it.seq(a), it.seq(b)
    na, nb = it.ctx.vlen(A), it.ctx.vlen(B)
    if not it.ctx.decide(C("ge", na - nb)):
        return False
    return it.ctx.seq_eq(it.ctx.slice(A, it.ctx.norm(na - nb), nb), B, A.ety)


def elem_cmp(it, name, ety, a, b, rty):
    inst = it.prog.trait_methods.get((name, ety))
    if name == "cmp" and isinstance(a, P) and isinstance(b, P):
        return it.ordering(a, b, rty)
    if inst is None:
        text = it.prog.text(ety)
        inst = next((f["id"] for f in it.prog.fns if f and f["name"].startswith("<" + text + " as std::cmp::") and f["name"].endswith(">::" + name)), None)
    if inst is None:
        raise Unknown("no %s for %s" % (name, it.prog.text(ety)))
    return it.call(inst, [Ref(Cell(a)), Ref(Cell(b))], rty)


@model(r"core::slice::cmp::<impl std::cmp::Ord for \[T\]>::cmp", r"<std::vec::Vec<T, A> as std::cmp::Ord>::cmp")
def m_seq_cmp(it, call, a, b):
    A, B = it.seq(a), it.seq(b)
    L, st, x, y = it.ctx.common_prefix(A, B, A.ety)
    vi = lambda n: Agg(call.rty, it.prog.variant_index(call.rty, n), ())
    if st == "both":
        return vi("Equal")
    if st == "a":
        return vi("Less")
    if st == "b":
        return vi("Greater")
    if isinstance(x, P):
        return it.ordering(x, y, call.rty)
    return elem_cmp(it, "std::cmp::Ord::cmp", A.ety, x, y, call.rty)


@model(r"core::slice::cmp::<impl std::cmp::PartialOrd for \[T\]>::partial_cmp", r"<std::vec::Vec<T, A1> as std::cmp::PartialOrd<std::vec::Vec<T, A2>>>::partial_cmp")
def m_seq_partial_cmp(it, call, a, b):
    A, B = it.seq(a), it.seq(b)
    L, st, x, y = it.ctx.common_prefix(A, B, A.ety)
    oty = it.prog.t(call.rty)["variants"][it.prog.variant_index(call.rty, "Some")]["fields"][0][1]
    vi = lambda n: some(it, call.rty, Agg(oty, it.prog.variant_index(oty, n), ()))
    if st == "both":
        return vi("Equal")
    if st == "a":
        return vi("Less")
    if st == "b":
        return vi("Greater")
    if isinstance(x, P):
        return some(it, call.rty, it.ordering(x, y, oty))
    return elem_cmp(it, "std::cmp::PartialOrd::partial_cmp", A.ety, x, y, call.rty)


# ---- integers ----------------------------------------------------------------------------------------
INT = r"(core|std)::num::<impl (usize|u8|u16|u32|u64|u128)>::"


@model(INT + r"checked_(add|sub|mul)")
def m_checked(it, call, a, b):
    ctx = it.ctx
    op = call.fn["def"].split("checked_")[1]
    r = {"add": a + b, "sub": a - b, "mul": a * b}[op]
    if op == "sub":
        bad = C("ge", b - a - 1)
    else:
        bad = False if ctx.max is None else C("ge", r - ctx.max - 1)
    if bad is not False and ctx.decide(bad):
        return none(it, call.rty)
    return some(it, call.rty, ctx.norm(r))


@model(INT + r"(max|min)_value")
def m_bound(it, call):
    bits = {"usize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}[re.search(r"<impl (\w+)>", call.fn["def"]).group(1)]
    return P.c(2 ** bits - 1) if call.fn["def"].endswith("max_value") else ZERO


@model(INT + r"checked_(div|rem)")
def m_checked_div(it, call, a, b):
    ctx = it.ctx
    if ctx.decide(C("eq", b)):
        return none(it, call.rty)
    q, r = ctx.divmod(a, b)
    return some(it, call.rty, q if call.fn["def"].endswith("div") else r)


@model(INT + r"pow")
def m_pow(it, call, a, n):
    r, n = P.c(1), known_number(it, n, "raising")
    for _ in range(n):
        r = it.ctx.norm(r * a)
    return r


@model(INT + r"saturating_(add|sub|mul)", r"(std|core)::intrinsics::saturating_(add|sub)")
def m_saturating(it, call, a, b):
    ctx = it.ctx
    op = call.fn["def"].split("saturating_")[1]
    if op == "sub":
        return ctx.norm(a - b) if ctx.decide(C("ge", a - b)) else ZERO
    r = ctx.norm(a + b if op == "add" else a * b)
    if ctx.max is not None and ctx.decide(C("ge", r - ctx.max - 1)):
        return P.c(ctx.max)
    return r


@model(INT + r"(wrapping|unchecked)_(add|sub|mul)", r"std::intrinsics::(wrapping|unchecked)_(add|sub|mul)")
def m_wrapping(it, call, a, b):
    ctx = it.ctx
    op = call.fn["def"].split("_")[-1]
    r = ctx.norm({"add": a + b, "sub": a - b, "mul": a * b}[op])
    if op == "sub":
        if not ctx.decide(C("ge", r)):
            return ctx.norm(r + (1 << 64))
    elif ctx.max is not None and ctx.decide(C("ge", r - ctx.max - 1)):
        if op == "mul":
            raise Unknown("wrapping multiplication")
        return ctx.norm(r - (1 << 64))
    return r


@model(INT + r"overflowing_(add|sub|mul)")
def m_overflowing(it, call, a, b):
    return it.binop({"add": "Add", "sub": "Sub", "mul": "Mul"}[call.fn["def"].split("_")[-1]], a, b, call.rty, True)


@model(INT + r"abs_diff")
def m_abs_diff(it, call, a, b):
    return it.ctx.norm(a - b) if it.ctx.decide(C("ge", a - b)) else it.ctx.norm(b - a)


@model(INT + r"(div_euclid|rem_euclid)")
def m_euclid(it, call, a, b):
    if it.ctx.decide(C("eq", b)):
        it.panic("division by zero")
    q, r = it.ctx.divmod(a, b)
    return q if "div" in call.fn["def"] else r


@model(INT + r"div_ceil")
def m_div_ceil(it, call, a, b):
    if it.ctx.decide(C("eq", b)):
        it.panic("division by zero")
    q, r = it.ctx.divmod(a, b)
    return it.ctx.norm(q + 1) if it.ctx.decide(C("ge", r - 1)) else q


@model(INT + r"is_multiple_of")
def m_is_multiple(it, call, a, b):
    if it.ctx.decide(C("eq", b)):
        return C("eq", a)
    return C("eq", it.ctx.divmod(a, b)[1])


@model(r"(std|core)::cmp::impls::<impl std::cmp::Ord for (usize|u8|u16|u32|u64|char)>::(cmp|min|max|clamp)",
       r"std::cmp::(min|max)", r"std::cmp::Ord::(min|max)")
def m_ord(it, call, a, b, *c):
    ctx = it.ctx
    d = call.fn["def"].split("::")[-1]
    if d == "cmp":
        return it.ordering(ctx.read(it.deref(a)), ctx.read(it.deref(b)), call.rty)
    if not isinstance(a, P):
        if call.fn.get("body") is None:
            raise Unknown("min/max of %r" % (a,))
        return NotImplemented
    if d == "min":
        return a if ctx.decide(C("ge", b - a)) else b
    if d == "max":
        return a if ctx.decide(C("ge", a - b - 1)) else b
    if d == "clamp" and c:
        if not ctx.decide(C("ge", c[0] - b)):
            raise Panic("clamping to an empty range", None)
        return b if ctx.decide(C("ge", b - a - 1)) else c[0] if ctx.decide(C("ge", a - c[0] - 1)) else a
    raise Unknown(d)


@model(r"(std|core)::cmp::impls::<impl std::cmp::PartialOrd for (usize|u8|u16|u32|u64|char|bool)>::(partial_cmp|lt|le|gt|ge)")
def m_partial_ord(it, call, a, b):
    x, y = it.ctx.read(it.deref(a)), it.ctx.read(it.deref(b))
    d = call.fn["def"].split("::")[-1]
    if d == "partial_cmp":
        oty = it.prog.t(call.rty)["variants"][it.prog.variant_index(call.rty, "Some")]["fields"][0][1]
        return some(it, call.rty, it.ordering(x, y, oty))
    return it.binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[d], x, y, None, False)


@model(r"(std|core)::cmp::impls::<impl std::cmp::PartialEq for (usize|u8|u16|u32|u64|char|bool)>::(eq|ne)")
def m_partial_eq(it, call, a, b):
    x, y = it.ctx.read(it.deref(a)), it.ctx.read(it.deref(b))
    return it.binop("Eq" if call.fn["def"].endswith("eq") else "Ne", x, y, None, False)


@model(r"std::intrinsics::discriminant_value", r"std::mem::discriminant")
def m_discr(it, call, r):
    x = it.ctx.read(it.deref(r))
    i = it.ctx.variant(x)
    from .interp import discr
    return P.c(discr(it.prog.t(x.ty), i))


@model(r"std::intrinsics::integer_(min|max)")
def m_int_minmax(it, call, a, b):
    le = it.ctx.decide(C("ge", b - a))
    return a if le == call.fn["def"].endswith("min") else b


@model(r"std::intrinsics::size_of_val", r"std::mem::size_of_val", r"std::mem::align_of_val", r"std::intrinsics::align_of_val")
def m_size_of_val(it, call, *a):
    return ONE


@model(r"std::intrinsics::three_way_compare")
def m_three_way(it, call, a, b):
    return it.ordering(a, b, call.rty)


@model(r"std::mem::size_of", r"std::intrinsics::size_of")
def m_size_of(it, call):
    return P.c(1)


@model(r"<std::cmp::Ordering as std::cmp::PartialEq>::(eq|ne)")
def m_ordering_eq(it, call, a, b):
    x, y = it.ctx.read(it.deref(a)), it.ctx.read(it.deref(b))
    e = it.ctx.variant(x) == it.ctx.variant(y)
    return e if call.fn["def"].endswith("eq") else not e


@model(r"std::cmp::Ordering::is_(eq|ne|lt|le|gt|ge)")
def m_ordering_is(it, call, o):
    n = it.prog.t(o.ty)["variants"][it.ctx.variant(o)]["name"]
    return {"eq": n == "Equal", "ne": n != "Equal", "lt": n == "Less", "le": n != "Greater", "gt": n == "Greater", "ge": n != "Less"}[call.fn["def"][-2:]]


@model(r"std::cmp::Ordering::reverse")
def m_ordering_reverse(it, call, o):
    n = it.prog.t(o.ty)["variants"][it.ctx.variant(o)]["name"]
    return Agg(o.ty, it.prog.variant_index(o.ty, {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[n]), ())


# ---- ranges of integers --------------------------------------------------------------------------------
@model(r"<std::ops::Range<T> as std::iter::range::RangeIteratorImpl>::spec_next", r"<std::ops::Range<usize> as std::iter::range::RangeIteratorImpl>::spec_next",
       r"std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def m_range_next(it, call, r):
    ctx = it.ctx
    ref = it.deref(r)
    v = ctx.read(ref)
    s, e = ctx.get(v, "start"), ctx.get(v, "end")
    if not isinstance(s, P):
        return NotImplemented
    if not ctx.decide(C("ge", e - s - 1)):
        return none(it, call.rty)
    ctx.write(ref, rebuild(it, v, start=ctx.norm(s + 1)))
    return some(it, call.rty, s)


@model(r"<std::ops::Range<T> as std::iter::range::RangeIteratorImpl>::spec_next_back", r"std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def m_range_next_back(it, call, r):
    ctx = it.ctx
    ref = it.deref(r)
    v = ctx.read(ref)
    s, e = ctx.get(v, "start"), ctx.get(v, "end")
    if not isinstance(s, P):
        return NotImplemented
    if not ctx.decide(C("ge", e - s - 1)):
        return none(it, call.rty)
    n = ctx.norm(e - 1)
    ctx.write(ref, rebuild(it, v, end=n))
    return some(it, call.rty, n)


# ---- printing ----------------------------------------------------------------------------------------
class ArgsV:
    """fmt::Arguments: pieces ("lit", text) or ("arg", argument value, flags)."""
    def __init__(self, pieces):
        self.pieces = pieces


class ArgV:
    def __init__(self, kind, ref, ty):
        self.kind = kind
        self.ref = ref
        self.ty = ty


@model(r"core::fmt::rt::Argument::<'_>::new_(\w+)", r"std::fmt::rt::Argument::<'_>::new_(\w+)", r"core::fmt::rt::Argument::<'a>::new_(\w+)")
def m_arg(it, call, r):
    kind = call.fn["def"].split("new_")[-1]
    ty = [a for a in call.fn["args"] if isinstance(a, int)][-1]
    return ArgV(kind, r, ty)


@model(r"std::fmt::Arguments::<'a>::from_str", r"std::fmt::Arguments::<'a>::new_const", r"std::fmt::Arguments::<'a>::from_str_nonconst")
def m_args_str(it, call, s):
    v = it.seq(s)
    t = text_of(it, v)
    if t is None:
        raise Unknown("format text")
    return ArgsV([("lit", t)])


@model(r"std::fmt::Arguments::<'a>::new")
def m_args_new(it, call, tpl, args):
    tv = it.seq(tpl)
    by = []
    for s in tv.segs:
        if not isinstance(s, Elem) or s.cell.v.const() is None:
            raise Unknown("format template")
        by.append(s.cell.v.const())
    av = []
    for s in it.seq(args).segs:
        if not isinstance(s, Elem):
            raise Unknown("format arguments")
        av.append(s.cell.v)
    out, i, nxt = [], 0, 0
    while True:
        n = by[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", bytes(by[i:i + n]).decode("utf-8")))
            i += n
        elif n == 0x80:
            ln = by[i] | by[i + 1] << 8
            i += 2
            out.append(("lit", bytes(by[i:i + ln]).decode("utf-8")))
            i += ln
        else:
            flags = ()
            if n & 1:
                flags += ("flags", tuple(by[i:i + 4]))
                i += 4
            if n & 2:
                flags += ("width", tuple(by[i:i + 2]))
                i += 2
            if n & 4:
                flags += ("precision", tuple(by[i:i + 2]))
                i += 2
            if n & 8:
                nxt = by[i] | by[i + 1] << 8
                i += 2
            out.append(("arg", av[nxt], flags))
            nxt += 1
    return ArgsV(out)


class FmtV:
    """std::fmt::Formatter: what has been written so far."""
    def __init__(self, segs):
        self.segs = tuple(segs)


def fmt_write(it, f, segs):
    ref = it.deref(f)
    v = it.ctx.read(ref)
    if isinstance(v, FmtV):
        it.ctx.write(ref, FmtV(v.segs + tuple(segs)))
    elif it.ctx.is_seq(v):
        v = it.ctx.vec(v)
        it.ctx.write(ref, VecV(v.segs + tuple(segs), v.ety))
    else:
        raise Unknown("formatter %r" % (v,))


def hex_text(it, prog, kind, ty, v, flags):
    """A known number in hexadecimal."""
    while prog.t(ty)["k"] == "ref":
        ty = prog.t(ty)["to"]
        v = it.ctx.read(it.deref(v))
    if prog.t(ty)["k"] != "uint" or not isinstance(v, P) or v.const() is None:
        return None
    opts = dict(zip(flags[::2], flags[1::2]))
    bits = int.from_bytes(bytes(opts.get("flags", (32, 0, 0, 0))), "little")
    width = int.from_bytes(bytes(opts.get("width", (0, 0))), "little")
    if opts.keys() - {"flags", "width"}:
        return None
    s = ("%x" if kind == "lower_hex" else "%X") % v.const()
    pre = "0x" if bits >> 23 & 1 else ""
    if bits >> 24 & 1:
        return pre + s.rjust(width - len(pre), "0")
    align = bits >> 29 & 3
    if len(pre + s) < width and (align not in (1, 3) or bits & 0x1fffff != 32):
        return None
    return (pre + s).rjust(width)


def display(it, f, kind, ty, ref, flags=()):
    """Append the Display output of the value behind ref (of type ty)."""
    prog = it.prog
    t = prog.t(ty)
    v = it.ctx.read(it.deref(ref)) if not (isinstance(ref, Ref) and ref.rng is not None) else None
    if kind in ("lower_hex", "upper_hex"):
        txt = hex_text(it, prog, kind, ty, v, flags)
        if txt is not None:
            fmt_write(it, f, it.string(txt).segs)
            return
    if flags:
        fmt_write(it, f, [Elem(Cell(Disp(("flags", kind, flags, ty), v)))])
        return
    while t["k"] == "ref":
        ref = it.deref(v)
        ty = t["to"]
        t = prog.t(ty)
        v = it.ctx.read(ref) if ref.rng is None else None
    if kind != "display":
        fmt_write(it, f, [Elem(Cell(Disp((kind, t["text"]), v)))])
        return
    if t["k"] == "str" or t["k"] == "adt" and t["name"] == "std::string::String":
        fmt_write(it, f, it.seq(ref).segs)
        return
    if t["k"] == "char":
        fmt_write(it, f, [Elem(Cell(v))])
        return
    if t["k"] == "uint":
        c = v.const() if isinstance(v, P) else None
        if c is not None:
            fmt_write(it, f, it.string(str(c)).segs)
        else:
            fmt_write(it, f, [Elem(Cell(Disp("uint", v)))])
        return
    if it.opaque_display is not None and it.opaque_display(ty, v):
        fmt_write(it, f, [Elem(Cell(Disp(t["text"], v)))])
        return
    inst = prog.trait_methods.get(("std::fmt::Display::fmt", ty))
    if inst is None:
        raise Unknown("no Display for " + t["text"])
    r = it.call(inst, [ref, f], prog.t_result_unit())
    if not it.ctx.is_variant(r, "Ok"):
        raise Unknown("Display failing")


@model(r"std::fmt::Formatter::<'a>::write_fmt", r"std::fmt::Write::write_fmt", r"<std::string::String as std::fmt::Write>::write_fmt", r"std::fmt::write",
       r"<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def m_write_fmt(it, call, f, args):
    if not isinstance(args, ArgsV):
        raise Unknown("format arguments")
    for p in args.pieces:
        if p[0] == "lit":
            fmt_write(it, f, it.string(p[1]).segs)
        else:
            a = p[1]
            if not isinstance(a, ArgV):
                raise Unknown("format argument")
            display(it, f, a.kind, a.ty, a.ref, p[2])
    return ok_unit(it, call.rty)


@model(r"std::fmt::Formatter::<'a>::(write_str|pad)", r"<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", r"<std::string::String as std::fmt::Write>::write_str")
def m_write_str(it, call, f, s):
    fmt_write(it, f, it.seq(s).segs)
    return ok_unit(it, call.rty)


@model(r"std::fmt::Formatter::<'a>::write_char", r"<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", r"<std::string::String as std::fmt::Write>::write_char",
       r"std::fmt::Write::write_char")
def m_write_char(it, call, f, c):
    fmt_write(it, f, [Elem(Cell(c))])
    return ok_unit(it, call.rty)


@model(r"<(str|char|std::string::String) as std::fmt::Display>::fmt", r"core::fmt::num::imp::<impl std::fmt::Display for (usize|u8|u16|u32|u64)>::fmt",
       r"std::fmt::num::imp::<impl std::fmt::Display for (usize|u8|u16|u32|u64)>::fmt", r"core::fmt::num::<impl std::fmt::Display for .*>::fmt")
def m_display_prim(it, call, r, f):
    d = call.fn["def"]
    ref = it.deref(r)
    if "str" in d.split(" as ")[0].lower():
        fmt_write(it, f, it.seq(ref).segs)
    elif d.startswith("<char"):
        fmt_write(it, f, [Elem(Cell(it.ctx.read(ref)))])
    else:
        v = it.ctx.read(ref)
        c = v.const()
        fmt_write(it, f, it.string(str(c)).segs if c is not None else [Elem(Cell(Disp("uint", v)))])
    return ok_unit(it, call.rty)


@model(r"std::fmt::Formatter::<'a>::alternate")
def m_alternate(it, call, f):
    return False


@model(r"std::fmt::format", r"std::fmt::format::format_inner")
def m_format(it, call, args):
    c = Cell(VecV((), it.prog.char))
    m_write_fmt_into(it, Ref(c, (), None, True), args)
    return c.v


def m_write_fmt_into(it, f, args):
    for p in args.pieces:
        if p[0] == "lit":
            fmt_write(it, f, it.string(p[1]).segs)
        else:
            display(it, f, p[1].kind, p[1].ty, p[1].ref, p[2])


# ---- maps: keys and values alternate; keys must be concrete -----------------------------------------
MAP = r"std::collections::(HashMap|BTreeMap)::<.*>::"


def concrete_key(it, v):
    """A hashable stand-in for a value without unknowns."""
    ctx = it.ctx
    if isinstance(v, (Ref, BoxV)):
        return concrete_key(it, ctx.read(it.deref(v)) if not (isinstance(v, Ref) and v.rng is not None) else it.seq(v))
    if isinstance(v, bool):
        return v
    if isinstance(v, P):
        c = ctx.norm(v).const()
        if c is None:
            raise Unknown("map key that is not a constant")
        return c
    if isinstance(v, VecV):
        if not all(isinstance(s, Elem) for s in v.segs):
            raise Unknown("map key of unknown length")
        return ("seq",) + tuple(concrete_key(it, s.cell.v) for s in v.segs)
    if isinstance(v, Agg):
        return ("agg", v.variant) + tuple(concrete_key(it, f) for f in v.fields)
    raise Unknown("map key that is not a constant")


def map_find(it, r, k):
    """(segments of the map, index of the key or None)."""
    segs = it.ctx.vec(it.ctx.read(it.deref(r))).segs
    key = concrete_key(it, k)
    for i in range(0, len(segs), 2):
        if not isinstance(segs[i], Elem):
            raise Unknown("map of the input")
        if concrete_key(it, segs[i].cell.v) == key:
            return segs, i
    return segs, None


@model(MAP + r"(new|with_capacity|new_in)", r"<std::collections::(HashMap|BTreeMap)<.*> as std::default::Default>::default")
def m_map_new(it, call, *a):
    return VecV((), None)


@model(MAP + r"insert")
def m_map_insert(it, call, r, k, v):
    segs, i = map_find(it, r, k)
    if i is None:
        it.set_seq(r, segs + (Elem(Cell(k)), Elem(Cell(v))), None)
        return none(it, call.rty)
    old = segs[i + 1].cell.v
    it.set_seq(r, segs[:i + 1] + (Elem(Cell(v)),) + segs[i + 2:], None)
    return some(it, call.rty, old)


@model(MAP + r"remove")
def m_map_remove(it, call, r, k):
    segs, i = map_find(it, r, k)
    if i is None:
        return none(it, call.rty)
    it.set_seq(r, segs[:i] + segs[i + 2:], None)
    return some(it, call.rty, segs[i + 1].cell.v)


@model(MAP + r"get(_mut)?")
def m_map_get(it, call, r, k):
    segs, i = map_find(it, r, k)
    if i is None:
        return none(it, call.rty)
    return some(it, call.rty, Ref(segs[i + 1].cell, (), None, True))


@model(MAP + r"contains_key")
def m_map_contains(it, call, r, k):
    return map_find(it, r, k)[1] is not None


@model(r"<std::collections::(HashMap|BTreeMap)<.*> as std::ops::Index<.*>>::index")
def m_map_index(it, call, r, k):
    segs, i = map_find(it, r, k)
    if i is None:
        it.panic("no entry found for key")
    return Ref(segs[i + 1].cell, (), None, False)


@model(MAP + r"len")
def m_map_len(it, call, r):
    return P.c(len(map_find(it, r, ZERO)[0]) // 2)


@model(MAP + r"is_empty")
def m_map_is_empty(it, call, r):
    return not map_find(it, r, ZERO)[0]


# ---- characters ------------------------------------------------------------------------------------
@model(r"unicode_ident::is_xid_(start|continue)")
def m_xid(it, call, c):
    which = call.fn["def"].rsplit("_", 1)[1]
    k = it.ctx.norm(c).const()
    if k is None:
        for lo, hi, yes in ((65, 90, True), (97, 122, True), (0, 47, False), (48, 57, which != "start")):
            if it.ctx.implied(C("ge", c - lo)) and it.ctx.implied(C("ge", P.c(hi) - c)):
                return yes
        return C("ge", it.ctx.atom(("bool", ("xid", which, it.ctx.norm(c)))) - 1)
    ch = chr(k)
    return ch != "_" and ch.isidentifier() if which == "start" else ("a" + ch).isidentifier()


@model(r"std::ptr::(const|mut)_ptr::<impl \*(const|mut) .*>::cast(_mut|_const)?")
def m_ptr_cast(it, call, p):
    return p


@model(r"<T as std::string::ToString>::to_string")
def m_to_string(it, call, r):
    c = Cell(VecV((), it.prog.char))
    display(it, Ref(c, (), None, True), "display", call.fn["args"][0], r)
    return it.ctx.copyval(c.v)
