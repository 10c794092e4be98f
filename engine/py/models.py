"""Transfer functions for library calls: what the analysis knows about std (and little else).
Everything not listed is uninterpreted: pure std accessors become terms, the rest become effects."""
from terms import *
import re

G = {}


def bind(g):
    G.update(g)


class _Pure:
    TYPES = {"str", "String", "char", "slice", "Path", "PathBuf", "OsStr", "OsString", "Option", "Result", "Ordering",
             "NonZero", "Cow", "Vec", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "u8", "u16", "u32", "u64", "usize", "i32", "i64",
             "isize", "bool", "Duration", "Ancestors", "Components", "Component", "Chars", "Lines", "Url", "Rev", "Split", "Entry",
             "Arguments", "Argument", "Index", "PartialEq", "PartialOrd", "Ord", "Iterator", "DoubleEndedIterator", "ExactSizeIterator",
             "Peekable", "Value", "Map", "Number", "Any", "TypeId", "Wrapping", "ToString", "Hash", "BitAnd", "BitOr", "BitXor", "Add",
             "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "Neg", "Not", "AsRef", "Utf8Error", "Range", "RangeInclusive", "RangeBounds"}
    NOT = {"Path::is_file", "Path::is_dir", "Path::exists", "Path::metadata", "Path::read_dir", "Path::canonicalize",
           "Path::symlink_metadata", "Path::try_exists", "Path::is_symlink", "Iterator::for_each", "Url::to_file_path_x"}

    def __contains__(self, sh):
        if sh in self.NOT or sh.startswith(("Entry::or_", "Entry::and_modify", "Entry::insert")):
            return False
        return sh.split("::")[0] in self.TYPES or sh in PURE_EXTRA


PURE_EXTRA = {"fmt::format", "memmem::find", "Finder::find", "Finder::new", "Colorize::underline", "Colorize::bold", "iter::empty", "iter::once",
              "mem::size_of", "type_name", "Gitignore::matched", "Gitignore::matched_path_or_any_parents"}
PURE = _Pure()
PURE_LAST = set()

TRANSPARENT = {
    "ToOwned::to_owned", "AsRef::as_ref", "Borrow::borrow", "Deref::deref", "AsMut::as_mut",
    "String::as_str", "String::as_mut_str", "PathBuf::as_path", "Path::to_path_buf", "Path::as_os_str", "Path::new", "OsStr::new", "Box::new", "Arc::new", "Rc::new",
    "Arc::clone", "Rc::clone", "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::cloned", "Option::copied",
    "Result::as_ref", "Result::as_mut", "Result::as_deref", "Result::cloned", "Result::copied",
    "Vec::as_slice", "Vec::as_mut_slice", "Vec::into_boxed_slice", "slice::to_vec", "slice::into_vec", "slice::iter", "slice::iter_mut", "slice::as_ref", "hint::must_use", "__private::must_use",
    "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Iterator::fuse", "IntoIterator::into_iter", "HashMap::iter_x", "Option::iter_x", "Cow::into_owned", "Cow::to_mut_x",
    "PathBuf::into_os_string", "OsString::as_os_str", "Path::display", "OsStr::to_os_string", "Display::display_x", "Pin::new_unchecked", "Pin::new", "Pin::get_mut", "Pin::as_mut",
    "IntoFuture::into_future", "future::get_context", "box::into_inner", "String::into_boxed_str", "str::to_owned", "str::to_string_x", "str::into_string", "String::as_ref",
    "String::clone", "Vec::leak", "Iterator::into_iter", "BorrowMut::borrow_mut", "Vec::iter_x", "NonZero::get", "hint::black_box", "convert::identity", "ManuallyDrop::new",
    "DirEntry::into_path_x", "Chars::as_str_x", "Option::as_slice_x", "array::as_slice", "array::iter", "boxed::box_assume_init_into_vec_unsafe_x", "Instrument::instrument", "LocalKey::with_x",
    "str::as_ref", "Path::as_ref", "VecDeque::iter", "HashSet::iter", "BTreeSet::iter", "VecDeque::iter_mut", "Box::into_inner", "Box::pin", "String::into_string_x", "Box::from",
    "Iterator::peekable_x", "PathBuf::into_boxed_path", "PathBuf::clone", "Cow::as_ref", "Box::as_ref", "String::leak",
}
DISPLAY_TRANSPARENT = {"str", "String", "alloc::string::String", "std::path::Display"}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def d(I, st, a):
    return I.deref(a, st)


# ---- syntax nodes ------------------------------------------------------------------------------

@model("AstNode::cast_ref")
def _cast_ref(I, st, a, info):
    """the same as `cast`; read through only where the caller asks for the kinds of nodes"""
    ty = info["targs"][0] if info["targs"] else None
    fn = I.prog.resolve_trait("biome_rowan::AstNode", "cast", ty, f"<{ty} as biome_rowan::AstNode>") if ty and getattr(I, "kinds", False) else None
    if not fn:
        return None
    return I.call_value(mk("fn", fn, (), None, None, None, None, False), [d(I, st, a[0])], st, info["depth"], info["span"])


# ---- clone / conversions -----------------------------------------------------------------------

@model("Clone::clone")
def _clone(I, st, a, info):
    return [(st, d(I, st, a[0]))]


STRINGY = {"str", "alloc::string::String", "std::path::PathBuf", "std::path::Path", "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr",
           "alloc::borrow::Cow", "alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc"}


def conv(I, st, v, src, dst):
    h = G["ty_head"]
    s, t = h(src), h(dst)
    if s == t or (s in STRINGY and t in STRINGY):
        return [(st, v)]
    if t in ("anyhow::Error",):
        return [(st, v)]
    if t in ("core::option::Option",):
        return [(st, Some(v))]
    ints = INTR
    if s in ints and t in ints:
        return [(st, v)]
    if t in ("alloc::vec::Vec", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet"):
        return [(st, v)]
    return [(st, call("From<%s>" % t.split("::")[-1], v))]


@model("From::from")
def _from(I, st, a, info):
    if len(info["targs"]) < 2:
        return [(st, d(I, st, a[0]))]
    return conv(I, st, d(I, st, a[0]), info["targs"][1], info["targs"][0])


@model("Into::into")
def _into(I, st, a, info):
    if len(info["targs"]) < 2:
        return [(st, d(I, st, a[0]))]
    return conv(I, st, d(I, st, a[0]), info["targs"][0], info["targs"][1])


INTR = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i8": (-128, 127),
        "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "u128": (0, 2**128), "i128": (-2**127, 2**127)}


def nonzero_inner(t):
    import re
    m = re.search(r"NonZero(?:<([ui]\w+)>|([UI]\d+))", t or "")
    return m and (m[1] or m[2].lower())


def try_conv(I, st, v, src, dst):
    src, dst = src or "", dst or ""
    nz = nonzero_inner(dst)
    if nz and not nonzero_inner(src):
        lo, hi = INTR.get(nz, (0, INF))
        rng = ("i", ((max(1, lo), hi),))
    elif dst in INTR:
        lo, hi = INTR[dst]
        rng = ("i", ((lo, hi),))
    else:
        return None
    if src in INTR and nz is None:
        slo, shi = INTR[src]
        if slo >= lo and shi <= hi:
            return [(st, Ok(v))]
    res = []
    for s, ok in I.two(st, v, rng):
        res.append((s, Ok(v) if ok else Err(call("TryFromIntError"))))
    return res


@model("TryFrom::try_from")
def _try_from(I, st, a, info):
    t = info["targs"]
    v = d(I, st, a[0])
    r = try_conv(I, st, v, t[1] if len(t) > 1 else None, t[0] if t else None)
    if r is None:
        g = G["ty_head"](t[0]).split("::")[-1] if t else "?"
        if len(t) > 1 and t[0] == t[1]:
            return [(st, Ok(v))]
        return [(st, call("TryFrom<%s>" % g, v))]
    return r


@model("TryInto::try_into")
def _try_into(I, st, a, info):
    t = info["targs"]
    v = d(I, st, a[0])
    r = try_conv(I, st, v, t[0] if t else None, t[1] if len(t) > 1 else None)
    if r is None:
        g = G["ty_head"](t[1]).split("::")[-1] if len(t) > 1 else "?"
        return [(st, call("TryFrom<%s>" % g, v))]
    return r


@model("NonZero::new")
def _nz(I, st, a, info):
    v = d(I, st, a[0])
    return [(s, NONE if z else Some(v)) for s, z in I.two(st, v, ("i", ((0, 0),)))]


@model("NonZero::new_unchecked")
def _nzu(I, st, a, info):
    return [(st, d(I, st, a[0]))]


@model("str::parse", "FromStr::from_str")
def _parse(I, st, a, info):
    t = info["targs"][0] if info["targs"] else "?"
    h = G["ty_head"](t)
    if info["short"] == "str::parse":
        r = I.prog.resolve_trait("core::str::traits::FromStr", "from_str", G["norm_ty"](t))
        if r:
            return I.exec_fn(I.prog.fn(r), a, st, info["depth"] + 1, {})
    if h in STRINGY:
        return [(st, Ok(d(I, st, a[0])))]
    return [(st, call("parse<%s>" % h.split("::")[-1], d(I, st, a[0])))]


def default_of(I, ty, st, info):
    t = G["norm_ty"](ty or "")
    h = G["ty_head"](t)
    last = h.split("::")[-1]
    if last in ("Vec", "VecDeque", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "FxHashMap", "FxHashSet"):
        return [(st, mk("arr", ()))]
    if last in ("String", "PathBuf", "str", "OsString"):
        return [(st, Str(""))]
    if last == "Option":
        return [(st, NONE)]
    if h == "bool" or h in INTR:
        return [(st, Int(0))]
    if t == "()":
        return [(st, UNIT)]
    r = I.prog.resolve_trait("core::default::Default", "default", t)
    if r and I.prog.fn(r):
        return I.exec_fn(I.prog.fn(r), [], st, info["depth"] + 1, {})
    return [(st, call("default<%s>" % last))]


@model("Default::default")
def _default(I, st, a, info):
    return default_of(I, info["targs"][0] if info["targs"] else info["dty"], st, info)


# ---- Option / Result ---------------------------------------------------------------------------

def opt(I, st, v):
    v = d(I, st, v)
    return [(s, x == "Some", payload(v, "Some", "0") if x == "Some" else None) for s, x in I.split(st, v, OPT, ("Some", "None"))]


def resu(I, st, v):
    v = d(I, st, v)
    return [(s, x == "Ok", payload(v, x, "0")) for s, x in I.split(st, v, RES, ("Ok", "Err"))]


def cv(I, f, args, s, info):
    return I.call_value(f, args, s, info["depth"], info["span"])


@model("Option::map")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += [(s2, v if v is G["SKIP"] else Some(v)) for s2, v in cv(I, a[1], [p], s, info)] if some else [(s, NONE)]
    return r


@model("Option::and_then")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if some else [(s, NONE)]
    return r


@model("Option::inspect")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += [(s2, Some(p)) for s2, _ in cv(I, a[1], [p], s, info)] if some else [(s, NONE)]
    return r


@model("Option::map_or")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += cv(I, a[2], [p], s, info) if some else [(s, a[1])]
    return r


@model("Option::map_or_else")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += cv(I, a[2], [p], s, info) if some else cv(I, a[1], [], s, info)
    return r


@model("Option::map_or_default")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if some else default_of(I, info["dty"], s, info)
    return r


@model("Option::is_some_and")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if some else [(s, FALSE)]
    return r


@model("Option::is_none_or")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if some else [(s, TRUE)]
    return r


@model("Option::is_some")
def _(I, st, a, info):
    return [(s, TRUE if some else FALSE) for s, some, p in opt(I, st, a[0])]


@model("Option::is_none")
def _(I, st, a, info):
    return [(s, FALSE if some else TRUE) for s, some, p in opt(I, st, a[0])]


@model("Option::unwrap_or")
def _(I, st, a, info):
    return [(s, p if some else a[1]) for s, some, p in opt(I, st, a[0])]


@model("Option::unwrap_or_else")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += [(s, p)] if some else cv(I, a[1], [], s, info)
    return r


def opt_arg_ty(info):
    t = info["targs"]
    return t[0] if t else info["dty"]


@model("Option::unwrap_or_default")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += [(s, p)] if some else default_of(I, opt_arg_ty(info), s, info)
    return r


@model("Option::unwrap", "Option::expect")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        if some:
            r.append((s, p))
        else:
            I.panics.append((s, info["span"]))
    return r


@model("Option::ok_or")
def _(I, st, a, info):
    return [(s, Ok(p) if some else Err(a[1])) for s, some, p in opt(I, st, a[0])]


@model("Option::ok_or_else")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += [(s, Ok(p))] if some else [(s2, Err(v)) for s2, v in cv(I, a[1], [], s, info)]
    return r


@model("Context::context", "Context::with_context")
def _(I, st, a, info):
    """anyhow: success is kept, failure stays a failure"""
    v = d(I, st, a[0])
    ty = info["targs"][0] if info["targs"] else ""
    if v.tag == "adt" and v.a[0] == OPT or "Option<" in ty[:30]:
        return [(s, Ok(p) if some else Err(call("context"))) for s, some, p in opt(I, st, v)]
    return [(s, Ok(p) if ok else Err(p)) for s, ok, p in resu(I, st, v)]


@model("Option::or")
def _(I, st, a, info):
    return [(s, Some(p) if some else d(I, s, a[1])) for s, some, p in opt(I, st, a[0])]


@model("Option::or_else")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        r += [(s, Some(p))] if some else cv(I, a[1], [], s, info)
    return r


@model("Option::and")
def _(I, st, a, info):
    return [(s, d(I, s, a[1]) if some else NONE) for s, some, p in opt(I, st, a[0])]


@model("Option::filter")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        if not some:
            r.append((s, NONE))
            continue
        for s2, v in cv(I, a[1], [p], s, info):
            r += [(s3, Some(p) if b else NONE) for s3, b in I.decide(d(I, s2, v), s2)]
    return r


@model("Option::flatten")
def _(I, st, a, info):
    return [(s, d(I, s, p) if some else NONE) for s, some, p in opt(I, st, a[0])]


@model("Option::zip")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        if not some:
            r.append((s, NONE))
            continue
        r += [(s2, Some(tup(p, q)) if so else NONE) for s2, so, q in opt(I, s, a[1])]
    return r


@model("Option::transpose")
def _(I, st, a, info):
    r = []
    for s, some, p in opt(I, st, a[0]):
        if not some:
            r.append((s, Ok(NONE)))
        else:
            r += [(s2, Ok(Some(q)) if ok else Err(q)) for s2, ok, q in resu(I, s, p)]
    return r


@model("Option::take")
def _(I, st, a, info):
    v = d(I, st, a[0])
    st = st.fork()
    if a[0].tag == "mref":
        I.write_loc(st, a[0].a[0], a[0].a[1], NONE)
    return [(st, v)]


@model("Option::replace", "Option::insert")
def _(I, st, a, info):
    v = d(I, st, a[0])
    st = st.fork()
    if a[0].tag == "mref":
        I.write_loc(st, a[0].a[0], a[0].a[1], Some(a[1]))
    return [(st, v if info["short"].endswith("replace") else a[1])]


@model("Option::get_or_insert")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    r = []
    for s, some, p in opt(I, st, a[0]):
        s = s.fork()
        if not some:
            I.write_loc(s, a[0].a[0], a[0].a[1], Some(a[1]))
        r.append((s, mk("mref", a[0].a[0], a[0].a[1] + (("v", "Some", "0"),))))
    return r


@model("Option::get_or_insert_with")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    r = []
    for s, some, p in opt(I, st, a[0]):
        if some:
            r.append((s, mk("mref", a[0].a[0], a[0].a[1] + (("v", "Some", "0"),))))
        else:
            for s2, v in cv(I, a[1], [], s, info):
                s2 = s2.fork()
                I.write_loc(s2, a[0].a[0], a[0].a[1], Some(v))
                r.append((s2, mk("mref", a[0].a[0], a[0].a[1] + (("v", "Some", "0"),))))
    return r


@model("Result::map")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += [(s2, Ok(v)) for s2, v in cv(I, a[1], [p], s, info)] if ok else [(s, Err(p))]
    return r


@model("Result::map_err")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += [(s2, Err(v)) for s2, v in cv(I, a[1], [p], s, info)] if not ok else [(s, Ok(p))]
    return r


@model("Result::and_then")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if ok else [(s, Err(p))]
    return r


@model("Result::or_else")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if not ok else [(s, Ok(p))]
    return r


@model("Result::inspect", "Result::inspect_err")
def _(I, st, a, info):
    want = info["short"] == "Result::inspect"
    r = []
    for s, ok, p in resu(I, st, a[0]):
        v = Ok(p) if ok else Err(p)
        r += [(s2, v) for s2, _ in cv(I, a[1], [p], s, info)] if ok == want else [(s, v)]
    return r


@model("Result::and")
def _(I, st, a, info):
    return [(s, d(I, s, a[1]) if ok else Err(p)) for s, ok, p in resu(I, st, a[0])]


@model("Result::or")
def _(I, st, a, info):
    return [(s, Ok(p) if ok else d(I, s, a[1])) for s, ok, p in resu(I, st, a[0])]


@model("Result::unwrap", "Result::expect")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        if ok:
            r.append((s, p))
        else:
            I.panics.append((s, info["span"]))
    return r


@model("Result::unwrap_err", "Result::expect_err")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        if not ok:
            r.append((s, p))
        else:
            I.panics.append((s, info["span"]))
    return r


@model("Result::unwrap_or")
def _(I, st, a, info):
    return [(s, p if ok else a[1]) for s, ok, p in resu(I, st, a[0])]


@model("Result::unwrap_or_else")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += [(s, p)] if ok else cv(I, a[1], [p], s, info)
    return r


@model("Result::unwrap_or_default")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += [(s, p)] if ok else default_of(I, opt_arg_ty(info), s, info)
    return r


@model("Result::is_ok")
def _(I, st, a, info):
    return [(s, TRUE if ok else FALSE) for s, ok, p in resu(I, st, a[0])]


@model("Result::is_err")
def _(I, st, a, info):
    return [(s, FALSE if ok else TRUE) for s, ok, p in resu(I, st, a[0])]


@model("Result::ok")
def _(I, st, a, info):
    return [(s, Some(p) if ok else NONE) for s, ok, p in resu(I, st, a[0])]


@model("Result::err")
def _(I, st, a, info):
    return [(s, NONE if ok else Some(p)) for s, ok, p in resu(I, st, a[0])]


@model("Result::is_ok_and")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if ok else [(s, FALSE)]
    return r


@model("Result::is_err_and")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += cv(I, a[1], [p], s, info) if not ok else [(s, FALSE)]
    return r


@model("Result::map_or")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += cv(I, a[2], [p], s, info) if ok else [(s, a[1])]
    return r


@model("Result::map_or_else")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        r += cv(I, a[2], [p], s, info) if ok else cv(I, a[1], [p], s, info)
    return r


@model("Result::transpose")
def _(I, st, a, info):
    r = []
    for s, ok, p in resu(I, st, a[0]):
        if not ok:
            r.append((s, Some(Err(p))))
        else:
            r += [(s2, Some(Ok(q)) if so else NONE) for s2, so, q in opt(I, s, p)]
    return r


def cfv(v, x):
    return adt(CF, v, (x,))


@model("Try::branch")
def _(I, st, a, info):
    v = d(I, st, a[0])
    ty = info["targs"][0] if info["targs"] else ""
    isopt = (v.tag == "adt" and v.a[0] == OPT) or (v.tag != "adt" and ty.startswith("core::option::Option"))
    if isopt:
        return [(s, cfv("Continue", p) if some else cfv("Break", NONE)) for s, some, p in opt(I, st, v)]
    if ty.startswith("core::task::poll::Poll"):
        return NotImplemented
    if v.tag == "adt" and v.a[0] == CF:
        return [(st, v)]
    return [(s, cfv("Continue", p) if ok else cfv("Break", Err(p))) for s, ok, p in resu(I, st, v)]


def split_result_ty(t):
    """(ok, err) of a Result type string"""
    t = G["norm_ty"](t or "")
    if not t.startswith("core::result::Result<"):
        return None
    body = t[len("core::result::Result<"):-1]
    depth = 0
    for i, c in enumerate(body):
        if c in "<([":
            depth += 1
        elif c in ">)]" and body[i - 1] != "-":
            depth -= 1
        elif c == "," and depth == 0:
            return body[:i].strip(), body[i + 1:].strip()
    return None


@model("FromResidual::from_residual")
def _(I, st, a, info):
    v = d(I, st, a[0])
    if v.tag == "adt" and v.a[0] == RES:
        t = info["targs"]
        if len(t) == 2:
            x, y = split_result_ty(t[0]), split_result_ty(t[1])
            if x and y and x[1] != y[1]:
                full = f"<{x[1]} as core::convert::From<{y[1]}>>"
                r = I.prog.resolve_trait("core::convert::From", "from", x[1], full)
                if r and I.prog.fn(r):
                    return [(s, Err(e)) for s, e in I.exec_fn(I.prog.fn(r), [v.a[2][0]], st, info["depth"] + 1, {})]
        if t and t[0].startswith("core::option::Option"):
            return [(st, v)]
    return [(st, v)]


@model("Try::from_output")
def _(I, st, a, info):
    ty = info["targs"][0] if info["targs"] else ""
    return [(st, Some(a[0]) if ty.startswith("core::option") else Ok(a[0]))]


@model("bool::then")
def _(I, st, a, info):
    r = []
    for s, b in I.decide(d(I, st, a[0]), st):
        r += [(s2, Some(v)) for s2, v in cv(I, a[1], [], s, info)] if b else [(s, NONE)]
    return r


@model("bool::then_some")
def _(I, st, a, info):
    return [(s, Some(a[1]) if b else NONE) for s, b in I.decide(d(I, st, a[0]), st)]


@model("Span::in_scope")
def _(I, st, a, info):
    return cv(I, a[1], [], st, info)


# ---- comparisons -------------------------------------------------------------------------------

@model("PartialEq::eq")
def _(I, st, a, info):
    return [(st, G["eq"](I.deep(d(I, st, a[0]), st), I.deep(d(I, st, a[1]), st)))]


@model("PartialEq::ne")
def _(I, st, a, info):
    return [(st, G["neg"](G["eq"](I.deep(d(I, st, a[0]), st), I.deep(d(I, st, a[1]), st))))]


def cmp2(op):
    def f(I, st, a, info):
        return [(st, G["binop"](op, d(I, st, a[0]), d(I, st, a[1])))]
    return f


for n, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["PartialOrd::" + n] = cmp2(o)


@model("Ord::cmp")
def _(I, st, a, info):
    return [(st, call("cmp", d(I, st, a[0]), d(I, st, a[1])))]


@model("PartialOrd::partial_cmp")
def _(I, st, a, info):
    return [(st, Some(call("cmp", d(I, st, a[0]), d(I, st, a[1]))))]


@model("Ordering::reverse")
def _(I, st, a, info):
    v = d(I, st, a[0])
    if v.tag == "call" and v.a[0] == "cmp":
        return [(st, call("cmp", v.a[1][1], v.a[1][0]))]
    return [(st, call("Ordering::reverse", v))]


def ordis(names):
    def f(I, st, a, info):
        v = d(I, st, a[0])
        return [(st, mk("isv", v, frozenset(names), frozenset(("Less", "Equal", "Greater"))))]
    return f


for n, v in (("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater")), ("is_lt", ("Less",)), ("is_le", ("Less", "Equal")),
             ("is_gt", ("Greater",)), ("is_ge", ("Greater", "Equal"))):
    MODELS["Ordering::" + n] = ordis(v)


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def _(I, st, a, info):
    x, y = d(I, st, a[0]), d(I, st, a[1])
    mn = info["short"].endswith("min")
    res = []
    for s, b in I.decide(G["lt"](y, x), st):  # y < x
        res.append((s, (y if b else x) if mn else (x if b else y)))
    return res


@model("Ord::clamp", "cmp::clamp")
def _(I, st, a, info):
    x, lo, hi = (d(I, st, v) for v in a)
    res = []
    for s, b in I.decide(G["lt"](x, lo), st):
        if b:
            res.append((s, lo))
            continue
        for s2, b2 in I.decide(G["lt"](hi, x), s):
            res.append((s2, hi if b2 else x))
    return res


@model("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def _(I, st, a, info):
    r, x = d(I, st, a[0]), d(I, st, a[1])
    lo = hi = None
    incl = True
    if r.tag == "call" and r.a[0] == "RangeInclusive::new":
        lo, hi = r.a[1]
    elif r.tag == "adt":
        n = r.a[0].split("::")[-1].split("<")[0]
        f = [I.deref(z, st) for z in r.a[2]]
        if n == "Range":
            (lo, hi), incl = f, False
        elif n == "RangeFrom":
            lo, = f
        elif n in ("RangeTo", "RangeToInclusive"):
            hi, = f
            incl = n == "RangeToInclusive"
        elif n == "RangeInclusive" and len(f) >= 2:
            lo, hi = f[:2]
        else:
            return None
    else:
        return None
    tests = []
    if lo is not None:
        tests.append(G["neg"](G["lt"](x, lo)))
    if hi is not None:
        tests.append(G["neg"](G["lt"](hi, x)) if incl else G["lt"](x, hi))
    res, cur = [], [st]
    for t in tests:
        nxt = []
        for s in cur:
            for s2, b in I.decide(t, s):
                (nxt if b else res).append(s2 if b else (s2, FALSE))
        cur = nxt
    return res + [(s, TRUE) for s in cur]


@model("Not::not")
def _(I, st, a, info):
    return [(st, G["neg"](d(I, st, a[0])))]


@model("BitAnd::bitand", "BitOr::bitor", "Add::add", "Sub::sub")
def _(I, st, a, info):
    op = {"BitAnd::bitand": "BitAnd", "BitOr::bitor": "BitOr", "Add::add": "Add", "Sub::sub": "Sub"}[info["short"]]
    x, y = d(I, st, a[0]), d(I, st, a[1])
    if op == "Add" and info["targs"] and G["ty_head"](info["targs"][0]) == "alloc::string::String":
        return [(st, cat(x, y))]
    if op == "Add" and x.tag not in ("int",) and not (info["targs"] and G["ty_head"](info["targs"][0]) in INTR):
        return [(st, call("Add::add", x, y))]
    return [(st, G["binop"](op, x, y))]


@model("matches_any")
def _(I, st, a, info):
    return NotImplemented


# ---- strings -----------------------------------------------------------------------------------

@model("str::is_empty", "String::is_empty")
def _(I, st, a, info):
    return [(st, G["eq"](d(I, st, a[0]), Str("")))]


@model("str::len", "String::len")
def _(I, st, a, info):
    v = d(I, st, a[0])
    if v.tag == "str":
        return [(st, Int(len(v.a[0].encode())))]
    return [(st, call("len", v))]


def fold_str(fn, name):
    def f(I, st, a, info):
        vs = [d(I, st, x) for x in a]
        if all(v.tag in ("str", "int") for v in vs):
            try:
                r = fn(*[chr(v.a[0]) if v.tag == "int" else v.a[0] for v in vs])
            except Exception:
                r = None
            if r is not None:
                return [(st, r)]
        vs = [Str(chr(v.a[0])) if (i > 0 and v.tag == "int") else v for i, v in enumerate(vs)]
        return [(st, call(name, *vs))]
    return f


B = lambda b: TRUE if b else FALSE
for n, fn in {
    "starts_with": lambda x, p: B(x.startswith(p)), "ends_with": lambda x, p: B(x.endswith(p)), "contains": lambda x, p: B(p in x),
    "strip_prefix": lambda x, p: Some(Str(x[len(p):])) if x.startswith(p) else NONE,
    "strip_suffix": lambda x, p: Some(Str(x[:-len(p)] if p else x)) if x.endswith(p) else NONE,
    "trim": lambda x: Str(x.strip()), "trim_start": lambda x: Str(x.lstrip()), "trim_end": lambda x: Str(x.rstrip()),
    "to_lowercase": lambda x: Str(x.lower()), "to_uppercase": lambda x: Str(x.upper()), "to_ascii_lowercase": lambda x: Str(x.lower()),
    "to_ascii_uppercase": lambda x: Str(x.upper()),
    "split_once": lambda x, p: Some(tup(Str(x.split(p, 1)[0]), Str(x.split(p, 1)[1]))) if p in x else NONE,
    "trim_start_matches": lambda x, p: Str(x.lstrip(p)) if len(p) == 1 else None,
    "trim_end_matches": lambda x, p: Str(x.rstrip(p)) if len(p) == 1 else None,
    "find": lambda x, p: None, "rfind": lambda x, p: None, "rsplit_once": lambda x, p: None, "split": lambda x, p: None,
}.items():
    MODELS["str::" + n] = fold_str(fn, "str::" + n)


def str_term_with_closure(name):
    return None


@model("str::to_string", "ToString::to_string", "SpecToString::spec_to_string")
def _(I, st, a, info):
    t = G["ty_head"](info["targs"][0]) if info["targs"] else ""
    v = d(I, st, a[0])
    return display(I, st, v, t, info)


def display(I, st, v, t, info):
    t = G["ty_head"](t)
    if v.tag in ("str", "cat") or t in STRINGY or t == "std::path::Display" or t == "core::fmt::Arguments":
        return [(st, v)]
    if t == "char" and v.tag == "int":
        return [(st, Str(chr(v.a[0])))]
    if t == "char":
        return [(st, cat(v))]
    if v.tag == "int":
        return [(st, Str(str(v.a[0])))]
    r = I.prog.resolve_trait("core::fmt::Display", "fmt", G["norm_ty"](t)) if t else None
    if r is None and v.tag == "adt":
        r = I.prog.resolve_trait("core::fmt::Display", "fmt", v.a[0])
    if r and I.prog.fn(r) and r not in I.prog.derived and info["depth"] < 18:
        cell = ("f", I.fid)
        I.fid += 1
        s = st.fork()
        s.mem[cell] = mk("fmtbuf", Str(""))
        n0 = len(I.panics)
        outs = I.exec_fn(I.prog.fn(r), [v, mk("mref", cell, ())], s, info["depth"] + 1, {})
        res = []
        for s2, rv in outs:
            b = s2.mem.pop(cell)
            if b.tag != "fmtbuf":
                return [(st, mk("cat", (call("display", v),)))]
            res.append((s2, b.a[0]))
        return res
    return [(st, cat(call("display", v)))]


@model("Argument::new_display")
def _(I, st, a, info):
    return display(I, st, d(I, st, a[0]), info["targs"][0] if info["targs"] else "", info)


@model("Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_lower_exp")
def _(I, st, a, info):
    return [(st, cat(call(info["short"].split("new_")[1], I.deep(d(I, st, a[0]), st))))]


def decode_template(b):
    """core::fmt's packed template: pieces (bytes) and placeholders (argument index, options?)"""
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 128:
            out.append(b[i:i + n].decode("utf-8", "replace"))
            i += n
        elif n == 128:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + ln].decode("utf-8", "replace"))
            i += ln
        else:
            flags = n & 0x3F
            opts = b""
            if n & 1:
                opts += b[i:i + 4]
                i += 4
            if n & 2:
                opts += b[i:i + 2]
                i += 2
            if n & 4:
                opts += b[i:i + 2]
                i += 2
            idx = nxt
            if n & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            nxt = idx + 1
            out.append((idx, opts))
    return out


@model("Arguments::new")
def _(I, st, a, info):
    t, args = d(I, st, a[0]), d(I, st, a[1]) if len(a) > 1 else mk("arr", ())
    if t.tag != "bytes" or args.tag != "arr":
        return [(st, call("format", t, args))]
    ps = []
    for p in decode_template(t.a[0]):
        if isinstance(p, str):
            ps.append(Str(p))
        else:
            v = args.a[0][p[0]]
            ps.append(v if not p[1] else mk("fmtopt", v, p[1]))
    return [(st, cat(*ps))]


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def _(I, st, a, info):
    return [(st, d(I, st, a[0]))]


@model("fmt::format")
def _(I, st, a, info):
    return [(st, d(I, st, a[0]))]


@model("Formatter::write_str", "Formatter::write_fmt", "Write::write_str", "Formatter::pad", "Write::write_char", "Formatter::write_char")
def _(I, st, a, info):
    cur = d(I, st, a[0])
    v = d(I, st, a[1])
    if v.tag == "int":
        v = Str(chr(v.a[0]))
    if a[0].tag == "mref" and cur.tag == "fmtbuf":
        st = st.fork()
        I.write_loc(st, a[0].a[0], a[0].a[1], mk("fmtbuf", cat(cur.a[0], v)))
        return [(st, Ok(UNIT))]
    st = st.fork()
    st.eff = st.eff + (mk("eff", "fmt::write", (v,), 0),)
    return [(st, Ok(UNIT))]


@model("Display::fmt")
def _(I, st, a, info):
    """delegation to another value's Display inside a Display impl"""
    cur = d(I, st, a[1]) if len(a) > 1 else None
    if cur is not None and cur.tag == "fmtbuf" and a[1].tag == "mref":
        res = []
        for s, v in display(I, st, d(I, st, a[0]), info["targs"][0] if info["targs"] else "", info):
            s = s.fork()
            c2 = d(I, s, a[1])
            I.write_loc(s, a[1].a[0], a[1].a[1], mk("fmtbuf", cat(c2.a[0], v)))
            res.append((s, Ok(UNIT)))
        return res
    return NotImplemented


def str_mut(f):
    def g(I, st, a, info):
        if a[0].tag != "mref":
            st = st.fork()
            st.eff = st.eff + (mk("eff", info["short"], tuple(I.deep(x, st) for x in a), 0),)
            return [(st, UNIT)]
        st = st.fork()
        cur = d(I, st, a[0])
        v = d(I, st, a[1])
        if v.tag == "int":
            v = Str(chr(v.a[0]))
        I.write_loc(st, a[0].a[0], a[0].a[1], f(cur, v))
        return [(st, UNIT)]
    return g


MODELS["String::push_str"] = str_mut(cat)
MODELS["String::push"] = str_mut(cat)
MODELS["AddAssign::add_assign"] = None


@model("AddAssign::add_assign")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    st = st.fork()
    cur, v = d(I, st, a[0]), d(I, st, a[1])
    if G["ty_head"](info["targs"][0] if info["targs"] else "") in INTR:
        n = G["binop"]("Add", cur, v)
    else:
        n = cat(cur, v)
    I.write_loc(st, a[0].a[0], a[0].a[1], n)
    return [(st, UNIT)]


@model("BitOrAssign::bitor_assign", "BitAndAssign::bitand_assign")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    st = st.fork()
    cur, v = d(I, st, a[0]), d(I, st, a[1])
    op = "BitOr" if "Or" in info["short"] else "BitAnd"
    I.write_loc(st, a[0].a[0], a[0].a[1], G["binop"](op, cur, v))
    return [(st, UNIT)]


@model("String::new", "PathBuf::new", "String::with_capacity", "OsString::new")
def _(I, st, a, info):
    return [(st, Str(""))]


@model("Vec::new", "Vec::with_capacity", "HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "VecDeque::new", "HashMap::with_capacity", "HashSet::with_capacity")
def _(I, st, a, info):
    return [(st, mk("arr", ()))]


@model("Path::join", "PathBuf::join")
def _(I, st, a, info):
    return [(st, call("Path::join", d(I, st, a[0]), d(I, st, a[1])))]


# ---- vectors -----------------------------------------------------------------------------------

def mutator(f, ret=lambda old, args: UNIT):
    def g(I, st, a, info):
        vs = [d(I, st, x) for x in a]
        if a[0].tag != "mref":
            st = st.fork()
            st.eff = st.eff + (mk("eff", info["short"], tuple(I.deep(x, st) for x in vs), 0),)
            return [(st, ret(vs[0], vs))]
        st = st.fork()
        old = vs[0]
        I.write_loc(st, a[0].a[0], a[0].a[1], f(*vs))
        return [(st, ret(old, vs))]
    return g


def vpush(v, x):
    if v.tag == "arr":
        return mk("arr", v.a[0] + (x,))
    return mk("push", v, x)


def _strip_cap(v):
    return v


MODELS["Vec::push"] = mutator(vpush)
MODELS["VecDeque::push_back"] = mutator(vpush)
MODELS["Vec::clear"] = mutator(lambda v: mk("arr", ()))
MODELS["String::clear"] = mutator(lambda v: Str(""))
MODELS["HashMap::clear"] = mutator(lambda v: mk("arr", ()))
MODELS["Vec::insert"] = mutator(lambda v, i, x: mk("insert", v, i, x))
MODELS["Vec::remove"] = mutator(lambda v, i: mk("removed", v, i), lambda old, a: G["index"](old, a[1]))
MODELS["Vec::swap_remove"] = mutator(lambda v, i: mk("swapremoved", v, i), lambda old, a: G["index"](old, a[1]))
MODELS["Vec::truncate"] = mutator(lambda v, n: mk("truncated", v, n))
for n in ("sort", "sort_unstable"):
    MODELS["slice::" + n] = mutator(lambda v: sorted_term(v))
for n in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
    def _sb(I, st, a, info):
        return sort_with(I, st, a, info)
    MODELS["slice::" + n] = _sb
MODELS["Vec::dedup"] = mutator(lambda v: mk("dedup", v))
MODELS["slice::reverse"] = mutator(lambda v: mk("reversed", v))
MODELS["HashSet::insert"] = mutator(lambda v, x: mk("ins", v, x), lambda old, a: G["neg"](call("set_contains", a[0], a[1])))
MODELS["BTreeSet::insert"] = MODELS["HashSet::insert"]
MODELS["Vec::reserve"] = mutator(lambda v, n: v)
MODELS["String::reserve"] = mutator(lambda v, n: v)
MODELS["Vec::shrink_to_fit"] = mutator(lambda v: v)


def sorted_term(v, key=None):
    return mk("sorted", v) if key is None else mk("sortedby", v, key)


def closure_cases(I, st, f, args, info):
    """a closure's result on symbolic arguments as ((conds, value),...) or None when it has effects"""
    base = st.conds
    outs = cv(I, f, args, st, info)
    cases = []
    for s, v in outs:
        if s.eff != st.eff:
            return None
        dl = {t: c for t, c in s.conds.items() if base.get(t) != c}
        cases.append((dl, I.deep(v, s)))
    return tuple(sorted(((tuple(sorted(((t, c) for t, c in cc.items()), key=lambda x: show(x[0]))), v) for cc, v in merge_cases(cases)), key=lambda x: show(x[1]) + repr(x[0])))


def fn_term(I, st, f, nargs, info):
    """a function value as a term over placeholders"""
    xs = [mk("param", i) for i in range(nargs)]
    c = closure_cases(I, st, f, xs, info)
    if c is None:
        return f
    return mk("lam", nargs, c)


def sort_with(I, st, a, info):
    by_key = "key" in info["short"]
    f = fn_term(I, st, a[1], 1 if by_key else 2, info)
    st = st.fork()
    v = d(I, st, a[0])
    kind = "key" if by_key else "cmp"
    # sorting by the natural order of the elements is sort()
    p0, p1 = mk("param", 0), mk("param", 1)
    if f.tag == "lam" and len(f.a[1]) == 1 and not f.a[1][0][0]:
        r = f.a[1][0][1]
        if (by_key and r is p0) or (not by_key and r is call("cmp", p0, p1)):
            kind = None
    t = mk("sorted", v) if kind is None else mk("sortedby", v, kind, f)
    if a[0].tag == "mref":
        I.write_loc(st, a[0].a[0], a[0].a[1], t)
    return [(st, UNIT)]


@model("Vec::dedup_by", "Vec::dedup_by_key")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    f = fn_term(I, st, a[1], 1 if "key" in info["short"] else 2, info)
    if f.tag != "lam":
        return NotImplemented
    v = d(I, st, a[0])
    st = st.fork()
    p0, p1 = mk("param", 0), mk("param", 1)
    r = f.a[1][0][1] if len(f.a[1]) == 1 and not f.a[1][0][0] else None
    same = r is p0 or r is not None and op(r) == "eq" and set(args(r)) == {p0, p1} or r is not None and r.tag == "eq" and set(r.a) == {p0, p1}
    I.write_loc(st, a[0].a[0], a[0].a[1], mk("dedup", v) if same else mk("dedupby", v, f))
    return [(st, UNIT)]


@model("Vec::pop")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    v = d(I, st, a[0])
    st = st.fork()
    if v.tag == "arr":
        if not v.a[0]:
            return [(st, NONE)]
        I.write_loc(st, a[0].a[0], a[0].a[1], mk("arr", v.a[0][:-1]))
        return [(st, Some(v.a[0][-1]))]
    if v.tag == "push":
        I.write_loc(st, a[0].a[0], a[0].a[1], v.a[0])
        return [(st, Some(v.a[1]))]
    I.write_loc(st, a[0].a[0], a[0].a[1], mk("popped", v))
    return [(st, call("last", v))]


@model("Vec::len", "slice::len", "HashMap::len", "HashSet::len", "array::len", "VecDeque::len")
def _(I, st, a, info):
    v = d(I, st, a[0])
    return [(st, Int(len(v.a[0])) if v.tag == "arr" else call("len", v))]


@model("Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty", "VecDeque::is_empty")
def _(I, st, a, info):
    v = d(I, st, a[0])
    return [(st, G["eq"](Int(len(v.a[0])) if v.tag == "arr" else call("len", v), Int(0)))]


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _(I, st, a, info):
    v = d(I, st, a[0])
    n = info["short"].split("::")[1].replace("_mut", "")
    if v.tag == "arr":
        if not v.a[0]:
            return [(st, NONE)]
        return [(st, Some(v.a[0][0 if n == "first" else -1]))]
    return [(st, call(n, v))]


@model("slice::get", "Vec::get")
def _(I, st, a, info):
    v, i = d(I, st, a[0]), d(I, st, a[1])
    if v.tag == "arr" and i.tag == "int":
        return [(st, Some(v.a[0][i.a[0]]) if i.a[0] < len(v.a[0]) else NONE)]
    return [(st, call("get", v, i))]


@model("Index::index")
def _(I, st, a, info):
    return [(st, G["index"](d(I, st, a[0]), d(I, st, a[1])))]


@model("IndexMut::index_mut")
def _(I, st, a, info):
    if a[0].tag == "mref":
        return [(st, mk("mref", a[0].a[0], a[0].a[1] + (("i", d(I, st, a[1])),)))]
    return [(st, G["index"](a[0], d(I, st, a[1])))]


@model("slice::contains", "Vec::contains")
def _(I, st, a, info):
    v, x = d(I, st, a[0]), d(I, st, a[1])
    if v.tag == "arr":
        if all(y.tag == "str" for y in v.a[0]):
            return [(s, TRUE if b else FALSE) for s, b in I.two(st, x, ("s", True, frozenset(y.a[0] for y in v.a[0])))] if v.a[0] else [(st, FALSE)]
        return any_of(I, st, [G["eq"](x, y) for y in v.a[0]])
    d0 = len(I.loopctx)
    e = mk("elem", v, d0)
    ec = eq_conds(I, st, e, x)
    if ec is None:
        return [(st, call("contains", v, x))]
    return [(st, mk("exists", v, d0, ec))]


def eq_conds(I, st, e, x):
    s = st.fork()
    outs = [s2 for s2, b in I.decide(G["eq"](e, x), s) if b]
    cs = merge_conds([{t: c for t, c in s2.conds.items() if st.conds.get(t) != c} for s2 in outs])
    return frozenset(freeze(c) for c in cs)


def any_of(I, st, terms):
    res, cur = [], [st]
    for t in terms:
        nxt = []
        for s in cur:
            for s2, b in I.decide(t, s):
                if b:
                    res.append((s2, TRUE))
                else:
                    nxt.append(s2)
        cur = nxt
    return res + [(s, FALSE) for s in cur]


@model("slice::binary_search")
def _(I, st, a, info):
    return [(st, call("bsearch", d(I, st, a[0]), mk("lam", 1, (((), call("cmp", mk("param", 0), d(I, st, a[1]))),))))]


@model("slice::binary_search_by")
def _(I, st, a, info):
    return [(st, call("bsearch", d(I, st, a[0]), fn_term(I, st, a[1], 1, info)))]


@model("slice::binary_search_by_key")
def _(I, st, a, info):
    f = fn_term(I, st, a[2], 1, info)
    if f.tag == "lam":
        f = mk("lam", 1, tuple((c, call("cmp", v, d(I, st, a[1]))) for c, v in f.a[1]))
    return [(st, call("bsearch", d(I, st, a[0]), f))]


@model("slice::partition_point")
def _(I, st, a, info):
    return [(st, call("partition_point", d(I, st, a[0]), fn_term(I, st, a[1], 1, info)))]


@model("slice::split_first", "slice::split_last")
def _(I, st, a, info):
    v = d(I, st, a[0])
    if v.tag == "arr":
        xs = v.a[0]
        if not xs:
            return [(st, NONE)]
        if info["short"].endswith("first"):
            return [(st, Some(tup(xs[0], mk("arr", xs[1:]))))]
        return [(st, Some(tup(xs[-1], mk("arr", xs[:-1]))))]
    first = info["short"].endswith("first")
    n = call("first" if first else "last", v)
    return [(s, Some(tup(p, mk("tail" if first else "init", v))) if some else NONE) for s, some, p in opt(I, st, n)]


@model("Vec::append")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    x, y = d(I, st, a[0]), d(I, st, a[1])
    st = st.fork()
    I.write_loc(st, a[0].a[0], a[0].a[1], concat(x, y))
    if a[1].tag == "mref":
        I.write_loc(st, a[1].a[0], a[1].a[1], mk("arr", ()))
    return [(st, UNIT)]


def concat(x, y):
    if x.tag == "arr" and not x.a[0]:
        return y
    if y.tag == "arr" and not y.a[0]:
        return x
    if x.tag == y.tag == "arr":
        return mk("arr", x.a[0] + y.a[0])
    return mk("append", x, y)


@model("Vec::extend_from_slice")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    st = st.fork()
    I.write_loc(st, a[0].a[0], a[0].a[1], concat(d(I, st, a[0]), d(I, st, a[1])))
    return [(st, UNIT)]


@model("Extend::extend")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    t = info["targs"][0] if info["targs"] else ""
    if "Vec<" not in t and "HashSet" not in t and "BTreeSet" not in t:
        return NotImplemented
    res = []
    for s, v in collect(I, st, d(I, st, a[1]), info):
        s = s.fork()
        I.write_loc(s, a[0].a[0], a[0].a[1], concat(d(I, s, a[0]), v))
        res.append((s, UNIT))
    return res


@model("Vec::retain")
def _(I, st, a, info):
    if a[0].tag != "mref":
        return NotImplemented
    res = []
    v = d(I, st, a[0])
    it = mk("it", v, False, (("filter", a[1]),))
    for s, c in collect(I, st, it, info):
        s = s.fork()
        I.write_loc(s, a[0].a[0], a[0].a[1], c)
        res.append((s, UNIT))
    return res


@model("Box::new_uninit")
def _(I, st, a, info):
    return [(st, mk("uninit", "box"))]


@model("boxed::box_assume_init_into_vec_unsafe", "slice::box_assume_init_into_vec_unsafe")
def _(I, st, a, info):
    v = d(I, st, a[0])
    arrs = [x for x in subterms(v) if x.tag == "arr"]
    n = v
    for _ in range(6):
        if n.tag == "arr":
            return [(st, n)]
        if n.tag == "upd":
            n = n.a[2]
        elif n.tag == "adt" and n.a[2]:
            n = n.a[2][0]
        else:
            break
    return [(st, v)]


@model("mem::replace")
def _(I, st, a, info):
    if a[0].tag != "mref":
        st = st.fork()
        st.eff = st.eff + (mk("store", a[0], a[1]),)
        return [(st, a[0])]
    old = d(I, st, a[0])
    st = st.fork()
    I.write_loc(st, a[0].a[0], a[0].a[1], a[1])
    return [(st, old)]


@model("mem::take")
def _(I, st, a, info):
    old = d(I, st, a[0])
    res = []
    for s, v in default_of(I, info["targs"][0] if info["targs"] else info["dty"], st, info):
        s = s.fork()
        if a[0].tag == "mref":
            I.write_loc(s, a[0].a[0], a[0].a[1], v)
        else:
            s.eff = s.eff + (mk("store", a[0], v),)
        res.append((s, old))
    return res


@model("mem::swap")
def _(I, st, a, info):
    if a[0].tag != "mref" or a[1].tag != "mref":
        return NotImplemented
    x, y = d(I, st, a[0]), d(I, st, a[1])
    st = st.fork()
    I.write_loc(st, a[0].a[0], a[0].a[1], y)
    I.write_loc(st, a[1].a[0], a[1].a[1], x)
    return [(st, UNIT)]


@model("mem::drop", "mem::forget")
def _(I, st, a, info):
    return [(st, UNIT)]


# ---- iterators ---------------------------------------------------------------------------------

def stage(kind):
    def f(I, st, a, info):
        it = I.as_iter(d(I, st, a[0]))
        return [(st, mk("it", it.a[0], it.a[1], it.a[2] + ((kind, a[1] if len(a) > 1 else UNIT),)))]
    return f


for n in ("map", "filter", "filter_map", "enumerate", "take_while", "map_while", "inspect"):
    MODELS["Iterator::" + n] = stage(n)
MODELS["Iterator::flatten"] = lambda I, st, a, info: (stage("flatten")(I, st, a, info)
                                                      if "Option<" in (info["targs"][0] if info["targs"] else "") else
                                                      [(st, mk("it", call("flatten", iter_val(I, st, a[0])), False, ()))])


def iter_val(I, st, x):
    v = d(I, st, x)
    return v.a[0] if v.tag == "it" and not v.a[1] and not v.a[2] else v


@model("Iterator::rev")
def _(I, st, a, info):
    it = I.as_iter(d(I, st, a[0]))
    if any(k in ("enumerate", "take_while", "map_while") for k, _ in it.a[2]):
        return [(st, mk("it", call("rev", it), False, ()))]
    return [(st, mk("it", it.a[0], not it.a[1], it.a[2]))]


COLLECTION = re.compile(r"^[A-Z]\w*$|^&*('[a-z_]+ )?(mut )?(\[|alloc::vec::Vec<|std::collections::|alloc::collections::|hashbrown::|core::iter::|core::slice::|core::array::|core::str::|indexmap::|rustc_hash::|std::path::(Ancestors|Components)|alloc::vec::)")


@model("slice::iter", "VecDeque::iter", "HashSet::iter", "BTreeSet::iter", "array::iter", "IntoIterator::into_iter")
def _(I, st, a, info):
    if info["short"] == "IntoIterator::into_iter" and not COLLECTION.match((info.get("targs") or [""])[0]):
        return NotImplemented
    if info.get("res") in I.prog.fns:
        return NotImplemented
    v = d(I, st, a[0])
    if a[0].tag == "mref" or v.tag in ("it", "mref", "phi", "ite") or v.tag == "adt":
        return NotImplemented
    return [(st, I.as_iter(v))]


def opaque_iter(name):
    def f(I, st, a, info):
        vs = tuple(iter_val(I, st, x) for x in a)
        return [(st, mk("it", call(name, *vs), False, ()))]
    return f


for n in ("chain", "zip", "skip", "take", "step_by", "flat_map", "skip_while", "scan", "cycle", "intersperse", "dedup", "unique"):
    MODELS["Iterator::" + n] = opaque_iter("Iterator::" + n)
MODELS["zip::zip"] = opaque_iter("Iterator::zip")
MODELS["Itertools::cartesian_product"] = opaque_iter("Itertools::cartesian_product")


@model("Iterator::skip", "Iterator::take")
def _(I, st, a, info):
    n = info["short"]
    x, k = iter_val(I, st, a[0]), d(I, st, a[1])
    if x.tag == "arr" and k.tag == "int":
        return [(st, mk("it", mk("arr", x.a[0][k.a[0]:] if n.endswith("skip") else x.a[0][:k.a[0]]), False, ()))]
    return [(st, mk("it", call(n, x, k), False, ()))]


@model("Iterator::chain")
def _(I, st, a, info):
    x, y = iter_val(I, st, a[0]), iter_val(I, st, a[1])
    if x.tag == "arr" and y.tag == "arr":
        return [(st, mk("it", mk("arr", x.a[0] + y.a[0]), False, ()))]
    return [(st, mk("it", mk("append", x, y), False, ()))]


@model("str::chars", "str::bytes", "str::lines", "str::split_whitespace", "str::char_indices", "Path::ancestors", "Path::components", "HashMap::keys", "HashMap::values", "HashMap::iter", "HashMap::into_keys", "HashMap::into_values", "HashMap::values_mut", "HashMap::iter_mut", "HashMap::drain", "String::drain", "str::split", "str::matches")
def _(I, st, a, info):
    vs = [d(I, st, x) for x in a]
    v = vs[0]
    if info["short"] == "str::chars" and v.tag == "str" and len(v.a[0]) <= 100:
        return [(st, mk("it", mk("arr", tuple(Int(ord(c)) for c in v.a[0])), False, ()))]
    if "drain" in info["short"]:
        return NotImplemented
    return [(st, mk("it", call(info["short"], *vs), False, ()))]


def truth(I, s, v):
    return I.decide(d(I, s, v), s)


def itmodel(*names):
    def deco(f):
        def g(I, st, a, info):
            if a[0].tag == "mref":
                v = d(I, st, a[0])
                if v.tag not in ("it",) and not ("IntoIter" in "".join(info["targs"][:1])) and v.tag == "phi":
                    return NotImplemented
                if v.tag in ("phi", "itadv", "itrest"):
                    return NotImplemented
            else:
                v = d(I, st, a[0])
            r = f(I, st, I.as_iter(v), a, info)
            if a[0].tag == "mref" and r is not NotImplemented:
                out = []
                for s, x in r:
                    s = s.fork()
                    I.write_loc(s, a[0].a[0], a[0].a[1], mk("itrest", v))
                    out.append((s, x))
                return out
            return r
        for n in names:
            MODELS[n] = g
        return f
    return deco


@itmodel("Iterator::any")
def _(I, st, it, a, info):
    def body(s, e):
        r = []
        for s2, v in cv(I, a[1], [e], s, info):
            r += [("hit" if b else "back", s3, None) for s3, b in truth(I, s2, v)]
        return r
    return [(s, TRUE if k == "hit" else FALSE) for k, s, _ in I.walk(st, it, body, info["depth"])]


@itmodel("Iterator::all")
def _(I, st, it, a, info):
    def body(s, e):
        r = []
        for s2, v in cv(I, a[1], [e], s, info):
            r += [("back" if b else "miss", s3, None) for s3, b in truth(I, s2, v)]
        return r
    return [(s, FALSE if k == "miss" else TRUE) for k, s, _ in I.walk(st, it, body, info["depth"])]


@itmodel("Iterator::find", "DoubleEndedIterator::rfind")
def _(I, st, it, a, info):
    if info["short"].endswith("rfind"):
        it = mk("it", it.a[0], not it.a[1], it.a[2])

    def body(s, e):
        r = []
        for s2, v in cv(I, a[1], [e], s, info):
            r += [("hit" if b else "back", s3, e) for s3, b in truth(I, s2, v)]
        return r
    return found_outs(I, st, it, body, info)


def found_outs(I, st, it, body, info):
    """walk with a payload carried through memory so that it is rewritten to the found element"""
    cell = ("p", I.fid)
    I.fid += 1

    def b2(s, e):
        r = []
        for k, s2, p in body(s, e):
            if k == "hit":
                s2 = s2.fork()
                s2.mem[cell] = p
            r.append((k, s2, None))
        return r
    res = []
    for k, s, _ in I.walk(st, it, b2, info["depth"]):
        p = s.mem.pop(cell, None)
        res.append((s, Some(p) if k == "hit" else NONE))
    return res


@itmodel("Iterator::find_map")
def _(I, st, it, a, info):
    def body(s, e):
        r = []
        for s2, v in cv(I, a[1], [e], s, info):
            r += [("hit" if some else "back", s3, p) for s3, some, p in opt(I, s2, v)]
        return r
    return found_outs(I, st, it, body, info)


@itmodel("Iterator::position", "Iterator::rposition")
def _(I, st, it, a, info):
    if info["short"].endswith("rposition"):
        it = mk("it", it.a[0], not it.a[1], it.a[2])
    if it.a[2]:
        return NotImplemented

    def body(s, e):
        r = []
        for s2, v in cv(I, a[1], [e], s, info):
            i = mk("idx", it.a[0], len(I.loopctx) - 1)
            r += [("hit" if b else "back", s3, i) for s3, b in truth(I, s2, v)]
        return r
    if it.a[0].tag == "arr":
        return NotImplemented
    return found_outs(I, st, it, body, info)


@itmodel("Iterator::last")
def _(I, st, it, a, info):
    if any(k in ("take_while", "map_while", "enumerate") for k, _ in it.a[2]):
        return NotImplemented
    it = mk("it", it.a[0], not it.a[1], it.a[2])
    return found_outs(I, st, it, lambda s, e: [("hit", s, e)], info)


def early(I, st, it, step, info, init=None):
    """a fallible fold: [(state, 'done' | 'hit', value)]"""
    p = ty_try(info)
    if p is None:
        return NotImplemented
    good, bad = p[1]
    cell, acc = ("p", I.fid), ("p", I.fid + 1)
    I.fid += 2
    st = st.fork()
    if init is not None:
        st.mem[acc] = init

    def body(s, e):
        r = []
        for s2, v in step(s, e, s.mem.get(acc)):
            v = d(I, s2, v)
            for s3, n in I.split(s2, v, p[0], p[1]):
                s3 = s3.fork()
                x = payload(v, n, 0) if n != "None" else None
                if n == good:
                    if init is not None:
                        s3.mem[acc] = x
                    r.append(("back", s3, None))
                else:
                    s3.mem[cell] = adt(p[0], n, () if n == "None" else (x,))
                    r.append(("hit", s3, None))
        return r
    res = []
    for k, s, _ in I.walk(st, it, body, info["depth"]):
        v = s.mem.pop(cell, None)
        w = s.mem.pop(acc, None)
        res.append((s, v if k == "hit" else adt(p[0], good, (w if init is not None else UNIT,))))
    return res


def ty_try(info):
    t = info["dty"] or ""
    h = G["ty_head"](t)
    return {RES: (RES, ("Ok", "Err")), OPT: (OPT, ("Some", "None")), CF: (CF, ("Continue", "Break"))}.get(h)


@itmodel("Iterator::try_fold")
def _(I, st, it, a, info):
    return early(I, st, it, lambda s, e, acc: cv(I, a[2], [acc, e], s, info), info, a[1])


@itmodel("Iterator::for_each", "Iterator::try_for_each")
def _(I, st, it, a, info):
    if info["short"].endswith("try_for_each"):
        return early(I, st, it, lambda s, e, _: cv(I, a[1], [e], s, info), info)
    outs = I.walk(st, it, lambda s, e: [("back", s2, None) for s2, _ in cv(I, a[1], [e], s, info)], info["depth"])
    return [(s, UNIT) for _, s, _ in outs]


def collect(I, st, v, info):
    it = I.as_iter(v)
    if not it.a[2] and not it.a[1]:
        return [(st, it.a[0])]
    cell = ("p", I.fid)
    I.fid += 1
    st = st.fork()
    st.mem[cell] = mk("arr", ())

    def body(s, e):
        s = s.fork()
        s.mem[cell] = vpush(s.mem[cell], e)
        return [("back", s, None)]
    return [(s, s.mem.pop(cell)) for _, s, _ in I.walk(st, it, body, info["depth"])]


@itmodel("Iterator::collect", "FromIterator::from_iter", "Itertools::collect_vec")
def _(I, st, it, a, info):
    t = info["targs"][-1] if info["targs"] else (info["dty"] or "")
    if info["short"] == "FromIterator::from_iter":
        t = info["targs"][0] if info["targs"] else ""
    if info["short"] == "Itertools::collect_vec":
        t = "alloc::vec::Vec<_>"
    h = G["ty_head"](t).split("::")[-1]
    if h in ("Result", "Option"):
        p = RES if h == "Result" else OPT
        good, bad = ("Ok", "Err") if h == "Result" else ("Some", "None")
        cell = ("p", I.fid)
        I.fid += 1
        st = st.fork()
        st.mem[cell] = mk("arr", ())

        def body(s, e):
            r = []
            for s2, var in I.split(s, e, p, (good, bad)):
                s2 = s2.fork()
                if var == good:
                    s2.mem[cell] = vpush(s2.mem[cell], payload(d(I, s2, e), good, "0"))
                    r.append(("back", s2, None))
                else:
                    s2.mem[cell] = Err(payload(d(I, s2, e), "Err", "0")) if h == "Result" else NONE
                    r.append(("hit", s2, None))
            return r
        res = []
        for k, s, _ in I.walk(st, it, body, info["depth"]):
            v = s.mem.pop(cell)
            res.append((s, v if k == "hit" else adt(p, good, (v,))))
        return res
    outs = collect(I, st, it, info)
    if h in ("HashSet", "BTreeSet", "HashMap", "BTreeMap", "FxHashSet", "FxHashMap", "BinaryHeap"):
        return [(s, mk("set", h, v) if not (v.tag == "arr" and not v.a[0]) else v) for s, v in outs]
    if h == "String":
        return [(s, mk("strof", v)) for s, v in outs]
    return outs


@itmodel("Iterator::count")
def _(I, st, it, a, info):
    return [(s, Int(len(v.a[0])) if v.tag == "arr" else call("len", v)) for s, v in collect(I, st, it, info)]


ASCII = {"is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)), "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_digit": ((48, 57),),
         "is_ascii_lowercase": ((97, 122),), "is_ascii_uppercase": ((65, 90),), "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
         "is_ascii": ((0, 127),), "is_ascii_control": ((0, 31), (127, 127)), "is_ascii_graphic": ((33, 126),),
         "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126))}


def in_ranges(I, st, t, rs):
    """[(state, is the character or byte t in one of the ranges)]"""
    inf = float("inf")
    out, lo = [], -inf
    for a, b in rs:
        out.append((lo, a - 1))
        lo = b + 1
    out.append((lo, inf))
    res = []
    for c, v in ((("i", tuple(rs)), TRUE), (("i", tuple(out)), FALSE)):
        s = st.fork()
        if I.assume(s, t, c):
            res.append((s, v))
    return res


for _n, _rs in ASCII.items():
    for _t in ("char", "u8", "methods"):
        MODELS[f"{_t}::{_n}"] = lambda I, st, a, info, rs=_rs: in_ranges(I, st, d(I, st, a[0]), rs)


@model("str::starts_with")
def _(I, st, a, info):
    t, p = d(I, st, a[0]), d(I, st, a[1])
    if p.tag == "str" and len(p.a[0]) == 1:
        p = Int(ord(p.a[0]))
    if t.tag == "call" and t.a[0] == "Chars::as_str" and p.tag == "int" and t.a[1][0].tag in ("itrest", "itadv", "loopval", "phi"):
        nx = call("next", t.a[1][0])
        res = []
        for s, var in I.split(st, nx, OPT, ("Some", "None")):
            res += in_ranges(I, s, payload(nx, "Some", "0"), ((p.a[0], p.a[0]),)) if var == "Some" else [(s, FALSE)]
        return res
    return NotImplemented


@itmodel("Iterator::next")
def _(I, st, it, a, info):
    return found_outs(I, st, it, lambda s, e: [("hit", s, e)], info)


_generic_next = MODELS["Iterator::next"]


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _(I, st, a, info):
    r = I.iter_next(st, a[0], info["depth"], back=info["short"].endswith("next_back"))
    if r is not None:
        return r
    v = d(I, st, a[0])
    if info.get("res") in I.prog.fns:
        return NotImplemented
    if a[0].tag == "mref":
        # an iterator in an unknown position: the next element is some unknown one
        s1, s2 = st.fork(), st.fork()
        nx = mk("nextof", v)
        res = []
        for s, var in I.split(st, call("next", v), OPT, ("Some", "None")):
            s = s.fork()
            I.write_loc(s, a[0].a[0], a[0].a[1], mk("itadv", v))
            res.append((s, Some(payload(call("next", v), "Some", "0")) if var == "Some" else NONE))
        return res
    return [(st, call("next", v))]


@model("Iterator::nth", "DoubleEndedIterator::nth_back")
def _(I, st, a, info):
    v = d(I, st, a[0])
    n = d(I, st, a[1])
    st = st.fork()
    if a[0].tag == "mref":
        I.write_loc(st, a[0].a[0], a[0].a[1], mk("itadv", v, n))
    if v.tag == "it" and not v.a[2] and n.tag == "int" and 0 <= n.a[0] < 8 and v.a[0].tag != "arr" and v.a[1] == (info["name"] == "nth"):
        # the n-th from the end is the last once n have been taken off
        x = v.a[0]
        for _ in range(n.a[0]):
            x = mk("popped", x)
        return [(st, call("last", x))]
    return [(st, call(info["name"], v, n))]


@itmodel("Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by")
def _(I, st, it, a, info):
    nargs = 1 if info["short"].endswith("key") else 2
    f = fn_term(I, st, a[1], nargs, info)
    return [(s, call(info["name"], v, f)) for s, v in collect(I, st, it, info)]


@itmodel("Iterator::sum", "Iterator::max", "Iterator::min", "Iterator::product", "Itertools::sorted", "Itertools::join", "Itertools::sorted_unstable", "slice::join", "slice::concat")
def _(I, st, it, a, info):
    n = info["name"]
    outs = collect(I, st, it, info)
    if n in ("sorted", "sorted_unstable"):
        return [(s, mk("sorted", v)) for s, v in outs]
    return [(s, call(n, v, *[d(I, s, x) for x in a[1:]])) for s, v in outs]


@itmodel("Iterator::fold")
def _(I, st, it, a, info):
    cell = ("p", I.fid)
    I.fid += 1
    st = st.fork()
    st.mem[cell] = a[1]

    def body(s, e):
        r = []
        for s2, v in cv(I, a[2], [s.mem[cell], e], s, info):
            s2 = s2.fork()
            s2.mem[cell] = v
            r.append(("back", s2, None))
        return r
    return [(s, s.mem.pop(cell)) for _, s, _ in I.walk(st, it, body, info["depth"])]


@itmodel("Itertools::partition_map")
def _(I, st, it, a, info):
    c1, c2 = ("p", I.fid), ("p", I.fid + 1)
    I.fid += 2
    st = st.fork()
    st.mem[c1] = st.mem[c2] = mk("arr", ())

    def body(s, e):
        r = []
        for s2, v in cv(I, a[1], [e], s, info):
            v = d(I, s2, v)
            alts = [(s2, v.a[1])] if v.tag == "adt" else I.split(s2, v, "itertools::Either", ("Left", "Right"))
            for s3, var in alts:
                s3 = s3.fork()
                c = c1 if var == "Left" else c2
                s3.mem[c] = vpush(s3.mem[c], payload(v, var, "0"))
                r.append(("back", s3, None))
        return r
    res = []
    for _, s, _ in I.walk(st, it, body, info["depth"]):
        res.append((s, tup(s.mem.pop(c1), s.mem.pop(c2))))
    return res


@model("Itertools::partition_result", "Itertools::partition_result_x")
def _(I, st, a, info):
    return NotImplemented


# ---- laziness, futures -------------------------------------------------------------------------

@model("LazyLock::new", "LazyCell::new", "Lazy::new", "OnceLock::new_x")
def _(I, st, a, info):
    return [(st, mk("lazy", a[0]))]


def _match_is(names):
    def f(I, st, a, info):
        v = d(I, st, a[0])
        return [(s, TRUE if n in names else FALSE) for s, n in I.split(st, v, "ignore::Match", ("Ignore", "None", "Whitelist"))]
    return f


for _n, _vs in (("is_ignore", ("Ignore",)), ("is_none", ("None",)), ("is_whitelist", ("Whitelist",))):
    MODELS["Match::" + _n] = _match_is(_vs)


@model("Match::inner")
def _match_inner(I, st, a, info):
    v = d(I, st, a[0])
    return [(s, NONE if n == "None" else Some(payload(v, n, 0))) for s, n in I.split(st, v, "ignore::Match", ("Ignore", "None", "Whitelist"))]


@model("Deref::deref", "LazyLock::force", "Lazy::force")
def _(I, st, a, info):
    v = d(I, st, a[0])
    if v.tag == "lazy":
        outs = cv(I, v.a[0], [], st, info)
        return outs
    if v.tag == "adt" and v.a[0] == COW:
        return [(st, v.a[2][0])]
    return [(st, a[0] if a[0].tag == "mref" else v)]


@model("Future::poll")
def _(I, st, a, info):
    v = d(I, st, a[0])
    P = "core::task::poll::Poll"
    if v.tag == "cor":
        fn = I.prog.fn(v.a[0])
        if fn is None:
            return NotImplemented
        outs = I.exec_fn(fn, [v, mk("arg", "cx")], st, info["depth"] + 1, dict(v.a[2]))
        return [(s, adt(P, "Ready", (x,))) for s, x in outs]
    return [(st, adt(P, "Ready", (v,)))]


@model("tracing::__event", "__event")
def _(I, st, a, info):
    if I.keep_log:
        st = st.fork()
        st.eff = st.eff + (mk("eff", "log", tuple(I.deep(x, st) for x in a), 0),)
    return [(st, UNIT)]


@model("intrinsics::discriminant_value", "mem::discriminant")
def _(I, st, a, info):
    v = d(I, st, a[0])
    if v.tag == "adt":
        return [(st, Str("variant:" + str(v.a[1])))]
    return [(st, call("discriminant", v))]


def fresh_call(I, st, name, vals):
    """an effect and its result"""
    n = sum(1 for e in st.eff if e.tag == "eff" and e.a[0] == name and e.a[1] == vals)
    st = st.fork()
    st.eff = st.eff + (mk("eff", name, vals, n),)
    return st, mk("ecall", name, vals, n)


@model("Mutex::lock")
def _(I, st, a, info):
    """a guard is a place of its own: other threads may have written between two locks"""
    st, v = fresh_call(I, st, "Mutex::lock", (d(I, st, a[0]),))
    cell = ("lock", v)
    st.mem[cell] = v
    return [(st, Ok(mk("mref", cell, ())))]


@model("RwLock::new", "Cell::new", "RefCell::new")
def _(I, st, a, info):
    return [(st, a[0])]


@model("Mutex::new")
def _(I, st, a, info):
    st, v = fresh_call(I, st, "Mutex::new", (I.deep(a[0], st),))
    return [(st, v)]


@model("Mutex::into_inner")
def _(I, st, a, info):
    """what threads left in it"""
    return [(st, Ok(call("Mutex::into_inner", d(I, st, a[0]))))]


@model("Vec::drain")
def _(I, st, a, info):
    r = d(I, st, a[1])
    if a[0].tag != "mref" or "RangeFull" not in repr(r)[:60]:
        return I.unknown_call("Vec::drain", a, st, None, info)
    old = d(I, st, a[0])
    st = st.fork()
    I.write_loc(st, a[0].a[0], a[0].a[1], mk("arr", ()))
    return [(st, old)]


@model("DerefMut::deref_mut")
def _(I, st, a, info):
    if a[0].tag == "mref":
        v = I.load(st, a[0].a[0], a[0].a[1])
        if v.tag == "mref":
            return [(st, v)]
    return [(st, a[0])]


@model("AstNodeList::iter", "AstNodeList::into_iter")
def _(I, st, a, info):
    return [(st, mk("it", call("AstNodeList::iter", d(I, st, a[0])), False, ()))]
