"""The catalogue of derived types: the types themselves (derive_types), what each
must stream as a contract (specs/derive.rs), and the same as something to run
(harness/src/derive_catalogue.rs).

What a type must stream is computed here from the documented meaning of the attributes
(derive/src/lib.rs), without looking at the macro."""
import os
import random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LETTERS = "ABCDEFGH"
LABEL_CONST = "constant label"
INDEX_CONST = 40


# --- the catalogue -----------------------------------------------------------

def field(**k):
    return dict(dict(tag=None, data_tag=None, label=None, index=None, skip=False, flatten=False), **k)


def body(kind, fields=(), unlabeled=False, unindexed=False):
    return dict(kind=kind, fields=list(fields), unlabeled=unlabeled, unindexed=unindexed)


def typ(name, what, **k):
    return dict(dict(name=name, what=what, tag=None, label=None, index=None, transparent=False, dynamic=False,
                     unlabeled_variants=False, unindexed_variants=False, repr=False), **k)


def meta(r, p=0.5):
    return dict(tag=r.choice(["TAG_A", '"TAG_A"', "TAG_B", '"TAG_B"']) if r.random() < p else None,
                label=r.choice(['"renamed"', '"with \\"quotes\\""', "LABEL_C"]) if r.random() < p else None,
                index=r.choice([0, 1, 7, -1, -300, 2147483647, "INDEX_C"]) if r.random() < p else None)


def some_fields(r, kind, unlabeled, unindexed):
    n = r.choice([1, 2, 2, 3, 3, 4, 5]) if kind == "named" else r.choice([2, 2, 3, 3, 4])
    # flattening and explicit indexes are not documented together; nor is the index after one given by path
    mode = r.choice(["plain", "plain", "index", "flatten"])
    labeled = kind == "named" or (not unlabeled and r.random() < 0.4)
    out, path = [], False
    for i in range(n):
        f = field()
        if r.random() < 0.2:
            f["skip"] = True
            out.append(f)
            continue
        if mode == "flatten" and r.random() < 0.5:
            f["flatten"] = True
            if kind == "tuple" and labeled:
                f["label"] = '"unused"'
            out.append(f)
            continue
        if r.random() < 0.35:
            f["tag"] = r.choice(["TAG_A", '"TAG_B"'])
        if r.random() < 0.3:
            f["data_tag"] = r.choice(["TAG_B", '"TAG_A"'])
        if not unlabeled and ((kind == "tuple" and labeled) or (kind == "named" and r.random() < 0.3)):
            f["label"] = r.choice(['"first"', '"second label"', "LABEL_C"])
        if not unindexed and mode == "index" and (path or r.random() < 0.5):
            f["index"] = r.choice([0, 3, 70, -4, -1, "INDEX_C"]) if not path else r.choice([2, "INDEX_C"])
            path = f["index"] == "INDEX_C"
        out.append(f)
    if all(f["skip"] for f in out):
        out[-1] = field(label='"only"' if kind == "tuple" and labeled else None)
    # (a tuple struct with one field is a newtype)
    return out


def some_body(r):
    kind = r.choice(["named", "named", "tuple"])
    unlabeled = r.random() < 0.3
    unindexed = r.random() < 0.35
    return body(kind, some_fields(r, kind, unlabeled, unindexed), unlabeled and kind == "named", unindexed)


def catalogue():
    r = random.Random(20261118)
    out = []
    # every kind of struct, with and without each flag
    for kind in ("named", "tuple"):
        for unlabeled in ((False, True) if kind == "named" else (False,)):
            for unindexed in (False, True):
                for tag in (None, "TAG_A"):
                    out.append(("struct", dict(tag=tag), body(kind, [field(), field(), field()], unlabeled, unindexed)))
                    for at in range(3):
                        fs = [field(), field(), field()]
                        fs[at] = field(skip=True)
                        out.append(("struct", dict(tag=tag, index=at), body(kind, fs, unlabeled, unindexed)))
                        if tag is None:
                            fs = [field(), field(), field()]
                            fs[at] = field(flatten=True)
                            out.append(("struct", {}, body(kind, fs, unlabeled, unindexed)))
                            fs = [field(), field(), field()]
                            fs[at] = field(tag="TAG_B", data_tag="TAG_A")
                            out.append(("struct", {}, body(kind, fs, unlabeled, unindexed)))
                            if not unindexed:
                                fs = [field(), field(), field()]
                                fs[at] = field(index=[5, -2, 0][at])
                                out.append(("struct", {}, body(kind, fs, unlabeled, unindexed)))
                            if not unlabeled and kind == "named":
                                fs = [field(), field(), field()]
                                fs[at] = field(label=['"x"', "LABEL_C", '"z"'][at])
                                out.append(("struct", {}, body(kind, fs, unlabeled, unindexed)))
    out.append(("struct", {}, body("named", [])))
    out.append(("struct", {}, body("tuple", [])))
    out.append(("struct", dict(tag="TAG_B", label='"none"', index=2), body("named", [])))
    for _ in range(60):
        out.append(("struct", meta(r, 0.3), some_body(r)))
    for _ in range(8):
        out.append(("struct", meta(r), body("newtype", [field()])))
        out.append(("struct", meta(r), body("unit")))
    out.append(("struct", {}, body("newtype", [field()])))
    out.append(("struct", {}, body("unit")))
    out.append(("struct", dict(transparent=True), body("newtype", [field()])))
    types = []
    for i, (what, m, b) in enumerate(out):
        types.append(typ(f"S{i:03}", "struct", body=b, **m))
    # enums
    enums = []
    plain = [("unit", body("unit")), ("new", body("newtype", [field()])), ("tup", body("tuple", [field(), field()])), ("rec", body("named", [field(), field()]))]
    for flags in ({}, dict(unlabeled_variants=True), dict(unindexed_variants=True), dict(unlabeled_variants=True, unindexed_variants=True), dict(dynamic=True)):
        enums.append((flags, [dict(body=b, tag=None, label=None, index=None, discr=None) for _, b in plain + plain[:1]]))
    for ds in ([5, None, None, -3, None], [None, 10, None, 2, None], [None, None, None, 7, 9], [-2, None, None, None, None], [3, 1, None, 0, None]):
        enums.append((dict(repr=True), [dict(body=b, tag=None, label=None, index=None, discr=d) for (_, b), d in zip(plain + plain[:1], ds)]))
    for _ in range(36):
        flags = dict(unlabeled_variants=r.random() < 0.2, unindexed_variants=r.random() < 0.2, dynamic=False)
        flags["dynamic"] = not any(flags.values()) and r.random() < 0.15
        # every variant has an index of its own, or none has
        own = r.random() < 0.4 and not flags["unindexed_variants"] and not flags["dynamic"]
        discr = not own and r.random() < 0.4
        vs = []
        used = set()
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            b = r.choice([body("unit"), body("newtype", [field()]), some_body(r), some_body(r)])
            v = dict(body=b, tag=None, label=None, index=None, discr=None)
            if not flags["dynamic"]:
                if r.random() < 0.3:
                    v["tag"] = r.choice(["TAG_A", '"TAG_B"'])
                if r.random() < 0.4 and not flags["unlabeled_variants"]:
                    v["label"] = r.choice(['"renamed"', "LABEL_C"])
                if own:
                    v["index"] = r.choice([0, 5, -7, "INDEX_C"])
            elif b["kind"] == "unit" and r.random() < 0.5:
                v["label"] = '"renamed"'
            if discr and r.random() < 0.5:
                v["discr"] = r.choice([x for x in range(-20, 90, 10) if not any(abs(x - u) < 8 for u in used)])
            used.add(v["discr"] if v["discr"] is not None else (last + 1 if vs else 0))
            last = v["discr"] if v["discr"] is not None else (last + 1 if vs else 0)
            vs.append(v)
        m = {} if flags["dynamic"] else meta(r, 0.3)
        enums.append((dict(flags, repr=discr, **m), vs))
    for i, (m, vs) in enumerate(enums):
        ds, seen, last, ok = [v["discr"] for v in vs], set(), -1, True
        for d in ds:
            last = d if d is not None else last + 1
            ok &= last not in seen
            seen.add(last)
        if ok:
            types.append(typ(f"E{i:03}", "enum", variants=vs, **m))
    return types


# --- the types, as Rust --------------------------------------------------------

def attr(**k):
    parts = []
    for a, v in k.items():
        if v is True:
            parts.append(a)
        elif v is not None and v is not False:
            parts.append(f"{a} = {v}")
    return f"#[sval({', '.join(parts)})] " if parts else ""


def params(t):
    n = max([len(b["fields"]) for b in ([t["body"]] if t["what"] == "struct" else [v["body"] for v in t["variants"]])] + [0])
    # a parameter that appears in no field is an error
    return LETTERS[:n]


def fname(b, i):
    return f"f{i}" if b["kind"] == "named" else str(i)


def rust_fields(b, attrs, vis="pub "):
    if b["kind"] == "unit":
        return ""
    fs = []
    for i, f in enumerate(b["fields"]):
        a = attr(tag=f["tag"], data_tag=f["data_tag"], label=f["label"], index=f["index"], skip=f["skip"], flatten=f["flatten"]) if attrs else ""
        fs.append(a + (f"{vis}f{i}: {LETTERS[i]}" if b["kind"] == "named" else f"{vis}{LETTERS[i]}"))
    return (" { " + ", ".join(fs) + " }") if b["kind"] == "named" else "(" + ", ".join(fs) + ")"


def rust_type(t, attrs=True):
    g = params(t)
    gen = f"<{', '.join(g)}>" if g else ""
    out = []
    if attrs:
        out.append("#[derive(Value)]")
        if t["repr"]:
            out.append("#[repr(isize)]")
        b = t.get("body", body("unit"))
        a = attr(tag=t["tag"], label=t["label"], index=t["index"], transparent=t["transparent"], dynamic=t["dynamic"],
                 unlabeled_variants=t["unlabeled_variants"], unindexed_variants=t["unindexed_variants"],
                 unlabeled_fields=b["unlabeled"], unindexed_fields=b["unindexed"])
        if a:
            out.append(a.strip())
    if t["what"] == "struct":
        end = "" if t["body"]["kind"] == "named" else ";"
        out.append(f"pub struct {t['name']}{gen}{rust_fields(t['body'], attrs)}{end}")
    else:
        vs = []
        for i, v in enumerate(t["variants"]):
            b = v["body"]
            a = attr(tag=v["tag"], label=v["label"], index=v["index"], unlabeled_fields=b["unlabeled"], unindexed_fields=b["unindexed"]) if attrs else ""
            d = f" = {v['discr']}" if attrs and v["discr"] is not None else ""
            vs.append(f"    {a}V{i}{rust_fields(b, attrs, '')}{d},")
        out.append(f"pub enum {t['name']}{gen} {{\n" + "\n".join(vs) + "\n}")
    return "\n".join(out)


# --- what they must stream -------------------------------------------------------
# A label is ("i", text) for an identifier, ("s", text) for a given text, ("c",) for the
# constant; an index is ("o", expr) for an offset, ("e", n) for a given one.

def label_of(given, ident):
    if given is None:
        return ("i", ident)
    return ("c",) if given == "LABEL_C" else ("s", given[1:-1].replace('\\"', '"'))


def index_of(given):
    return None if given is None else ("e", INDEX_CONST if given == "INDEX_C" else given)


def tag_of(given):
    return given.strip('"') if given else None


def fields_pieces(b, m):
    """[("ev", name, args)], [("val", i)], [("flat", kind, i, at)]"""
    live = [(i, f) for i, f in enumerate(b["fields"]) if not f["skip"]]
    named = b["kind"] == "named"
    labeled = named and not b["unlabeled"] or (bool(live) and not named and any(f["label"] for _, f in live))
    indexed = not b["unindexed"]
    kind = {(True, True): "RecordTuple", (True, False): "Record", (False, True): "Tuple", (False, False): "Seq"}[labeled, indexed]
    count = None if any(f["flatten"] for _, f in live) else len(live)
    out = []
    if kind == "Seq":
        out += [("ev", "TaggedBegin", [m]), ("ev", "SeqBegin", [("n", count)])]
    else:
        out += [("ev", kind + "Begin", [m, ("n", count)])]
    at, nxt, explicit = "0", 0, False
    base, plus = None, 0
    for i, f in live:
        here = base if base else ""
        off = ("o", base, plus)
        if f["flatten"]:
            out.append(("flat", kind, i, off))
            base, plus = (i, off), 0
            continue
        ix = None
        if indexed:
            if f["index"] is not None:
                v = INDEX_CONST if f["index"] == "INDEX_C" else f["index"]
                ix, nxt, explicit = ("e", v), v + 1, True
            elif explicit:
                ix, nxt = ("e", nxt), nxt + 1
            else:
                ix, nxt, plus = off, nxt + 1, plus + 1
        lb = label_of(f["label"], f"f{i}") if labeled else None
        args = [("t", tag_of(f["tag"]))] + ([("l", lb)] if labeled else []) + ([("x", ix)] if indexed else [])
        if kind == "Seq":
            args = []
        out.append(("ev", kind + "ValueBegin", args))
        if f["data_tag"]:
            dm = ("m", tag_of(f["data_tag"]), None, None)
            out += [("ev", "TaggedBegin", [dm]), ("val", i), ("ev", "TaggedEnd", [dm])]
        else:
            out.append(("val", i))
        out.append(("ev", kind + "ValueEnd", args))
    out += [("ev", "SeqEnd", []), ("ev", "TaggedEnd", [m])] if kind == "Seq" else [("ev", kind + "End", [m])]
    return out


def body_pieces(b, m, transparent):
    if b["kind"] == "unit":
        return [("ev", "Tag", [m])]
    if b["kind"] == "newtype":
        return [("val", 0)] if transparent else [("ev", "TaggedBegin", [m]), ("val", 0), ("ev", "TaggedEnd", [m])]
    return fields_pieces(b, m)


def pieces(t):
    """One list for a struct, one for each variant of an enum."""
    if t["what"] == "struct":
        m = ("m", tag_of(t["tag"]), label_of(t["label"], t["name"]), index_of(t["index"]))
        return [body_pieces(t["body"], m, t["transparent"])]
    out, nxt, explicit = [], 0, False
    em = ("m", tag_of(t["tag"]), label_of(t["label"], t["name"]), index_of(t["index"]))
    for i, v in enumerate(t["variants"]):
        ix = index_of(v["index"])
        if ix is None and not t["dynamic"] and not t["unindexed_variants"]:
            if v["discr"] is not None:
                explicit, nxt = True, v["discr"]
            ix = ("e", nxt) if explicit else ("o", None, nxt)
            nxt += 1
        lb = label_of(v["label"], f"V{i}")
        if t["unlabeled_variants"] or (t["dynamic"] and v["body"]["kind"] != "unit"):
            lb = None
        p = body_pieces(v["body"], ("m", tag_of(v["tag"]), lb, ix), t["dynamic"])
        if not t["dynamic"]:
            p = [("ev", "EnumBegin", [em])] + p + [("ev", "EnumEnd", [em])]
        out.append(p)
    return out


# --- as a contract ---------------------------------------------------------------

def s_opt(x, f):
    return "None" if x is None else f"Some({f(x)})"


def rstr(t):
    return '"' + t.replace('"', '\\"') + '"'


def s_label(l):
    if l[0] == "i":
        return f"ident_v({rstr(l[1])}@)"
    return "label_c_v()" if l[0] == "c" else f"text_v({rstr(l[1])}@)"


def s_off(o, val):
    _, base, plus = o
    if base is None:
        return str(plus)
    i, at = base
    return f"flat_next({val(i)}, {s_off(at, val)}) + {plus}"


def s_index(x, val):
    return f"offset_v({s_off(x, val)})" if x[0] == "o" else f"given_v({x[1]})"


def s_arg(a, val):
    if a[0] == "m":
        return ", ".join([s_opt(a[1], str), s_opt(a[2], s_label), s_opt(a[3], lambda x: s_index(x, val))])
    if a[0] == "t":
        return s_opt(a[1], str)
    if a[0] == "l":
        return s_label(a[1])
    if a[0] == "x":
        return s_index(a[1], val)
    return "None" if a[1] is None else f"Some({a[1]}usize)"


FLAT = {"RecordTuple": "record_tuple", "Record": "record", "Tuple": "tuple", "Seq": "seq"}


def s_piece(p, val):
    if p[0] == "ev":
        return f"seq![Ev::{p[1]}" + (f"({', '.join(s_arg(a, val) for a in p[2])})" if p[2] else "") + "]"
    if p[0] == "val":
        return val(p[1])
    return f"flat_{FLAT[p[1]]}({val(p[2])}" + (f", {s_off(p[3], val)}" if p[1] != "Seq" else "") + ")"


def s_chain(ps, val):
    """(spec, proof steps)"""
    x, steps = "Seq::<Ev>::empty()", ["d_zero(o, l);"]
    for p in ps:
        e = s_piece(p, val)
        n = len(steps)
        if n == 1:
            steps.append("let x1 = Seq::<Ev>::empty();")
            n = 2
        k = len(steps) // 2
        steps.append(f"let e{k} = {e[5:-1] if p[0] == 'ev' else e}; " + (f"d_ev(o, x{k}, l, e{k});" if p[0] == "ev" else f"d_val(o, x{k}, l, e{k});"))
        steps.append(f"let x{k + 1} = x{k} + " + (f"seq![e{k}];" if p[0] == "ev" else f"e{k};"))
        x = f"({x} + {e})"
    return x, steps


def binding(t, k):
    b = t["body"] if t["what"] == "struct" else t["variants"][k]["body"]
    path = t["name"] if t["what"] == "struct" else f"{t['name']}::V{k}"
    if b["kind"] == "unit":
        return path
    names = [f"{fname(b, i)}: b{i}" for i in range(len(b["fields"]))]
    return f"{path} {{ {', '.join(names)} }}"


def contract(t):
    g = params(t)
    gen, bound = (f"<{', '.join(g)}>", f"<{', '.join(x + ': Value' for x in g)}>") if g else ("", "")
    out = [rust_type(t, False)]
    val = lambda i: f"b{i}.evs()"
    arms, proofs = [], []
    for k, ps in enumerate(pieces(t)):
        x, steps = s_chain(ps, val)
        arms.append(f"            {binding(t, k)} => {x},")
        proofs.append(f"            {binding(t, k)} => {{\n                " + "\n                ".join(steps) + "\n            },")
    out.append(f"impl{bound} Value for {t['name']}{gen} {{\n    open spec fn evs(&self) -> Seq<Ev> {{\n        match self {{\n" + "\n".join(arms) + "\n        }\n    }\n}")
    path = r"~\{impl.*sval::Value for " + t["name"] + r"\b.*\}"
    out.append(f"//@impl derived | {path}\n//@header impl{bound} ValueStream for {t['name']}{gen}\n//@only stream\n//@generic S\n" + SUBS +
               "//@head stream\n    proof {\n        let o = (*old(stream)).st().log;\n        let l = (*old(stream)).st().lends;\n        match self {\n"
               + "\n".join(proofs) + "\n        }\n    }\n//@end")
    if not t["dynamic"]:
        # a transparent newtype has no tag of its own: what `tag` says of it is not documented
        if not t["transparent"]:
            out.append(f"//@impl derived | {path}\n//@header impl{bound} {t['name']}{gen}\n//@only tag\n" + SUBS +
                       f"//@spec tag\n        ensures r == {s_opt(tag_of(t['tag']), str)},\n//@end")
    return "\n".join(out)


SUBS = r"""//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
"""

HEAD = r"""// C19: what #[derive(Value)] writes for a catalogue of types (generated by lib/mkderive.py).
// The functions are the macro's own output for derive_types, expanded from /repo's
// current tree on every run; the contracts come from the attributes' documentation.
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@include stream.rs
pub mod sval { pub use super::*; }

pub const TAG_A: Tag = Tag { id: 101 };
pub const TAG_B: Tag = Tag { id: 102 };
pub const INDEX_C: isize = 40;
#[verifier::external_body]
pub fn label_c() -> (r: Label<'static>) ensures r@ == label_c_v() { unimplemented!() }
pub open spec fn label_c_v() -> LabelV { LabelV { text: "constant label"@, tag: None } }
pub open spec fn ident_v(s: Seq<char>) -> LabelV { LabelV { text: s, tag: Some(tags::VALUE_IDENT) } }
pub open spec fn text_v(s: Seq<char>) -> LabelV { LabelV { text: s, tag: None } }
pub open spec fn offset_v(i: int) -> IndexV { IndexV { num: i, tag: Some(tags::VALUE_OFFSET) } }
pub open spec fn given_v(i: int) -> IndexV { IndexV { num: i, tag: None } }

// What flattening sends (C14): each item of the value on the kind of parent at hand.
pub uninterp spec fn flat_record_tuple(e: Seq<Ev>, at: int) -> Seq<Ev>;
pub uninterp spec fn flat_record(e: Seq<Ev>, at: int) -> Seq<Ev>;
pub uninterp spec fn flat_tuple(e: Seq<Ev>, at: int) -> Seq<Ev>;
pub uninterp spec fn flat_seq(e: Seq<Ev>) -> Seq<Ev>;
pub uninterp spec fn flat_next(e: Seq<Ev>, at: int) -> int;
pub mod flatten {
    use super::*;
    #[verifier::external_body]
    pub fn flatten_to_record_tuple<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V, at: isize) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_record_tuple(v.evs(), at as int), flat_next(v.evs(), at as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_to_record<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V, at: isize) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_record(v.evs(), at as int), flat_next(v.evs(), at as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_to_tuple<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V, at: isize) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_tuple(v.evs(), at as int), flat_next(v.evs(), at as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_to_seq<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_seq(v.evs()), flat_next(v.evs(), 0)),
    { unimplemented!() }
}
// (indexes stay within isize, as in C14)
pub open spec fn flat_sent(old: St, new: St, r: Result<isize>, evs: Seq<Ev>, next: int) -> bool {
    &&& r.is_err() == new.broken
    &&& new.lends == old.lends
    &&& r.is_ok() ==> new.log =~= old.log + lend(evs, old.lends) && r->Ok_0 == next && next < isize::MAX - 1000
}

// one event or one value, seen from the log
pub proof fn d_zero(o: Seq<Ev>, l: bool)
    ensures o + lend(Seq::<Ev>::empty(), l) == o,
{ assert(o + lend(Seq::<Ev>::empty(), l) =~= o); }
pub proof fn d_ev(o: Seq<Ev>, x: Seq<Ev>, l: bool, e: Ev)
    requires lend1(e, l) == e,
    ensures (o + lend(x, l)) + seq![e] == o + lend(x + seq![e], l),
{ assert((o + lend(x, l)) + seq![e] =~= o + lend(x + seq![e], l)); }
pub proof fn d_val(o: Seq<Ev>, x: Seq<Ev>, l: bool, v: Seq<Ev>)
    ensures (o + lend(x, l)) + lend(v, l) == o + lend(x + v, l),
{ assert((o + lend(x, l)) + lend(v, l) =~= o + lend(x + v, l)); }
"""


# --- as something to run -----------------------------------------------------------

def r_label(l):
    if l[0] == "i":
        return f"ident({rstr(l[1])})"
    return "text(\"constant label\")" if l[0] == "c" else f"text({rstr(l[1])})"


def r_off(o):
    _, base, plus = o
    return str(plus) if base is None else f"at{base[0]} + {plus}"


def r_index(x):
    return f"offset({r_off(x)})" if x[0] == "o" else f"given({x[1]})"


def r_ref(x, f):
    return "None" if x is None else f"Some(&{f(x)})"


def r_arg(a):
    if a[0] == "m":
        return ", ".join([r_ref(a[1], str), r_ref(a[2], r_label), r_ref(a[3], r_index)])
    if a[0] == "t":
        return r_ref(a[1], str)
    if a[0] == "l":
        return "&" + r_label(a[1])
    if a[0] == "x":
        return "&" + r_index(a[1])
    return "None" if a[1] is None else f"Some({a[1]})"


def snake(n):
    return "".join(("_" if i else "") + c.lower() if c.isupper() else c for i, c in enumerate(n))


def r_piece(p):
    if p[0] == "ev":
        return f"s.{snake(p[1])}({', '.join(r_arg(a) for a in p[2])})?;"
    if p[0] == "val":
        return f"s.value(&f[{p[1]}])?;"
    if p[1] == "Seq":
        return f"sval_flatten::flatten_to_seq(&mut *s, &f[{p[2]}])?;"
    return f"let at{p[2]} = sval_flatten::flatten_to_{FLAT[p[1]]}(&mut *s, &f[{p[2]}], {r_off(p[3])})?;"


def runnable(types):
    exps, cases = [], []
    n = 0
    for t in types:
        g = params(t)
        for k, ps in enumerate(pieces(t)):
            b = t["body"] if t["what"] == "struct" else t["variants"][k]["body"]
            path = t["name"] if t["what"] == "struct" else f"{t['name']}::V{k}"
            tf = f"::<{', '.join('V' for _ in g)}>" if g else ""
            head = (t["name"] + tf) if t["what"] == "struct" else f"{t['name']}{tf}::V{k}"
            fl = any(p[0] == "flat" for p in ps)
            exps.append(f"        {n} => {{ {' '.join(r_piece(p) for p in ps)} }}")
            if b["kind"] == "unit":
                lit = head
            elif b["kind"] == "named":
                lit = head + " { " + ", ".join(f"f{i}: f[{i}].clone()" for i in range(len(b["fields"]))) + " }"
            else:
                lit = head + "(" + ", ".join(f"f[{i}].clone()" for i in range(len(b["fields"]))) + ")"
            tg = "None" if t["transparent"] or t["dynamic"] else f"Some({s_opt(tag_of(t['tag']), str)})"
            cases.append(f"        {n} => one({n}, {'true' if fl else 'false'}, &{lit}, f, {tg}, faults),")
            n += 1
    return f"""//! The catalogue of derived types, run (generated by lib/mkderive.py).
use crate::tree::Node as V;
use crate::derive_props::one;
use derive_types::*;

pub const CASES: usize = {n};

fn ident(t: &'static str) -> sval::Label<'static> {{ sval::Label::new(t).with_tag(&sval::tags::VALUE_IDENT) }}
fn text(t: &'static str) -> sval::Label<'static> {{ sval::Label::new(t) }}
fn offset(i: isize) -> sval::Index {{ sval::Index::new_isize(i).with_tag(&sval::tags::VALUE_OFFSET) }}
fn given(i: isize) -> sval::Index {{ sval::Index::new_isize(i) }}

pub struct Expected<'a>(pub usize, pub &'a [V]);
impl<'a> sval::Value for Expected<'a> {{
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {{
        parts(self.0, self.1, s)
    }}
}}
#[rustfmt::skip]
#[allow(unused_variables)]
fn parts<'sval, S: sval::Stream<'sval> + ?Sized>(case: usize, f: &'sval [V], s: &mut S) -> sval::Result {{
    match case {{
""" + "\n".join(exps) + """
        _ => unreachable!(),
    }
    Ok(())
}
#[rustfmt::skip]
#[allow(unused_variables)]
pub fn run(case: usize, f: &[V], faults: bool) {
    match case {
""" + "\n".join(cases) + """
        _ => unreachable!(),
    }
}
"""


def grouped(types, n=16):
    """One module for every n types: the verifier takes modules in parallel."""
    out = []
    for k in range(0, len(types), n):
        out.append(f"pub mod types{k // n} {{\nuse super::*;\n" + "\n".join(contract(t) for t in types[k:k + n]) + "\n}")
    return "\n".join(out)


def main():
    types = catalogue()
    lib = ["//! A catalogue of types that derive `Value` (generated by lib/mkderive.py).", "#![allow(dead_code)]", "use sval_derive::Value;", "",
           'pub const TAG_A: sval::Tag = sval::Tag::new("derive a");', 'pub const TAG_B: sval::Tag = sval::Tag::new("derive b");',
           f'pub const LABEL_C: sval::Label<\'static> = sval::Label::new("{LABEL_CONST}");', f"pub const INDEX_C: isize = {INDEX_CONST};", ""]
    lib += [rust_type(t) for t in types]
    open(os.path.join(ROOT, "derive_types", "src", "lib.rs"), "w").write("\n".join(lib) + "\n")
    open(os.path.join(ROOT, "specs", "derive.rs"), "w").write(HEAD + grouped(types) + "\n}\nfn main() {}\n")
    open(os.path.join(ROOT, "harness", "src", "derive_catalogue.rs"), "w").write(runnable(types))
    print(len(types), "types")


if __name__ == "__main__":
    main()
