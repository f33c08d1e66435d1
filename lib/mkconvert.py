"""Writes specs/convert.rs (C09)."""
import os
import re
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
stream = open(os.path.join(SPECS, "stream.rs")).read()
default = open(os.path.join(SPECS, "default_stream.rs")).read()
canon = open(os.path.join(SPECS, "canon.rs")).read()

INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]


def contract(m):
    """The event a method of Stream stands for, from stream.rs."""
    return EVENTS[m]


trait = stream[stream.index("pub trait Stream<'sval> {"):stream.index("// `v.stream(stream)` for a value only known")]
trait = re.sub(r"\n\s*requires !\(\*old\(self\)\)\.st\(\)\.broken,", "", trait)
trait = re.sub(r"\(\*old\(self\)\)\.st\(\)\.lends\]", "true]", trait)
trait = re.sub(r"\(\*old\(self\)\)\.st\(\)\.lends\)\]", "true)]", trait)
trait = re.sub(r"sent\(\(\*old\(self\)\)\.st\(\), \(\*final\(self\)\)\.st\(\), r, seq!\[(.*)\]\);", r"took((*old(self)).st(), (*final(self)).st(), r, \1);", trait)
trait = re.sub(r"sent\(\(\*old\(self\)\)\.st\(\), \(\*final\(self\)\)\.st\(\), r, lend\(v\.evs\(\), [^;]*\)\);", r"told((*old(self)).st(), (*final(self)).st(), r, v.evs(), fails(v));", trait)
assert "sent(" not in trait and "lends" not in trait
EVENTS = dict(re.findall(r"fn (\w+)\(&mut self[^\n]*\n\s*ensures took\(\(\*old\(self\)\)\.st\(\), \(\*final\(self\)\)\.st\(\), r, (.*)\);", trait))

# the default bodies, against the same contract
dflt = default
dflt = re.sub(r"requires !\(\*old\(stream\)\)\.st\(\)\.broken, (.*)\n", r"requires \1\n", dflt)
dflt = re.sub(r"\n\s*requires !\(\*old\(stream\)\)\.st\(\)\.broken,", "", dflt)
dflt = re.sub(r"r\.is_err\(\) == \(\*final\(stream\)\)\.st\(\)\.broken,\n\s*\(\*final\(stream\)\)\.st\(\)\.lends == \(\*old\(stream\)\)\.st\(\)\.lends,\n\s*r\.is_ok\(\) ==> canon\(\(\*final\(stream\)\)\.st\(\)\.log\) =~= canon\(\(\*old\(stream\)\)\.st\(\)\.log\)\n\s*\+ (.*),\n",
              r"(*final(stream)).st().takes == (*old(stream)).st().takes,\n        forall|l: Seq<C>| r.is_ok() && #[trigger] ((*old(stream)).st().did)(l) ==> ((*final(stream)).st().did)(l + \1),\n", dflt)
dflt = re.sub(r"sent\(\(\*old\(stream\)\)\.st\(\), \(\*final\(stream\)\)\.st\(\), r, lend\(v\.evs\(\), [^;\n]*\)\),", r"told((*old(stream)).st(), (*final(stream)).st(), r, v.evs(), fails(v)),", dflt)
dflt = dflt.replace("""        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        canon((*stream).st().log) =~= canon((*old(stream)).st().log) + c_bytes(fragment@.take(it.index@)),
""", """        (*stream).st().takes == (*old(stream)).st().takes,
        forall|l: Seq<C>| #[trigger] ((*old(stream)).st().did)(l) ==> ((*stream).st().did)(l + c_bytes(fragment@.take(it.index@))),
""")
# what an integer default passes on to decides whether it is taken
NEXT = {"u8": "Ev::U16(value as u16)", "u16": "Ev::U32(value as u32)", "u32": "Ev::U64(value as u64)", "u64": "Ev::U128(value as u128)",
        "u128": "Ev::I64(value as i64)", "i8": "Ev::I16(value as i16)", "i16": "Ev::I32(value as i32)", "i32": "Ev::I64(value as i64)", "i128": "Ev::I64(value as i64)",
        "f32": "Ev::F64(widened(value))", "enum_begin": "Ev::TaggedBegin(ot(tag), ol(label), oi(index))", "enum_end": "Ev::TaggedEnd(ot(tag), ol(label), oi(index))"}
for m, ev in NEXT.items():
    cond = "value <= i64::MAX && " if m == "u128" else "i64::MIN <= value <= i64::MAX && " if m == "i128" else ""
    dflt, n = re.subn(r"(//@fn sval \| stream::default_stream::%s\n(?:(?!//@end).*\n)*?    ensures meant\(.*\),\n)" % m,
                      lambda k: k.group(1) + f"        {cond}((*old(stream)).st().takes)({ev}) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, {EVENTS[m]}),\n", dflt)
    assert n == 1, m
dflt, n = re.subn(r"(//@fn sval \| stream::default_stream::tag_hint\n//@spec\n    ensures )", r"\1r.is_ok(), (*final(stream)).st() == (*old(stream)).st(), ", dflt)
assert n == 1
T = "ot(tag), ol(label), oi(index)"
SPLIT = {
    "tuple_begin": (f"Ev::TupleBegin({T}, num_entries)", [f"Ev::TaggedBegin({T})", "Ev::SeqBegin(num_entries)"]),
    "tuple_end": (f"Ev::TupleEnd({T})", ["Ev::SeqEnd", f"Ev::TaggedEnd({T})"]),
    "record_end": (f"Ev::RecordEnd({T})", ["Ev::MapEnd", f"Ev::TaggedEnd({T})"]),
    "map_key_begin": ("Ev::MapKeyBegin", ["Ev::SeqValueBegin", "Ev::TupleBegin(None, None, None, Some(2))", "Ev::TupleValueBegin(None, arbitrary())"]),
    "map_value_end": ("Ev::MapValueEnd", ["Ev::TupleValueEnd(None, arbitrary())", "Ev::TupleEnd(None, None, None)", "Ev::SeqValueEnd"]),
}
for m, (whole, parts) in SPLIT.items():
    cs = " + ".join(f"c1({x})" for x in parts)
    dflt, n = re.subn(r"(//@fn sval \| stream::default_stream::%s\n(?:(?!//@end).*\n)*?)(//@end)" % m,
                      lambda k: k.group(1) + f"//@head\n    proof {{ assert(c1({whole}) =~= {cs}); }}\n" + k.group(2), dflt)
    assert n == 1, m
dflt = dflt.replace("        c_bytes_push(fragment@.take(it.index@), fragment@[it.index@]);\n", "        c_bytes_push(fragment@.take(it.index@), fragment@[it.index@]);\n"
                    "        assert(seq![C::SeqValueBegin, C::Int(fragment@[it.index@] as int), C::SeqValueEnd] =~= c1(Ev::SeqValueBegin) + c1(Ev::U8(fragment@[it.index@])) + c1(Ev::SeqValueEnd));\n")
assert "broken" not in dflt and "lends" not in dflt, [l for l in dflt.split("\n") if "broken" in l or "lends" in l]
canon = canon[:canon.index("// The call stands for the event it was given.")]

o = [r'''// C09: converting a value to a primitive never changes it.
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@include data.rs
//@include events.rs
// A stream is known by three things: which sequences of events, in the words of the
// required methods, are consistent with its state (`did`); which events it is sure to
// accept (`takes`); and the scalar it holds (`full`).
pub ghost struct St { pub did: spec_fn(Seq<C>) -> bool, pub takes: spec_fn(Ev) -> bool, pub full: Option<C> }

pub trait Value {
    spec fn evs(&self) -> Seq<Ev>;
}
// Whether a value reports an error of its own.
pub uninterp spec fn fails<V: ?Sized>(v: &V) -> bool;
''', trait, r'''
// Text is counted in bytes.
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
pub open spec fn text_evs(s: Seq<char>) -> Seq<Ev> {
    seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, true), Ev::TextEnd]
}
impl Value for str { open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) } }
//@include builtin.rs
''', canon, r'''
// The call stands for the event it was given.
pub open spec fn meant(old: St, new: St, r: Result, e: Ev) -> bool {
    &&& new.takes == old.takes
    &&& r.is_ok() ==> forall|l: Seq<C>| #[trigger] (old.did)(l) ==> (new.did)(l + c1(e))
}
// The scalar held after an event that is taken.
pub open spec fn fill(f: Option<C>, e: Ev) -> Option<C> {
    match e {
        Ev::Bool(b) => Some(C::Bool(b)),
        Ev::F32(v) => Some(C::F64(widened(v))),
        Ev::F64(v) => Some(C::F64(v)),
''' + "".join(f"        Ev::{t.upper()}(v) => Some(C::Int(v as int)),\n" for t in INTS) + r'''        _ => f,
    }
}
pub open spec fn took(old: St, new: St, r: Result, e: Ev) -> bool {
    &&& meant(old, new, r, e)
    &&& (old.takes)(e) ==> r.is_ok() && new.full == fill(old.full, e)
}
pub open spec fn all_taken(s: St, evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> (s.takes)(#[trigger] evs[i]) }
pub open spec fn filled(f: Option<C>, evs: Seq<Ev>) -> Option<C>
    decreases evs.len(),
{ if evs.len() == 0 { f } else { fill(filled(f, evs.drop_last()), evs.last()) } }
// A whole value: its events in order, unless the stream or the value fails.
pub open spec fn told(old: St, new: St, r: Result, evs: Seq<Ev>, fails: bool) -> bool {
    &&& new.takes == old.takes
    &&& r.is_ok() ==> forall|l: Seq<C>| #[trigger] (old.did)(l) ==> (new.did)(l + canon(evs))
    &&& !fails && all_taken(old, evs) ==> r.is_ok() && new.full == filled(old.full, evs)
}
// `v.stream(stream)` for a value only known by its interface: the contract of `Value`.
#[verifier::external_body]
pub fn stream_any<'sval, V: Value + ?Sized, S: Stream<'sval> + ?Sized>(v: &'sval V, stream: &mut S) -> (r: Result)
    ensures told((*old(stream)).st(), (*final(stream)).st(), r, v.evs(), fails(v)),
{ unimplemented!() }

''', dflt, r'''
// ---------------------------------------------------------------- what a conversion may answer

pub open spec fn is_tag_c(c: C) -> bool { c is TaggedBegin || c is TaggedEnd }
// What may stand around the content: tags, and the brackets of text (1) or of binary (2).
pub open spec fn frame(c: C, k: int) -> bool {
    is_tag_c(c) || (k == 1 && (c is TextBegin || c is TextEnd)) || (k == 2 && (c is SeqBegin || c is SeqEnd))
}
pub open spec fn framed(l: Seq<C>, k: int) -> bool { forall|i: int| 0 <= i < l.len() ==> frame(#[trigger] l[i], k) }
pub open spec fn at(l: Seq<C>, s: Seq<C>, n: int, k: int) -> bool {
    &&& 0 <= n && n + s.len() <= l.len()
    &&& l.subrange(n, n + s.len()) == s
    &&& framed(l.skip(n + s.len()), k)
    &&& k > 0 ==> framed(l.take(n), k)
}
// The events end in `s`, but for what may stand around it.
pub open spec fn says(l: Seq<C>, s: Seq<C>, k: int) -> bool { exists|n: int| #[trigger] at(l, s, n, k) }
pub open spec fn holds(v: Option<Seq<C>>, l: Seq<C>, k: int) -> bool {
    match v { None => framed(l, k), Some(s) => says(l, s, k) }
}
pub open spec fn holds_one(v: Option<Seq<C>>, seen: bool, l: Seq<C>, k: int) -> bool {
    match v { None => seen || framed(l, k), Some(s) => seen && says(l, s, k) }
}
pub proof fn says_end(l: Seq<C>, s: Seq<C>, k: int)
    requires k > 0 ==> framed(l, k),
    ensures says(l + s, s, k),
{
    assert((l + s).subrange(l.len() as int, l.len() + s.len() as int) =~= s);
    assert((l + s).take(l.len() as int) =~= l);
    assert(at(l + s, s, l.len() as int, k));
}
pub proof fn says_more(l: Seq<C>, s: Seq<C>, t: Seq<C>, k: int)
    requires says(l, s, k), framed(t, k),
    ensures says(l + t, s, k),
{
    let n = choose|n: int| at(l, s, n, k);
    assert((l + t).subrange(n, n + s.len()) =~= s);
    assert((l + t).skip(n + s.len()) =~= l.skip(n + s.len()) + t);
    assert((l + t).take(n) =~= l.take(n));
    assert(at(l + t, s, n, k));
}
pub proof fn framed_more(l: Seq<C>, t: Seq<C>, k: int)
    requires framed(l, k), framed(t, k),
    ensures framed(l + t, k),
{ }
pub broadcast proof fn holds_end(l: Seq<C>, s: Seq<C>)
    ensures #[trigger] holds(Some(s), l + s, 0),
{ says_end(l, s, 0); }
pub broadcast proof fn holds_more(v: Option<Seq<C>>, l: Seq<C>, t: Seq<C>)
    requires holds(v, l, 0), framed(t, 0),
    ensures #[trigger] holds(v, l + t, 0),
{ if let Some(s) = v { says_more(l, s, t, 0); } }
pub broadcast proof fn one_end(l: Seq<C>, s: Seq<C>, k: int)
    requires holds_one(None, false, l, k), k > 0,
    ensures #[trigger] holds_one(Some(s), true, l + s, k),
{ says_end(l, s, k); }
pub broadcast proof fn one_more(v: Option<Seq<C>>, seen: bool, l: Seq<C>, t: Seq<C>, k: int)
    requires holds_one(v, seen, l, k), framed(t, k),
    ensures #[trigger] holds_one(v, seen, l + t, k),
{ if let Some(s) = v { says_more(l, s, t, k); } }
pub broadcast proof fn empty_left(l: Seq<C>)
    ensures #[trigger] (Seq::<C>::empty() + l) == l,
{ assert(Seq::<C>::empty() + l =~= l); }
pub proof fn some_says(v: Seq<Ev>, s: Seq<C>, k: int)
    requires says(canon(v), s, k),
    ensures says(canon(some_evs(v)), s, k),
{
    let a = Ev::TaggedBegin(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    let b = Ev::TaggedEnd(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    canon_append(seq![a] + v, seq![b]);
    canon_append(seq![a], v);
    canon_one(a);
    canon_one(b);
    let n = choose|n: int| at(canon(v), s, n, k);
    let l = canon(some_evs(v));
    assert(l =~= c1(a) + canon(v) + c1(b));
    assert(l.subrange(n + 1, n + 1 + s.len()) =~= s);
    assert(l.skip(n + 1 + s.len()) =~= canon(v).skip(n + s.len()) + c1(b));
    assert(l.take(n + 1) =~= c1(a) + canon(v).take(n));
    assert(at(l, s, n + 1, k));
}
pub proof fn filled_append(f: Option<C>, a: Seq<Ev>, b: Seq<Ev>)
    ensures filled(f, a + b) == filled(filled(f, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        filled_append(f, a, b.drop_last());
    }
}
pub proof fn filled_one(f: Option<C>, e: Ev)
    ensures filled(f, seq![e]) == fill(f, e),
{ assert(seq![e].drop_last() =~= seq![]); reveal_with_fuel(filled, 2); }
pub proof fn some_filled(v: Seq<Ev>)
    ensures filled(None, some_evs(v)) == filled(None, v),
{
    let a = Ev::TaggedBegin(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    let b = Ev::TaggedEnd(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    filled_append(None, seq![a] + v, seq![b]);
    filled_append(None, seq![a], v);
    filled_one(None, a);
    filled_one(filled(None, v), b);
}
// An optional value fails where its content does (trusted: the events of `Some` are its content's).
#[verifier::external_body]
pub proof fn some_fails<T>(o: &Option<T>, x: &T)
    requires *o == Some(*x),
    ensures fails(o) == fails(x),
{ }

// a type whose whole content is one event
pub broadcast proof fn own_scalar(e: Ev)
    ensures
        says(#[trigger] canon(seq![e]), c1(e), 0),
        filled(None, seq![e]) == fill(None, e),
{
    canon_one(e);
    assert(c1(e).subrange(0, c1(e).len() as int) =~= c1(e));
    assert(at(c1(e), c1(e), 0, 0));
    filled_one(None, e);
}
// The content each target type stands for, and the events it is sure to come from.
pub open spec fn passes(e: Ev) -> bool {
    e is TaggedBegin || e is TaggedEnd || e is EnumBegin || e is EnumEnd || e is TagHint
}
pub open spec fn unsigned(e: Ev) -> bool { e is U8 || e is U16 || e is U32 || e is U64 || e is U128 }
pub open spec fn signed(e: Ev) -> bool { e is I8 || e is I16 || e is I32 || e is I64 || e is I128 }
pub open spec fn of_bool(e: Ev) -> bool { passes(e) || e is Bool }
pub open spec fn of_i128(e: Ev) -> bool { passes(e) || signed(e) }
pub open spec fn of_u128(e: Ev) -> bool { passes(e) || unsigned(e) }
pub open spec fn of_f32(e: Ev) -> bool { passes(e) || e is F32 }
pub open spec fn of_f64(e: Ev) -> bool { passes(e) || e is F32 || e is F64 }
// the content of an answer
pub open spec fn b_bool(v: bool) -> Seq<C> { seq![C::Bool(v)] }
pub open spec fn b_i128(v: i128) -> Seq<C> { c_int(v as int) }
pub open spec fn b_u128(v: u128) -> Seq<C> { c_int(v as int) }
pub open spec fn b_f32(v: f32) -> Seq<C> { seq![C::F64(widened(v))] }
pub open spec fn b_f64(v: f64) -> Seq<C> { seq![C::F64(v)] }
''']
W = o.append
# per-target answer predicates
KINDS = {"bool": ("bool", "C::Bool(v)", "of_bool"), "i128": ("i128", "C::Int(v as int)", "of_i128"), "u128": ("u128", "C::Int(v as int)", "of_u128"),
         "f32": ("f32", "C::F64(widened(v))", "of_f32"), "f64": ("f64", "C::F64(v)", "of_f64")}
for t, (ty, c, of) in KINDS.items():
    W(f'''pub open spec fn ob_{t}(r: Option<{ty}>) -> Option<Seq<C>> {{ match r {{ Some(v) => Some(b_{t}(v)), None => None }} }}
pub open spec fn oc_{t}(r: Option<{ty}>) -> Option<C> {{ match r {{ Some(v) => Some({c}), None => None }} }}
pub open spec fn all_{t}(evs: Seq<Ev>) -> bool {{ forall|i: int| 0 <= i < evs.len() ==> {of}(#[trigger] evs[i]) }}
// sound: an answer is the content; complete: content of the right kind is answered
pub open spec fn ans_{t}(evs: Seq<Ev>, fails: bool, r: Option<{ty}>) -> bool {{
    &&& r matches Some(v) ==> says(canon(evs), b_{t}(v), 0)
    &&& !fails && all_{t}(evs) ==> oc_{t}(r) == filled(None, evs)
}}
''')
for t in INTS:
    if t.endswith("128"):
        continue
    wide = "u128" if t[0] == "u" else "i128"
    W(f'''pub open spec fn ans_{t}(evs: Seq<Ev>, fails: bool, r: Option<{t}>) -> bool {{
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_{wide}(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> ({t}::MIN <= v <= {t}::MAX ==> r == Some(v as {t})))
}}
''')
W('''pub open spec fn ans_text(evs: Seq<Ev>, fails: bool, r: Option<&str>) -> bool {
    r matches Some(s) ==> says(canon(evs), seq![C::Text(s@)], 1)
}
pub open spec fn ans_binary(evs: Seq<Ev>, fails: bool, r: Option<&[u8]>) -> bool {
    r matches Some(s) ==> says(canon(evs), c_bytes(s@), 2)
}
pub trait Convert: Value {
''')
CONV = ["bool", "f32", "f64"] + INTS + ["text", "binary"]
RET = {**{t: t for t in CONV}, "text": "&str", "binary": "&[u8]"}
for t in CONV:
    W(f"    fn to_{t}(&self) -> (r: Option<{RET[t]}>)\n        ensures ans_{t}(self.evs(), fails(self), r);\n")
W("}\n")

# ---------------------------------------------------------------- the extractors
FREE = ""
for m, ev in EVENTS.items():
    FREE += f"//@freespec {m}\n    ensures took((*old(self_)).st(), (*final(self_)).st(), r, {ev}),\n"


HEAD = {}


def extractor(t, ghost):
    gen = "<'sval>" if t in ("text", "binary") else ""
    fields = "" if gen else ""
    p = f"value::default_value::to_{t}::{{body}}"
    W(f'''
pub mod extract_{t} {{
use super::*;
broadcast use {{holds_end, holds_more, one_end, one_more, empty_left}};
pub mod crate_ {{ pub use super::super::*; }}
{ghost}
//@impl sval | {p}::{{impl<'sval> Stream<'sval> for Extract{gen}}}
//@sub \\bcrate:: => crate_::
//@sub (fn inherited_\\w+)(<[^>]*>)?\\( => \\1<'sval>(
//@sub default_stream::tag\\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract{gen}
//@ghost
    open spec fn st(&self) -> St {{ st_of(*self) }}
{FREE}//@end
//@fn sval | value::default_value::to_{t}
//@hoisted
//@sub impl Value => impl Convert
//@sub \\bvalue\\.stream\\( => stream_any(value, 
//@spec
    ensures ans_{t}(value.evs(), fails(value), r),
//@head
{HEAD.get(t, "")}//@end
}}
''')


for _t in ("bool", "f32", "f64", "i128", "u128"):
    HEAD[_t] = "    proof { assert((st_of(Extract(None)).did)(Seq::<C>::empty())); }\n"
for _t in ("text", "binary"):
    HEAD[_t] = "    proof { assert((st_of(Extract { extracted: None, seen_fragment: false }).did)(Seq::<C>::empty())); }\n"
TAKES = {"bool": "of_bool(e)", "f32": "of_f32(e)", "f64": "of_f64(e)", "i128": "of_i128(e) || (e matches Ev::U8(v)) || (e matches Ev::U16(v)) || (e matches Ev::U32(v))",
         "u128": "of_u128(e)"}
TAKES["i128"] = "of_i128(e)"
for t, (ty, c, of) in KINDS.items():
    extractor(t, f'''pub struct Extract(pub Option<{ty}>);
pub open spec fn st_of(x: Extract) -> St {{
    St {{ did: |l: Seq<C>| holds(ob_{t}(x.0), l, 0), takes: |e: Ev| {TAKES[t]}, full: oc_{t}(x.0) }}
}}''')
for t, ty, c, k in (("text", "str", "seq![C::Text(v@)]", 1), ("binary", "[u8]", "c_bytes(v@)", 2)):
    extractor(t, f'''pub open spec fn ob(r: Option<&{ty}>) -> Option<Seq<C>> {{ match r {{ Some(v) => Some({c}), None => None }} }}
pub struct Extract<'sval> {{ pub extracted: Option<&'sval {ty}>, pub seen_fragment: bool }}
pub open spec fn st_of(x: Extract) -> St {{
    St {{ did: |l: Seq<C>| holds_one(ob(x.extracted), x.seen_fragment, l, {k}), takes: |e: Ev| false, full: None }}
}}''')

W("\npub mod default_value {\nuse super::*;\n")
for t in INTS:
    if t.endswith("128"):
        continue
    wide = "u128" if t[0] == "u" else "i128"
    W(f'''//@fn sval | value::default_value::to_{t}
//@sub impl Value => impl Convert
//@sub \\|value\\|\\s*value\\.try_into\\(\\)\\.ok\\(\\) => |value: {wide}| -> (q: Option<{t}>) ensures q == (if {t}::MIN <= value <= {t}::MAX {{ Some(value as {t}) }} else {{ None }}) {{ value.try_into().ok() }}
//@spec
    ensures ans_{t}(value.evs(), fails(value), r),
//@end
''')
W("".join(f"pub use super::extract_{t}::to_{t};\n" for t in list(KINDS) + ["text", "binary"]) + "}\n")

# ---------------------------------------------------------------- the types with conversions of their own
FREEC = "".join(f"//@freespec to_{t}\n    ensures ans_{t}(self_.evs(), fails(self_), r),\n" for t in CONV)
HEADC = "".join(f"//@head to_{t}\n    proof {{ own_facts(); }}\n" for t in CONV)


def converts(path, header, ty, generics="", sub=""):
    W(f'''
//@impl sval | {path}
//@header {header}
//@skip stream, tag
//@trait sval | value::Value
//@freefill {ty}
//@sub (fn inherited_\\w+)(<[^>]*>)?\\( => \\1{generics}(
{sub}{FREEC}//@end
''')


W('''
pub mod types {
use super::*;
''')
for t in ["bool", "f32", "f64"] + INTS:
    mod = "data" if t == "bool" else "data::number"
    W(f"pub mod of_{t} {{ use super::*; broadcast use {{own_scalar, canon_one}};")
    converts(f"{mod}::{{impl Value for {t}}}", f"impl Convert for {t}", t)
    W("}\n")
# text and binary
W("""
pub mod of_text { use super::*;
pub broadcast proof fn own_text(s: Seq<char>)
    ensures #[trigger] says(c_text(s), seq![C::Text(s)], 1),
{
    let l = c_text(s);
    assert(l.subrange(1, 2) =~= seq![C::Text(s)]);
    assert(at(l, seq![C::Text(s)], 1, 1));
}
pub broadcast proof fn not_scalar(s: Seq<char>)
    ensures
        !all_bool(#[trigger] text_evs(s)), !all_i128(text_evs(s)), !all_u128(text_evs(s)), !all_f32(text_evs(s)), !all_f64(text_evs(s)),
{ assert(text_evs(s)[0] is TextBegin); }
#[verifier::external_body]
pub fn string_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
""")
for path, ty in (("data::text::{impl Value for str}", "str"), ("data::text::alloc_support::{impl Value for String}", "String")):
    W(f"pub mod of_{ty.lower()} {{ use super::*; broadcast use {{super::own_text, super::not_scalar, canon_text}};")
    converts(path, f"impl Convert for {ty}", ty, sub="//@sub Some\\(self\\)(?=\\s*\\}) => Some(string_str(self))\n" if ty == "String" else "")
    W("}\n")
W("}\n")
W("""
pub mod of_binary { use super::*;
pub broadcast proof fn own_binary(b: Seq<u8>)
    ensures says(canon(#[trigger] binary_evs(b)), c_bytes(b), 2), says(canon(fixed(binary_evs(b))), c_bytes(b), 2),
{
    let begin = Ev::BinaryBegin(Some(b.len() as usize));
    let s = c_bytes(b);
    let e = binary_evs(b);
    assert(e =~= (seq![begin] + seq![Ev::BinaryFragment(b, true)]) + seq![Ev::BinaryEnd]);
    canon_append(seq![begin] + seq![Ev::BinaryFragment(b, true)], seq![Ev::BinaryEnd]);
    canon_append(seq![begin], seq![Ev::BinaryFragment(b, true)]);
    canon_one(begin);
    canon_one(Ev::BinaryFragment(b, true));
    canon_one(Ev::BinaryEnd);
    let l = canon(e);
    assert(l.subrange(1, 1 + s.len() as int) =~= s);
    assert(at(l, s, 1, 2));
    let t0 = Ev::TaggedBegin(Some(tags::CONSTANT_SIZE), None, None);
    let t1 = Ev::TaggedEnd(Some(tags::CONSTANT_SIZE), None, None);
    canon_append(seq![t0] + e, seq![t1]);
    canon_append(seq![t0], e);
    canon_one(t0);
    canon_one(t1);
    let m = canon(fixed(e));
    assert(m =~= c1(t0) + l + c1(t1));
    assert(m.subrange(2, 2 + s.len() as int) =~= s);
    assert(at(m, s, 2, 2));
}
pub broadcast proof fn not_scalar(b: Seq<u8>)
    ensures
        !all_bool(#[trigger] binary_evs(b)), !all_i128(binary_evs(b)), !all_u128(binary_evs(b)), !all_f32(binary_evs(b)), !all_f64(binary_evs(b)),
        !all_bool(fixed(binary_evs(b))), !all_i128(fixed(binary_evs(b))), !all_u128(fixed(binary_evs(b))), !all_f32(fixed(binary_evs(b))), !all_f64(fixed(binary_evs(b))),
{ assert(binary_evs(b)[0] is BinaryBegin); assert(fixed(binary_evs(b))[1] is BinaryBegin); }
""")
for path, header, ty, gen in (("data::binary::{impl Value for BinarySlice}", "impl Convert for BinarySlice", "BinarySlice", ""),
                              ("data::binary::{impl<const N: usize> Value for BinaryArray<N>}", "impl<const N: usize> Convert for BinaryArray<N>", "BinaryArray<N>", "<const N: usize>")):
    W(f"pub mod of_{ty.split('<')[0].lower()} {{ use super::*; broadcast use {{super::own_binary, super::not_scalar}};")
    converts(path, header, ty, gen)
    W("}\n")
W("}\n")
# optional values
W("""
pub mod of_option { use super::*;
""")
for t in CONV:
    k = {"text": 1, "binary": 2}.get(t, 0)
    wide = "bool" if t == "bool" else t if t in ("f32", "f64") else None if k else ("u128" if t[0] == "u" else "i128")
    content = {"text": "seq![C::Text(v@)]", "binary": "c_bytes(v@)", "bool": "b_bool(v)", "f32": "b_f32(v)", "f64": "b_f64(v)"}.get(t, "c_int(v as int)")
    comp = f"""
        if !fails(o) && all_{wide}(o.evs()) {{
            assert forall|i: int| 0 <= i < x.evs().len() implies of_{wide}(#[trigger] x.evs()[i]) by {{ assert(o.evs()[i + 1] == x.evs()[i]); }}
            some_filled(x.evs());
        }}""" if wide else ""
    W(f"""pub proof fn some_{t}<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<{RET[t]}>| #[trigger] ans_{t}(x.evs(), fails(&x), r) ==> ans_{t}(o.evs(), fails(o), r),
        *o is None ==> ans_{t}(o.evs(), fails(o), None),
{{
    if let Some(x) = *o {{
        some_fails(o, &x);
        assert forall|r: Option<{RET[t]}>| #[trigger] ans_{t}(x.evs(), fails(&x), r) implies ans_{t}(o.evs(), fails(o), r) by {{
            if let Some(v) = r {{ some_says(x.evs(), {content}, {k}); }}{comp}
        }}
    }} else {{ assert(o.evs()[0] is Tag); }}
}}
""")
SUBS = "".join(f"//@sub \\|\\s*value\\s*\\|\\s*value\\.to_{t}\\(\\) => |value: &'o T| -> (q: Option<{RET[t].replace('&', '&' + chr(39) + 'o ')}>) ensures ans_{t}(value.evs(), fails(value), q) {{{{ value.to_{t}() }}}}\n".replace("{{", "{").replace("}}", "}") for t in CONV)
for t in CONV:
    W(f"""//@fn sval | data::option::{{impl<T: Value> Value for Option<T>}}::to_{t}
//@free Option<T>
//@vis pub
//@sub (fn \\w+)\\(&self\\) => \\1<'o, T: Convert>(&'o self)
//@sub Option<&\\s*(str|\\[u8\\])> => Option<&'o \\1>
{SUBS}//@spec
    ensures ans_{t}(self.evs(), fails(self), r),
//@head
    proof {{ some_{t}(self); }}
//@end
""")
W("}\n")
W("}\n")
W("}\nfn main() {}\n")
open(os.path.join(SPECS, "convert.rs"), "w").write("".join(o))
