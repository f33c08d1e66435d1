w(r'''
// what the closures for the stream do
pub open spec fn sdid<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Ev) -> bool {
    !(a.buffered matches Some(Buffered::Value(_))) ==> {
        &&& ok && calm(a.fl(), e) ==> nxt(a.fl(), e) == Some(z.fl())
        &&& a.state.steady() && calm(a.fl(), e) && nxt(a.fl(), e) is Some ==> ok && z.state.steady()
    }
}
pub open spec fn odid<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, q: Result<Option<S::Ok>>, e: Ev) -> bool {
    !(a.buffered matches Some(Buffered::Value(_))) ==> {
        &&& calm(a.fl(), e) ==> match q { Ok(Some(o)) => nxt(a.fl(), e) == Some(Fl { b: z.fl().b, s: FS::Done(made(o)) }), Ok(None) => nxt(a.fl(), e) == Some(z.fl()), Err(_) => true }
        &&& a.state.steady() && calm(a.fl(), e) && nxt(a.fl(), e) is Some ==> q.is_ok() && ((q matches Ok(None)) ==> z.state.steady())
    }
}
pub open spec fn odidv<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, q: Result<Option<S::Ok>>, e: Seq_<Ev>, fails: bool) -> bool {
    !(a.buffered matches Some(Buffered::Value(_))) ==> {
        &&& calmv(a.fl(), e) ==> match q { Ok(Some(o)) => nxtv(a.fl(), e) == Some(Fl { b: z.fl().b, s: FS::Done(made(o)) }), Ok(None) => nxtv(a.fl(), e) == Some(z.fl()), Err(_) => true }
        &&& a.state.steady() && calmv(a.fl(), e) && nxtv(a.fl(), e) is Some && !fails ==> q.is_ok() && ((q matches Ok(None)) ==> z.state.steady())
    }
}
// a value makes the calls of its events (each is `did`)
pub open spec fn drove<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Seq_<Ev>, fails: bool) -> bool {
    &&& ok && all_calm(a.fl(), e) ==> steps(a.fl(), e) == Some(z.fl())
    &&& a.state.steady() && all_calm(a.fl(), e) && steps(a.fl(), e) is Some && !fails ==> ok && z.state.steady()
}
pub mod default_stream {
    use super::*;
    #[verifier::external_body] pub fn value<'sval, S: Stream<'sval>, V: Value + ?Sized>(stream: &mut FlatStream<'sval, S>, v: &'sval V) -> (r: sval::Result)
        ensures drove(*old(stream), *final(stream), r.is_ok(), v.evs(), v.fails()), v.fails() ==> r.is_err(), { unimplemented!() }
    #[verifier::external_body] pub fn value_computed<'sval, S: Stream<'sval>, V: Value + ?Sized>(stream: &mut FlatStream<'sval, S>, v: &V) -> (r: sval::Result)
        ensures drove(*old(stream), *final(stream), r.is_ok(), v.evs(), v.fails()), v.fails() ==> r.is_err(), { unimplemented!() }
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
''')
H = lambda name, spec, pre="": w(f"//@fn sval_nested | {INH}::{name}\n{pre}//@spec\n{spec}//@end\n")
H("new", "    ensures r.buffered is None, r.state matches State::Any(Some(a)) && a.stream == stream,\n")
H("finish", "    ensures final(self).buffered == old(self).buffered, match old(self).state { State::Done(Some(q)) => r == q, _ => r is Err },\n")
H("put_buffer", "    ensures match old(self).buffered { None => r is Ok && final(self).buffered == Some(buf) && final(self).state == old(self).state, Some(_) => r is Err },\n")
for k, v in (("text", "Text"), ("binary", "Binary")):
    H("with_" + k, f"    requires forall|x: &mut {v}Buf<'sval>| #[trigger] buffer.requires((x,)),\n    ensures match old(self).buffered {{ Some(Buffered::{v}(b)) => exists|x: &mut {v}Buf<'sval>, q: Result<()>| *x == b && #[trigger] buffer.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).state == old(self).state && final(self).buffered == Some(Buffered::{v}(*final(x)))) && (q is Err ==> r is Err), _ => r is Err }},\n")
    H("take_" + k, f"    ensures match old(self).buffered {{ Some(Buffered::{v}(b)) => (r matches Ok(b2) && b2 == b) && final(self).state == old(self).state && final(self).buffered is None, _ => r is Err }},\n")
for k, v in (("seq", "Seq"), ("map", "Map")):
    H("take_" + k, f"    ensures match *old(self) {{ FlatStream {{ buffered: None, state: State::{v}(Some(a)) }} => (r matches Ok(b) && b == a) && final(self).buffered is None, _ => r is Err }},\n")
H("with_map", "    requires forall|x: &mut Map<S::Map>| #[trigger] f.requires((x,)),\n    ensures match *old(self) { FlatStream { buffered: None, state: State::Map(Some(a)) } => exists|x: &mut Map<S::Map>, q: Result<()>| *x == a && #[trigger] f.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == State::<'sval, S>::Map(Some(*final(x)))) && (q is Err ==> r is Err), _ => r is Err },\n")
for k, v in (("tuple", "Tuple"), ("record", "Record")):
    ty, te = f"{v}<S::{v}>", f"{v}<<S::Enum as StreamEnum<'sval>>::{v}>"
    def arm(pat, f, t, wrap): return f"        FlatStream {{ buffered: None, state: {pat} }} => exists|x: &mut {t}, q: Result<()>| *x == a && #[trigger] {f}.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == {wrap}) && (q is Err ==> r is Err),\n"
    H("with_" + k, f"    requires forall|x: &mut {ty}| #[trigger] {k}.requires((x,)), forall|x: &mut {te}| #[trigger] {k}_variant.requires((x,)),\n    ensures match *old(self) {{\n"
      + arm(f"State::{v}(Some(a))", k, ty, f"State::<'sval, S>::{v}(Some(*final(x)))") + arm(f"State::EnumVariant(Some(EnumVariant::{v}(a)))", k + "_variant", te, f"State::<'sval, S>::EnumVariant(Some(EnumVariant::{v}(*final(x))))") + "        _ => r is Err,\n    },\n")
    def tarm(pat, f): return f"        FlatStream {{ buffered: None, state: {pat} }} => exists|q: Result<T>| #[trigger] {f}.ensures((a,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && final(self).buffered is None) && (q is Err ==> r is Err),\n"
    H("take_with_" + k, f"    requires forall|x: {ty}| #[trigger] {k}.requires((x,)), forall|x: {te}| #[trigger] {k}_variant.requires((x,)),\n    ensures match *old(self) {{\n"
      + tarm(f"State::{v}(Some(a))", k) + tarm(f"State::EnumVariant(Some(EnumVariant::{v}(a)))", k + "_variant") + "        _ => r is Err,\n    },\n")
H("take_enum", "    ensures match *old(self) { FlatStream { buffered: None, state: State::Enum(a) } => (r matches Ok(b) && b == a) && final(self).buffered is None && (final(self).state matches State::Enum(None)), FlatStream { buffered: None, state: State::Done(_) } => (r matches Ok(None)) && *final(self) == *old(self), _ => r is Err },\n")
w("}\n")
# ---- the events
CL = r"""//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
"""
NAMES = {"text_begin": "size_hint", "binary_begin": "size_hint", "seq_begin": "num_entries", "map_begin": "num_entries", "record_begin": "num_entries", "tuple_begin": "num_entries",
    "text_fragment": "fragment", "text_fragment_computed": "fragment", "binary_fragment": "fragment", "binary_fragment_computed": "fragment"}
def ev(m):
    e = EVS[m][1]
    n = NAMES.get(m, "value")
    return re.sub(r"\((n|f@|v)\b", lambda x: "(" + x.group(1).replace("n", n).replace("f@", n + "@").replace("v", n), re.sub(r", n\)", f", {n})", re.sub(r"\(f@", f"({n}@", e)))
def event(m, cls, inner="", subs="", extra=""):
    e = ev(m)
    buf = f"&mut ValueBuf<'sval> -> (q: sval::Result)\n    ensures told(*old($1), *final($1), q.is_ok(), {e})\n"
    if cls == "with":
        cl = [buf, f"&mut FlatStream<'sval, S> -> (q: Result<()>)\n    ensures sdid(*old($1), *final($1), q.is_ok(), {e})\n"]
    elif cls == "stream":
        cl = [buf, f"&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)\n    ensures odid(*old($1), *final($1), q, {e})\n"]
    elif cls == "begin":
        cl = [buf, f"Any<'sval, S> -> (q: Result<State<'sval, S>>)\n    ensures q matches Ok(z) ==> nxt(fresh(), {e}) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), {e}) is Some ==> q.is_ok()\n",
            f"Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)\n    ensures q matches Ok(z) ==> nxt(Fl {{ b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }}, {e}) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl {{ b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }}, {e}) is Some ==> q.is_ok()\n"]
    else:
        cl = [buf, f"&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)\n    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), {e}) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), {e}) is Some ==> q is Ok)\n"]
    w(f"//@fn sval_nested | {IMPL}::{m}\n{CL}{subs}//@closure 1\n" + "===\n".join(cl) + inner + f"{extra}//@spec\n    ensures did(*old(self), *final(self), r.is_ok(), {e}),\n//@end\n")
w("impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {\n")
for m in "seq_value_begin seq_value_end map_key_end map_value_end record_value_end tuple_value_end".split():
    event(m, "with")
for m in ("map_key_begin", "map_value_begin"):
    event(m, "with", f"//@inner 1\n&mut Map<S::Map> -> (q: Result<()>)\n    ensures q is Ok, final($1).stream == old($1).stream, final($1).is_key == {'true' if 'key' in m else 'false'}\n")
for k, v, el in (("tuple", "Tuple", "index@"), ("record", "Record", "label@")):
    def fc(t): return f"&mut {t} -> (q: Result<()>)\n    ensures q is Ok, final($1).stream == old($1).stream, final($1).field matches Some((t, i)) && t == ot(tag) && i@ == {el}\n"
    event(k + "_value_begin", "with", "//@inner 1\n" + fc(f"{v}<S::{v}>") + "===\n" + fc(f"{v}<<S::Enum as StreamEnum<'sval>>::{v}>"))
    def ec(t): return f"{t} -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == $1.stream.calls().push(NCall::End), $1.stream.steady() ==> q.is_ok()\n"
    event(k + "_end", "end", "//@inner 1\n" + ec(f"{v}<S::{v}>") + "===\n" + ec(f"{v}<<S::Enum as StreamEnum<'sval>>::{v}>"))
for m in "seq_begin map_begin tuple_begin record_begin enum_begin tagged_begin".split():
    event(m, "begin")
for m in "seq_end map_end enum_end tagged_end".split():
    event(m, "end")
for t in ["bool"] + SC:
    event(t, "stream", f"//@inner 2\nS; &{t} -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == seq![NCall::{'Bool' if t == 'bool' else t.upper()}(*$2)], $1.steady() ==> q.is_ok()\n")
event("null", "stream", "//@inner 2\nS; &sval_ref::Ref<'_, sval::Null> -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == seq![NCall::Null], $1.steady() ==> q.is_ok()\n")
for k, v, d in (("text", "Text", "str"), ("binary", "Binary", "sval::BinarySlice")):
    event(k + "_begin", "with")
    for m in ("_fragment", "_fragment_computed"):
        event(k + m, "with", f"//@inner 1\n&mut {v}Buf<'sval> -> (q: Result<()>)\n    ensures q is Ok, final($1).content() == old($1).content() + fragment@\n")
    c = "" if k == "text" else ".0"
    event(k + "_end", "stream", f"//@inner 2\nS; &sval_ref::Ref<'sval, {d}> -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == seq![NCall::{v}($2.0{c}@)], $1.steady() ==> q.is_ok()\n===\nS; &{d} -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == seq![NCall::{v}($2{c}@)], $1.steady() ==> q.is_ok()\n")
w("}\n")
# ---- values, tags
w(r'''
//@use sval_nested | flat::Tag
impl<'a> Value for Tag<'a> { closed spec fn evs(&self) -> Seq_<Ev> { seq![Ev::Tag(ot(self.0), ol(self.1), oi(self.2))] } open spec fn fails(&self) -> bool { false } }
impl<'a> Tag<'a> {
//@fn sval_nested | flat::{impl<'a> sval::Value for Tag<'a>}::stream
//@spec
    ensures r.is_ok() ==> (*final(stream)).log() == (*old(stream)).log() + lend(self.evs(), false),
//@end
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
''')
event("tag", "stream", "//@inner 2\nS; &Tag -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == seq![NCall::Tag(ot(tag), ol(label), oi(index))], $1.steady() ==> q.is_ok()\n")
for m, ty in (("value", "&sval_ref::Ref<'sval, V>"), ("value_computed", "&V")):
    buf = f"&mut ValueBuf<'sval> -> (q: sval::Result)\n    ensures driven(*old($1), *final($1), q.is_ok(), {'v.evs()' if m == 'value' else 'lend(v.evs(), false)'}, v.fails())\n"
    w(f"//@fn sval_nested | {IMPL}::{m}\n//@sub sval::Stream::{m}\\((\\w+),\\s*v\\) => \\1.{m}(v)\n//@sub sval::default_stream::{m}\\( => default_stream::{m}(\n"
      + r"//@sub \|_\|\s*(Error::\w+\(\"[^\"]*\"\)) => |_e: sval::Error| -> (q: Error) { \1 }" + "\n"
      + f"//@closure 1\n{buf}===\n&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)\n    ensures odidv(*old($1), *final($1), q, v.evs(), v.fails())\n"
      + f"//@inner 2\nS; {ty} -> (q: Result<S::Ok>)\n    ensures well(v.evs()) ==> (q matches Ok(o) ==> doc(v.evs()) == Some(made(o))) && ($1.steady() && !v.fails() && doc(v.evs()) is Some ==> q.is_ok())\n"
      + f"//@spec\n    ensures didv(*old(self), *final(self), r.is_ok(), v.evs(), v.fails()),\n//@end\n")
w("}\n")
w("impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {\n")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mknested3.py")).read())
