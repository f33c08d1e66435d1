"""Writes specs/buffer_noalloc.rs from specs/buffer.rs: the buffer of whole values as it is
compiled without an allocator, where every push can run out of room. The contracts are those of
specs/buffer.rs, except that a call may also fail; when it succeeds it has done the same thing."""
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(ROOT, "specs", "buffer.rs")).read()


def sub(a, b, n=1):
    global s
    assert s.count(a) >= 1 if n is None else s.count(a) == n, (a, s.count(a))
    s = s.replace(a, b)


def cut(path):
    """Leave out a function that needs an allocator."""
    global s
    i = s.index("//@fn sval_buffer | " + path + "\n")
    j = s.index("//@end\n", i) + len("//@end\n")
    s = s[:i] + s[j:]


sub("// C05, C06: a buffered value holds exactly what it was given (generated by lib/mkbuffer.py).",
    "// C05, C06: without an allocator, a buffered value holds exactly what it was given or there is an error (generated by lib/mknoalloc.py).")
# labels: only static ones can be kept
sub("// discharged by specs/index.rs (C10)", "// discharged by specs/index_noalloc.rs (C10)")
sub("        ensures r.is_ok(), r->Ok_0@ == self@,\n    { unimplemented!() }", "        ensures r.is_ok() ==> r->Ok_0@ == self@,\n    { unimplemented!() }")
sub("(r: Result<Option<Label<'static>>, Error>) ensures r.is_ok(), olv(r->Ok_0) == ol(o)", "(r: Result<Option<Label<'static>>, Error>) ensures r.is_ok() ==> olv(r->Ok_0) == ol(o)")
# fragments: discharged by specs/fragments_noalloc.rs
sub("these contracts are discharged by specs/fragments.rs (C07)", "these contracts are discharged by specs/fragments_noalloc.rs (C07)")
sub("ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ {", "ensures r.is_ok() ==> (*final(self)).content() == (*old(self)).content() + fragment@ {", 4)
for t in ("TextBuf", "BinaryBuf"):
    m = re.search(r"    #\[verifier::external_body\]\n    pub fn into_owned_in_place\(&mut self\) -> \(r: &mut %s<'static>\)\n.*\n" % t, s)
    s = s[:m.start()] + s[m.end():]
# the room
sub("pub struct BufMut<T, const N: usize> { pub inner: Vec<T> }\npub struct Buf<T, const N: usize> { pub inner: Box<[T]> }\n", """// The room of a buffer: these contracts are discharged by specs/array_vec.rs.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ArrayVec<T, const N: usize> { t: PhantomData<T> }
impl<T, const N: usize> ArrayVec<T, N> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, value: T) -> (r: Result<(), Error>)
        ensures r.is_ok() == (old(self)@.len() < N), r.is_ok() ==> (*final(self))@ == (*old(self))@.push(value), r.is_err() ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => 0 < old(self)@.len() && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => 0 == old(self)@.len() && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures (*final(self))@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.as_slice().len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.as_slice().len() == 0 }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&T>) ensures match r { Some(x) => 0 < self@.len() && *x == self@.last(), None => 0 == self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)),
            None => i >= old(self)@.len() && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => 0 < old(self)@.len() && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)),
            None => 0 == old(self)@.len() && final(self)@ == old(self)@ } { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct BufMut<T, const N: usize> { pub inner: ArrayVec<T, N> }
#[verifier::reject_recursive_types(T)]
pub struct Buf<T, const N: usize> { pub inner: ArrayVec<T, N> }
""")
sub("BufMut { inner: Vec::new() }", "BufMut { inner: ArrayVec::default() }")
sub("""//@spec
    ensures r.is_ok(), (*final(self)).inner@ == (*old(self)).inner@.push(value),
""", """//@spec
    ensures r.is_ok() == (old(self).inner@.len() < N), r.is_ok() ==> (*final(self)).inner@ == (*old(self)).inner@.push(value), r.is_err() ==> *final(self) == *old(self),
""")
sub("""//@sub &Self::Target => &[T]
//@spec
    ensures r@ == self.inner@,
""", """//@sub &Self::Target => &[T]
//@sub &self\\.inner => self.inner.as_slice()
//@spec
    ensures r@ == self.inner@,
""")
sub("//@sub value\\.inner\\.into_boxed_slice\\(\\) => boxed_slice(value.inner)\n", "")
sub("#[verifier::external_body]\npub fn boxed_slice<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { v.into_boxed_slice() }\n", "")
sub("    ensures r.is_ok(), final(self).wf(), final(self).p() == old(self).p().push(ValuePart { kind }), final(self).s() == old(self).s(),\n        final(self).is_in_text_or_binary == old(self).is_in_text_or_binary,\n        got(", "    ensures final(self).wf(), final(self).s() == old(self).s(), final(self).is_in_text_or_binary == old(self).is_in_text_or_binary, r.is_err() ==> final(self).p() == old(self).p(),\n        r.is_ok() ==> final(self).p() == old(self).p().push(ValuePart { kind }) && got(")
sub("+ leaf(kind),\n        opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()),\n", "+ leaf(kind) &&\n        opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()),\n")
sub("    ensures r.is_ok(), final(self).wf(), final(self).s().len() == old(self).s().len() + 1,\n        final(self).is_in_text_or_binary == old(self).is_in_text_or_binary,\n        got(", "    ensures final(self).wf(), final(self).is_in_text_or_binary == old(self).is_in_text_or_binary, r.is_err() ==> final(self).p() == old(self).p() && final(self).s() == old(self).s(),\n        r.is_ok() ==> final(self).s().len() == old(self).s().len() + 1 && got(")
sub("+ seq![begin1(kind)],\n        opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()).push(begin1(kind)),\n", "+ seq![begin1(kind)] &&\n        opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()).push(begin1(kind)),\n")
sub("push_open(self.p(), self.s(), ValuePart { kind }, self.parts.inner.len()); }", "parts_len(self.parts.inner); push_open(self.p(), self.s(), ValuePart { kind }, self.p().len() as usize); stack_in_parts(self.p(), self.s()); }")
sub("impl<'sval> ValueBuf<'sval> {\n    pub open spec fn p(&self)", """// every open container is a part
pub proof fn stack_in_parts(p: Seq<ValuePart>, st: Seq<usize>)
    requires opened(p, st),
    ensures st.len() <= p.len(),
    decreases st.len(),
{ if st.len() > 0 { stack_in_parts(p.take(st.last() as int), st.drop_last()); } }
// a slice has at most usize::MAX elements
#[verifier::external_body]
pub proof fn parts_len<T, const N: usize>(a: ArrayVec<T, N>) ensures a@.len() <= usize::MAX { }
impl<'sval> ValueBuf<'sval> {
    pub open spec fn p(&self)""")
sub("    &&& a.tame() && fits(a.g(), e) ==> ok && b.tame() && b.g() == feed(a.g(), e)\n", "    &&& ok && a.tame() && fits(a.g(), e) ==> b.tame() && b.g() == feed(a.g(), e)\n")
sub("    &&& a.tame() && all_fit(a.g(), e) ==> ok == !fails && (ok ==> z.tame() && z.g() == run(a.g(), e))\n", "    &&& ok && a.tame() && all_fit(a.g(), e) ==> !fails && z.tame() && z.g() == run(a.g(), e)\n")
s = re.sub(r"all_fit\((start\(\), (?:lend\()?v\.evs\(\)(?:, false\))?)\) ==> r\.is_ok\(\) == (!fails\(&?v\)) && \(r\.is_ok\(\) ==> (.*?)\), r\.is_ok\(\) ==>", r"r.is_ok() && all_fit(\1) ==> \2 && \3, r.is_ok() ==>", s)
sub("assert(self.parts.inner.len() == self.p().len());", "parts_len(self.parts.inner);")
# what is made owned needs an allocator
cut("value::{impl<'sval> ValuePart<'sval>}::into_owned_in_place")
i = s.index("//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::into_owned\n"); j = s.index("//@end\n", i)
s = s[:i] + "//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::into_owned\n//@spec\n    ensures r.is_ok() ==> same(self.p(), (r->Ok_0).p()) && (r->Ok_0).s() == self.s() && (r->Ok_0).is_in_text_or_binary == self.is_in_text_or_binary,\n" + s[j:]
i = s.index("//@fn sval_buffer | value::{impl<'sval> Value<'sval>}::into_owned\n"); j = s.index("//@end\n", i)
s = s[:i] + "//@fn sval_buffer | value::{impl<'sval> Value<'sval>}::into_owned\n//@spec\n    ensures r.is_ok() ==> same(self.p(), (r->Ok_0).p()),\n" + s[j:]
open(os.path.join(ROOT, "specs", "buffer_noalloc.rs"), "w").write(s.replace("//@fn sval_buffer |", "//@fn sval_buffer_noalloc |").replace("//@impl sval_buffer |", "//@impl sval_buffer_noalloc |").replace("//@use sval_buffer |", "//@use sval_buffer_noalloc |"))

# Text and binary: specs/fragments_noalloc.rs from specs/fragments.rs. A buffer is one borrowed
# piece; a second one is an error, and then the buffer is what it was.
s = open(os.path.join(ROOT, "specs", "fragments.rs")).read()
sub("// C07: text and binary buffers hold exactly the concatenated fragments.",
    "// C07: without an allocator, text and binary buffers hold exactly the concatenated fragments or there is an error (generated by lib/mknoalloc.py).")
sub("    pub fn invalid_value(_a: &str) -> Error { Error(()) }\n", "    pub fn invalid_value(_a: &str) -> Error { Error(()) }\n    pub fn no_alloc(_a: &str) -> Error { Error(()) }\n")
i = s.index("// std's `Cow`, by its definition."); j = s.index("pub trait Content {")
s = s[:i] + s[j:]
sub("    type Owned;\n    spec fn content", "    spec fn content")
i = s.index("    spec fn owned_content("); j = s.index("}\npub trait Fragment")
s = s[:i] + s[j:]
i = s.index("    // adding to a buffer keeps"); j = s.index("    // only what is empty may be replaced")
s = s[:i] + s[j:]
i = s.index("//@fn sval_buffer | fragments::Fragment::to_fragment"); j = s.index("impl Content for str")
s = s[:i] + """//@fn sval_buffer | fragments::Fragment::to_fragment
//@sub fn to_fragment<'sval>\\(&'sval self\\) -> \\(r: &'sval Self\\) => pub fn to_fragment<'sval, T: ?Sized + Fragment>(self_: &'sval T) -> (r: &'sval T)
//@sub \\{\\s*self\\s*\\} => { self_ }
//@spec
    ensures r == self_,
//@end
""" + s[j:]
for t in ("String", "Vec<u8>"):
    m = re.search(r"    type Owned = %s;\n" % re.escape(t), s); s = s[:m.start()] + s[m.end():]
    m = re.search(r"    open spec fn owned_content\(o: %s\).*\n    #\[verifier::external_body\]\n    fn to_owned.*\n" % re.escape(t), s); s = s[:m.start()] + s[m.end():]
for t in ("str", "[u8]"):
    cut("fragments::{impl Fragment for %s}::extend" % t)
i = s.index("pub struct FragmentBuf<'sval, T"); j = s.index("pub struct TextBuf<'sval>")
s = s[:i] + """pub struct FragmentBuf<'sval, T: ?Sized + Fragment> { pub value: &'sval T }
#[verifier::external_body]
pub fn same_content<T: ?Sized + Content>(a: &T, b: &T) -> (r: bool) ensures r == (a.content() == b.content()) { unimplemented!() }
impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T> {
    pub open spec fn content(&self) -> Seq<T::E> { self.value.content() }
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::new
//@sub value\\.to_fragment\\(\\) => to_fragment(value)
//@spec
    ensures r.content() == value.content(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::push
//@sub fragment\\.to_fragment\\(\\) => to_fragment(fragment)
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment.content(), r.is_err() ==> *final(self) == *old(self), old(self).content().len() == 0 ==> r.is_ok(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::push_computed
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment.content(), r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::as_borrowed_inner
//@spec
    ensures r matches Some(v) ==> v.content() == self.content(), r.is_some(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::as_inner
//@spec
    ensures r.content() == self.content(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> Clone for FragmentBuf<'sval, T>}::clone
//@spec
    ensures r.content() == self.content(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment + PartialEq> PartialEq for FragmentBuf<'sval, T>}::eq
//@sub (\\w+)\\.value == (\\w+)\\.value => same_content(\\1.value, \\2.value)
//@sub (\\w+)\\.value != (\\w+)\\.value => !same_content(\\1.value, \\2.value)
//@spec
    ensures r == (self.content() == other.content()),
//@end
}
""" + s[j:]
i = s.index("// Comparing two `Cow`s"); j = s.index("pub fn empty_slice")
s = s[:i] + s[j:]
for t in ("TextBuf", "BinaryBuf"):
    cut("fragments::{impl<'sval> %s<'sval>}::into_owned_in_place" % t)
sub("fn can_replace(&self) -> (r: bool) ensures r ==> self.content().len() == 0;", "fn can_replace(&self) -> (r: bool) ensures r == (self.content().len() == 0);")
sub("ensures r == sval::utf8_len(s@) as usize, r == 0 ==> s@.len() == 0 {", "ensures r == sval::utf8_len(s@) as usize, r == 0 <==> s@.len() == 0 {")
s = re.sub(r"r\.is_some\(\) == \(self\.buf\.value is Borrowed\)", "r.is_some()", s)
sub("if self.buf.value is Borrowed { lend(text_evs(self.content()), (*old(stream)).st().lends) } else { computed_text_evs(self.content()) }", "lend(text_evs(self.content()), (*old(stream)).st().lends)")
sub("(*old(stream)).st().lends && self.buf.value is Borrowed", "(*old(stream)).st().lends")
# a fragment more: all of it, or an error and nothing of it
for f in ("fragment@", "s@"):
    s = s.replace("ensures r.is_ok(), (*final(self)).content() =~= (*old(self)).content() + %s," % f, "ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + %s, r.is_err() ==> *final(self) == *old(self)," % f)
    s = s.replace("ensures r.is_ok(), (*final(buf)).content() =~= (*old(buf)).content() + %s {" % f, "ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + %s, r.is_err() ==> *final(buf) == *old(buf) {" % f)
    s = s.replace("ensures r.is_ok(), (*final(self)).buf.content() =~= (*old(self)).buf.content() + %s," % f, "ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content() + %s, r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf," % f)
sub("ensures r.is_ok(), (*final(buf)).content() =~= (*old(buf)).content() + seq![value] {", "ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + seq![value], r.is_err() ==> *final(buf) == *old(buf) {")
sub("ensures r.is_ok(), (*final(self)).buf.content() =~= (*old(self)).buf.content().push(value),", "ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content().push(value), r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf,")
for k in ("text", "binary"):
    sub("        !fails(v) && %s_only(v.evs()) ==> r.is_ok(),\n" % k, "")
    sub(", !fails(value) && %s_only(value.evs()) ==> r.is_ok(),\n" % k, ",\n")
sub("    ensures r.is_ok(), *final((*final(self)).buf) == *final((*old(self)).buf),\n        (*(*final(self)).buf).content() =~= (*(*old(self)).buf).content() + s@,", "    ensures *final((*final(self)).buf) == *final((*old(self)).buf), r.is_err() ==> (*final(self)).err is Some && *(*final(self)).buf == *(*old(self)).buf,\n        r.is_ok() ==> (*(*final(self)).buf).content() =~= (*(*old(self)).buf).content() + s@,")
s = s.replace("r.is_ok() == !display_fails(", "r.is_ok() ==> !display_fails(")
open(os.path.join(ROOT, "specs", "fragments_noalloc.rs"), "w").write(s.replace("//@fn sval_buffer |", "//@fn sval_buffer_noalloc |").replace("//@impl sval_buffer |", "//@impl sval_buffer_noalloc |"))

# -- labels, tags and indexes ---------------------------------------------------------------
s = open(os.path.join(ROOT, "specs", "index.rs")).read()


def cut_label(path):
    global s
    i = s.index("//@fn sval | " + path + "\n")
    j = s.index("//@end\n", i) + len("//@end\n")
    unit = s[i:j]
    s = s[:i] + s[j:]
    return unit


cut_label("data::alloc_support::{impl<'computed> Label<'computed>}::to_owned")
cut_label("data::alloc_support::{impl Label<'static>}::new_owned")
sub("// C10: indexes, labels and tags keep their identity.", "// C10: indexes, labels and tags keep their identity, in the crates built without an allocator.")
sub("data::alloc_support::{impl<'computed> Clone for Label<'computed>}::clone", "data::{impl<'computed> Clone for Label<'computed>}::clone")
sub("    pub backing_field_owned: Option<Ptr>,\n", "")
sub("    &&& l.backing_field_owned matches Some(p) ==> p@ == l@.text && l.backing_field_static is None\n", "")
sub("    ensures r matches Ok(l) && label_ok(l) && l@ == self@,", "    ensures r matches Ok(l) ==> label_ok(l) && l@ == self@, r.is_ok() == self.backing_field_static.is_some(),")
i = s.index("//@fn sval | data::{impl<'computed> Label<'computed>}::try_to_owned\n")
j = s.index("//@spec", i)
s = s[:j] + "//@sub crate::Error::new => Error::new\n" + s[j:]
sub("pub struct Error(pub ());", "pub struct Error(pub ());\nimpl Error { pub fn new() -> Self { Error(()) } }")
open(os.path.join(ROOT, "specs", "index_noalloc.rs"), "w").write(s.replace("//@fn sval |", "//@fn sval_noalloc |"))
