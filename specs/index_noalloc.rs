// C10: indexes, labels and tags keep their identity, in the crates built without an allocator.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
pub struct Error(pub ());
impl Error { pub fn new() -> Self { Error(()) } }
pub type Result<T = (), E = Error> = core::result::Result<T, E>;
pub use core::result::Result::{Ok, Err};

// -- tags: a name and its hash ------------------------------------------------
pub struct Tag { pub id: u64, pub data: &'static str }
// the hash is a function of the name (a `const fn` of it); which one does not matter
pub uninterp spec fn tag_hash(name: Seq<char>) -> u64;
impl View for Tag { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.data@ } }
pub open spec fn tag_ok(t: Tag) -> bool { t.id == tag_hash(t.data@) }
pub open spec fn ot(o: Option<&Tag>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn otv(o: Option<Tag>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
#[verifier::external_body]
pub fn compute_id(bytes: &str) -> (r: u64) ensures r == tag_hash(bytes@) { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

#[verifier::external_body]
pub fn mix(h: u64, i: u64, k: u64) -> u64 { unimplemented!() }
#[verifier::external_body]
pub fn ne8(i: [u8; 8]) -> u64 { unimplemented!() }
#[verifier::external_body]
pub fn ne4(i: [u8; 4]) -> u32 { unimplemented!() }
#[verifier::external_body]
pub fn ne2(i: [u8; 2]) -> u16 { unimplemented!() }
// The hash never reads outside the name (a slice is shorter than half the address space).
//@fn sval_noalloc | data::{impl Tag}::new::{body}::compute_id
//@as compute_id_in_bounds
//@sub u64::from_ne_bytes => ne8
//@sub u32::from_ne_bytes => ne4
//@sub u16::from_ne_bytes => ne2
//@sub \(hash\.rotate_left\(5\) \^ i\)\.wrapping_mul\(K\) => mix(hash, i, K)
//@spec
    requires bytes@.len() <= isize::MAX,
    ensures true,
//@loop 0
    invariant b <= bytes@.len() <= isize::MAX,
    decreases bytes@.len() - b,
//@end

impl Tag {
//@fn sval_noalloc | data::{impl Tag}::new
//@sub (?s)const fn compute_id\(.*\}(?=\s*Tag \{) =>
//@sub data\.as_bytes\(\) => data
//@spec
    ensures tag_ok(r), r@ == data@,
//@end
//@fn sval_noalloc | data::{impl Tag}::cloned
//@spec
    ensures r@ == self@, tag_ok(*self) ==> tag_ok(r),
//@end
//@fn sval_noalloc | data::{impl ::core::cmp::PartialEq for Tag}::eq
//@sub self\.data == other\.data => str_eq(self.data, other.data)
//@spec
    requires tag_ok(*self), tag_ok(*other),
    ensures r == (self@ == other@),
//@end
//@fn sval_noalloc | data::{impl ::core::clone::Clone for Tag}::clone
//@sub ::core::clone::Clone::clone\(&self\.(\w+)\) => self.\1
//@spec
    ensures r@ == self@, tag_ok(*self) ==> tag_ok(r),
//@end
}
fn copy_tag(t: &Option<Tag>) -> (r: Option<Tag>)
    ensures otv(r) == otv(*t),
{ match t { Some(t) => Some(t.clone()), None => None } }

// -- indexes: a number and a hint ----------------------------------------------
pub ghost struct IndexV { pub num: int, pub tag: Option<Seq<char>> }
pub struct Index(i128, Option<Tag>);
impl View for Index { type V = IndexV; closed spec fn view(&self) -> IndexV { IndexV { num: self.0 as int, tag: otv(self.1) } } }

// What is fed to a hasher.
pub trait Hasher { spec fn fed(&self) -> Seq<int>; }
#[verifier::external_body]
pub fn hash_i128<H: Hasher>(v: i128, state: &mut H)
    ensures (*final(state)).fed() == (*old(state)).fed().push(v as int),
{ unimplemented!() }
// (a string feeds a hasher what its text determines: std's Hash for str)
pub uninterp spec fn str_hash(s: Seq<char>) -> Seq<int>;
#[verifier::external_body]
pub fn hash_str<H: Hasher>(v: &str, state: &mut H)
    ensures (*final(state)).fed() == (*old(state)).fed() + str_hash(v@),
{ unimplemented!() }
pub open spec fn compare(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
#[verifier::external_body]
pub fn cmp_i128(a: &i128, b: &i128) -> (r: Ordering) ensures r == compare(*a as int, *b as int) { a.cmp(b) }
#[verifier::external_body]
pub fn partial_cmp_i128(a: &i128, b: &i128) -> (r: Option<Ordering>) ensures r == Some(compare(*a as int, *b as int)) { a.partial_cmp(b) }

impl Index {
//@fn sval_noalloc | data::{impl Index}::new
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl Index}::new_u32
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl Index}::new_u64
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl Index}::new_i32
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl Index}::new_i64
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl Index}::new_isize
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl Index}::to_usize
//@spec
    ensures
        r matches Some(n) ==> n as int == self@.num,
        r.is_none() ==> !(usize::MIN <= self@.num <= usize::MAX),
//@end
//@fn sval_noalloc | data::{impl Index}::to_u32
//@spec
    ensures
        r matches Some(n) ==> n as int == self@.num,
        r.is_none() ==> !(u32::MIN <= self@.num <= u32::MAX),
//@end
//@fn sval_noalloc | data::{impl Index}::to_u64
//@spec
    ensures
        r matches Some(n) ==> n as int == self@.num,
        r.is_none() ==> !(u64::MIN <= self@.num <= u64::MAX),
//@end
//@fn sval_noalloc | data::{impl Index}::to_isize
//@spec
    ensures
        r matches Some(n) ==> n as int == self@.num,
        r.is_none() ==> !(isize::MIN <= self@.num <= isize::MAX),
//@end
//@fn sval_noalloc | data::{impl Index}::to_i32
//@spec
    ensures
        r matches Some(n) ==> n as int == self@.num,
        r.is_none() ==> !(i32::MIN <= self@.num <= i32::MAX),
//@end
//@fn sval_noalloc | data::{impl Index}::to_i64
//@spec
    ensures
        r matches Some(n) ==> n as int == self@.num,
        r.is_none() ==> !(i64::MIN <= self@.num <= i64::MAX),
//@end
//@fn sval_noalloc | data::{impl Index}::with_tag
//@spec
    ensures r@.num == self@.num, r@.tag == Some(tag@),
//@end
//@fn sval_noalloc | data::{impl Index}::tag
//@spec
    ensures ot(r) == self@.tag,
//@end
//@fn sval_noalloc | data::{impl From<i32> for Index}::from
//@as from_i32
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl From<i64> for Index}::from
//@as from_i64
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl From<isize> for Index}::from
//@as from_isize
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl From<u32> for Index}::from
//@as from_u32
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl From<u64> for Index}::from
//@as from_u64
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl From<usize> for Index}::from
//@as from_usize
//@spec
    ensures r@ == (IndexV { num: index as int, tag: None }),
//@end
//@fn sval_noalloc | data::{impl ::core::clone::Clone for Index}::clone
//@sub ::core::clone::Clone::clone\(&self\.0\) => self.0
//@sub ::core::clone::Clone::clone\(&self\.1\) => copy_tag(&self.1)
//@spec
    ensures r@ == self@,
//@end
//@fn sval_noalloc | data::{impl PartialEq for Index}::eq
//@spec
    ensures r == (self@.num == other@.num),
//@end
//@fn sval_noalloc | data::{impl PartialOrd for Index}::partial_cmp
//@sub (self\.0)\.partial_cmp\( => partial_cmp_i128(&\1, 
//@spec
    ensures r == Some(compare(self@.num, other@.num)),
//@end
//@fn sval_noalloc | data::{impl Ord for Index}::cmp
//@sub (self\.0)\.cmp\( => cmp_i128(&\1, 
//@spec
    ensures r == compare(self@.num, other@.num),
//@end
//@fn sval_noalloc | data::{impl Hash for Index}::hash
//@sub (self\.0)\.hash\(state\) => hash_i128(\1, state)
//@spec
    ensures (*final(state)).fed() == (*old(state)).fed().push(self@.num),
//@end
}

// -- labels: text and a hint ----------------------------------------------------
// A label points at its text; the pointers of /repo are modelled by the text they point at, so
// what is proved is which text and which hint a label has, not that the pointers stay valid.
use core::marker::PhantomData;
#[derive(Copy, Clone)]
#[verifier::external_body]
pub struct Ptr { p: *const str }
impl View for Ptr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn ptr_to(s: &str) -> (r: Ptr) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn at<'a>(p: Ptr) -> (r: &'a str) ensures r@ == p@ { unimplemented!() }
#[verifier::external_body]
pub fn leak(s: String) -> (r: Ptr) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn owned_copy(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub ghost struct LabelV { pub text: Seq<char>, pub tag: Option<Seq<char>> }
pub struct Label<'computed> {
    pub value_computed: Ptr,
    pub backing_field_static: Option<&'static str>,
    pub tag: Option<Tag>,
    pub _marker: PhantomData<&'computed str>,
}
impl<'computed> View for Label<'computed> {
    type V = LabelV;
    open spec fn view(&self) -> LabelV { LabelV { text: self.value_computed@, tag: otv(self.tag) } }
}
// every copy a label keeps of its text is that text
pub open spec fn label_ok(l: Label) -> bool {
    &&& l.backing_field_static matches Some(s) ==> s@ == l@.text
}
impl<'computed> Label<'computed> {
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::new
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    ensures label_ok(r), r@ == (LabelV { text: label@, tag: None }), r.backing_field_static == Some(label),
//@end
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::new_computed
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    ensures label_ok(r), r@ == (LabelV { text: label@, tag: None }), r.backing_field_static is None,
//@end
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::as_str
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    requires label_ok(*self),
    ensures r@ == self@.text,
//@end
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::as_static_str
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    requires label_ok(*self),
    ensures r == self.backing_field_static, r matches Some(s) ==> s@ == self@.text,
//@end
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::with_tag
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    requires label_ok(self),
    ensures label_ok(r), r@ == (LabelV { text: self@.text, tag: Some(tag@) }), r.backing_field_static == self.backing_field_static,
//@end
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::tag
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    ensures ot(r) == self@.tag,
//@end
//@fn sval_noalloc | data::{impl<'computed> Label<'computed>}::try_to_owned
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@sub crate::Error::new => Error::new
//@spec
    requires label_ok(*self),
    ensures r matches Ok(l) ==> label_ok(l) && l@ == self@, r.is_ok() == self.backing_field_static.is_some(),
//@end
//@fn sval_noalloc | data::{impl<'a> Hash for Label<'a>}::hash
//@sub self\.as_str\(\)\.hash\(state\) => hash_str(self.as_str(), state)
//@spec
    requires label_ok(*self),
    ensures (*final(state)).fed() == (*old(state)).fed() + str_hash(self@.text),
//@end
//@fn sval_noalloc | data::{impl<'a> Borrow<str> for Label<'a>}::borrow
//@spec
    requires label_ok(*self),
    ensures r@ == self@.text,
//@end
//@fn sval_noalloc | data::{impl<'a, 'b> PartialEq<Label<'b>> for Label<'a>}::eq
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@sub self\.as_str\(\) == other\.as_str\(\) => str_eq(self.as_str(), other.as_str())
//@sub fn eq => fn eq<'b>
//@spec
    requires label_ok(*self), label_ok(*other),
    ensures r == (self@.text == other@.text),
//@end
//@fn sval_noalloc | data::{impl<'computed> Clone for Label<'computed>}::clone
//@sub \blabel as \*const str\b => ptr_to(label)
//@sub \bowned as \*const str\b => owned
//@sub unsafe \{ &\*self\.value_computed \} => at(self.value_computed)
//@sub unsafe \{ &\*owned \}\.to_owned\(\) => owned_copy(at(owned))
//@sub self\.as_str\(\)\.into\(\) => owned_copy(self.as_str())
//@sub Box::into_raw\(label\.into_boxed_str\(\)\) => leak(label)
//@sub self\.tag\.clone\(\) => copy_tag(&self.tag)
//@spec
    requires label_ok(*self),
    ensures label_ok(r), r@ == self@, r.backing_field_static == self.backing_field_static,
//@end
}
impl Label<'static> {
}
}
fn main() {}
