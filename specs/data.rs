// Errors, tags, labels and indexes, as every contract sees them.
pub struct Error(pub ());
pub type Result<T = (), E = Error> = core::result::Result<T, E>;
pub use core::result::Result::{Ok, Err};

impl Error {
    pub fn new() -> Error { Error(()) }
}

pub fn error<T>() -> (r: Result<T>)
    ensures r.is_err(),
{ Err(Error(())) }

// `Tag`: only identity is observable.
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
pub struct Tag { pub id: u64 }

pub mod tags {
    use super::*;
    pub const RUST_OPTION_SOME: Tag = Tag { id: 1 };
    pub const RUST_OPTION_NONE: Tag = Tag { id: 2 };
    pub const RUST_UNIT: Tag = Tag { id: 3 };
    pub const NUMBER: Tag = Tag { id: 4 };
    pub const CONSTANT_SIZE: Tag = Tag { id: 5 };
    pub const VALUE_IDENT: Tag = Tag { id: 6 };
    pub const VALUE_OFFSET: Tag = Tag { id: 7 };
}

// `Label`: its text and its tag hint are observable (raw pointers inside: trusted).
pub ghost struct LabelV { pub text: Seq<char>, pub tag: Option<Tag> }
#[verifier::external_body]
pub struct Label<'computed> { text: &'computed str }
impl<'computed> View for Label<'computed> {
    type V = LabelV;
    uninterp spec fn view(&self) -> LabelV;
}
// whether a label was made from a `&'static str`
pub uninterp spec fn is_static(l: Label) -> bool;
impl<'computed> Label<'computed> {
    #[verifier::external_body]
    pub fn new(label: &'static str) -> (r: Label<'computed>)
        ensures r@.text == label@, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_computed(label: &'computed str) -> (r: Label<'computed>)
        ensures r@.text == label@, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tag(self, tag: &Tag) -> (r: Label<'computed>)
        ensures r@.text == self@.text, r@.tag == Some(*tag),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == self@.text,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_static_str(&self) -> (r: Option<&'static str>)
        ensures r.is_some() ==> r.unwrap()@ == self@.text, r.is_some() == is_static(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tag(&self) -> (r: Option<&Tag>)
        ensures ot(r) == self@.tag,
    { unimplemented!() }
}

// `Index`: a number and a tag hint (the contracts here are discharged for the real
// code by specs/index.rs, property C10).
pub ghost struct IndexV { pub num: int, pub tag: Option<Tag> }
#[verifier::external_body]
pub struct Index { num: i128 }
impl View for Index {
    type V = IndexV;
    uninterp spec fn view(&self) -> IndexV;
}
impl Index {
    #[verifier::external_body]
    pub fn new(index: usize) -> (r: Index)
        ensures r@.num == index, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i64(&self) -> (r: Option<i64>)
        ensures r == (if i64::MIN <= self@.num <= i64::MAX { Some(self@.num as i64) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u32(&self) -> (r: Option<u32>)
        ensures r == (if 0 <= self@.num <= u32::MAX { Some(self@.num as u32) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_isize(index: isize) -> (r: Index)
        ensures r@.num == index, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_u32(index: u32) -> (r: Index)
        ensures r@.num == index, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u64(&self) -> (r: Option<u64>)
        ensures r == (if u64::MIN <= self@.num <= u64::MAX { Some(self@.num as u64) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_u64(index: u64) -> (r: Index)
        ensures r@.num == index, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_usize(&self) -> (r: Option<usize>)
        ensures r == (if usize::MIN <= self@.num <= usize::MAX { Some(self@.num as usize) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i32(&self) -> (r: Option<i32>)
        ensures r == (if i32::MIN <= self@.num <= i32::MAX { Some(self@.num as i32) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_i32(index: i32) -> (r: Index)
        ensures r@.num == index, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_i64(index: i64) -> (r: Index)
        ensures r@.num == index, r@.tag == None::<Tag>,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_isize(&self) -> (r: Option<isize>)
        ensures r == (if isize::MIN <= self@.num <= isize::MAX { Some(self@.num as isize) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tag(self, tag: &Tag) -> (r: Index)
        ensures r@.num == self@.num, r@.tag == Some(*tag),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tag(&self) -> (r: Option<&Tag>)
        ensures ot(r) == self@.tag,
    { unimplemented!() }
}

pub open spec fn ot(o: Option<&Tag>) -> Option<Tag> { match o { Some(t) => Some(*t), None => None } }
pub fn is_tag(o: Option<&Tag>, t: &Tag) -> (r: bool)
    ensures r == (ot(o) == Some(*t)),
{ match o { Some(x) => *x == *t, None => false } }
pub open spec fn ol(o: Option<&Label>) -> Option<LabelV> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn oi(o: Option<&Index>) -> Option<IndexV> { match o { Some(t) => Some(t@), None => None } }

