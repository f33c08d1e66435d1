// C19: the derive macro's index allocator, for every sequence of fields or variants.
use vstd::prelude::*;
verus! {

// Tokens, as far as indexes need them: what `quote!` writes is a sequence of tokens, and an
// integer is written as one literal of its value.
pub ghost enum Tok { Int(int), Other(int) }
pub mod quote {
    use super::*;
    pub mod __private {
        use super::super::*;
        #[verifier::external_body]
        pub struct TokenStream { t: () }
        impl View for TokenStream { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
        impl TokenStream {
            #[verifier::external_body]
            pub fn new() -> (r: TokenStream) ensures r@ =~= Seq::<Tok>::empty() { unimplemented!() }
        }
        pub enum Delimiter { Parenthesis, Brace, Bracket, None }
        #[verifier::external_body]
        pub fn push_group(s: &mut TokenStream, d: Delimiter, inner: TokenStream) { unimplemented!() }
        #[verifier::external_body]
        pub fn push_ident(s: &mut TokenStream, i: &str) { unimplemented!() }
        #[verifier::external_body]
        pub fn parse(s: &mut TokenStream, i: &str) { unimplemented!() }
        #[verifier::external_body]
        pub fn push_eq(s: &mut TokenStream) { unimplemented!() }
        #[verifier::external_body]
        pub fn push_semi(s: &mut TokenStream) { unimplemented!() }
        #[verifier::external_body]
        pub fn push_add_eq(s: &mut TokenStream) { unimplemented!() }
        #[verifier::external_body]
        pub fn push_add(s: &mut TokenStream) { unimplemented!() }
    }
    pub trait Written { spec fn toks(&self) -> Seq<Tok>; }
    impl Written for isize { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Int(*self as int)] } }
    impl Written for __private::TokenStream { open spec fn toks(&self) -> Seq<Tok> { self@ } }
    impl Written for syn::Ident { uninterp spec fn toks(&self) -> Seq<Tok>; }
    impl<T: Written> Written for &T { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } }
    pub struct ToTokens;
    impl ToTokens {
        #[verifier::external_body]
        pub fn to_tokens<T: Written>(t: &T, s: &mut __private::TokenStream)
            ensures final(s)@ =~= old(s)@ + t.toks(),
        { unimplemented!() }
    }
}
pub mod proc_macro2 { pub use super::quote::__private::TokenStream; }
pub mod syn {
    use super::*;
    #[verifier::external_body]
    pub struct Ident { i: () }
}

//@use sval_derive_macros | index::IndexAllocator
//@use sval_derive_macros | index::IndexValue
//@use sval_derive_macros | index::Index

// What is known of the next item: its index if it has none of its own, and whether any
// earlier item had one.
pub ghost struct Next { pub at: int, pub explicit: bool }
pub open spec fn state(a: IndexAllocator) -> Next { Next { at: a.next_const_index as int, explicit: a.explicit } }
pub open spec fn begin() -> Next { Next { at: 0, explicit: false } }
// Like the discriminants of an enum: one more than the last, unless given.
pub open spec fn step(s: Next, given: Option<IndexValue>) -> Next {
    match given {
        Some(IndexValue::Const(n)) => Next { at: n as int + 1, explicit: true },
        Some(IndexValue::Ident(_)) => Next { at: s.at + 1, explicit: true },
        None => Next { at: s.at + 1, explicit: s.explicit },
    }
}
pub open spec fn is_given(i: Index, v: IndexValue) -> bool {
    i matches Index::Explicit(t) && match v {
        IndexValue::Const(n) => t@ =~= seq![Tok::Int(n as int)],
        IndexValue::Ident(x) => t@ == x@,
    }
}
// A default index says it is an offset exactly when nothing before it was given.
pub open spec fn is_right(s: Next, given: Option<IndexValue>, i: Index) -> bool {
    match given {
        Some(v) => is_given(i, v),
        None => if s.explicit { i matches Index::Explicit(t) && t@ =~= seq![Tok::Int(s.at)] }
                else { i matches Index::Implicit(t) && t@ =~= seq![Tok::Int(s.at)] },
    }
}
pub open spec fn fits(s: Next, given: Option<IndexValue>) -> bool {
    match given { Some(IndexValue::Const(n)) => n < isize::MAX, _ => s.at < isize::MAX }
}

impl IndexAllocator {
//@fn sval_derive_macros | index::{impl IndexAllocator}::new
//@spec
        ensures state(r) == begin(),
//@end
//@fn sval_derive_macros | index::{impl IndexAllocator}::const_index_of
//@sub ::quote:: => quote::
//@spec
        ensures is_given(r, explicit),
//@end
//@fn sval_derive_macros | index::{impl IndexAllocator}::next_const_index
//@sub ::quote:: => quote::
//@spec
        requires fits(state(*old(self)), explicit),
        ensures state(*final(self)) == step(state(*old(self)), explicit), is_right(state(*old(self)), explicit, r),
//@end
//@fn sval_derive_macros | index::{impl IndexAllocator}::next_computed_index
//@sub ::quote:: => quote::
//@spec
        requires fits(state(*old(self)), explicit),
        ensures
            state(*final(self)) == step(state(*old(self)), explicit),
            // an offset is counted when the code runs; anything else is known now
            r is Implicit <==> explicit is None && !old(self).explicit,
            r is Explicit ==> is_right(state(*old(self)), explicit, r),
//@end
}

// The state before the n-th of a list of items.
pub open spec fn before(items: Seq<Option<IndexValue>>, n: int) -> Next
    decreases n,
{ if n <= 0 { begin() } else { step(before(items, n - 1), items[n - 1]) } }
// With none given, the n-th index is n, as an offset.
pub proof fn offsets(items: Seq<Option<IndexValue>>, n: int)
    requires 0 <= n <= items.len(), forall|i: int| 0 <= i < n ==> items[i] is None,
    ensures before(items, n) == (Next { at: n, explicit: false }),
    decreases n,
{ if n > 0 { offsets(items, n - 1); } }
// After one given as a constant, each that follows without one is one more.
pub proof fn successors(items: Seq<Option<IndexValue>>, k: int, n: int, v: isize)
    requires 0 <= k < n <= items.len(), items[k] == Some(IndexValue::Const(v)), forall|i: int| k < i < n ==> items[i] is None,
    ensures before(items, n) == (Next { at: v + n - k, explicit: true }),
    decreases n,
{ if n > k + 1 { successors(items, k, n - 1, v); } }
}
fn main() {}
