// C19: what #[derive(Value)] writes for a catalogue of types (generated by lib/mkderive.py).
// The functions are the macro's own output for derive_types, expanded from /repo's
// current tree on every run; the contracts come from the attributes' documentation.
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@include stream.rs
pub mod sval { pub use super::*; }

pub const TAG_A: Tag = Tag { id: 101 };
pub const TAG_B: Tag = Tag { id: 102 };
pub const INDEX_C: isize = 40;
#[verifier::external_body]
pub fn label_c() -> (r: Label<'static>) ensures r@ == label_c_v() { unimplemented!() }
pub open spec fn label_c_v() -> LabelV { LabelV { text: "constant label"@, tag: None } }
pub open spec fn ident_v(s: Seq<char>) -> LabelV { LabelV { text: s, tag: Some(tags::VALUE_IDENT) } }
pub open spec fn text_v(s: Seq<char>) -> LabelV { LabelV { text: s, tag: None } }
pub open spec fn offset_v(i: int) -> IndexV { IndexV { num: i, tag: Some(tags::VALUE_OFFSET) } }
pub open spec fn given_v(i: int) -> IndexV { IndexV { num: i, tag: None } }

// What flattening sends (C14): each item of the value on the kind of parent at hand.
pub uninterp spec fn flat_record_tuple(e: Seq<Ev>, at: int) -> Seq<Ev>;
pub uninterp spec fn flat_record(e: Seq<Ev>, at: int) -> Seq<Ev>;
pub uninterp spec fn flat_tuple(e: Seq<Ev>, at: int) -> Seq<Ev>;
pub uninterp spec fn flat_seq(e: Seq<Ev>) -> Seq<Ev>;
pub uninterp spec fn flat_next(e: Seq<Ev>, at: int) -> int;
pub mod flatten {
    use super::*;
    #[verifier::external_body]
    pub fn flatten_to_record_tuple<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V, at: isize) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_record_tuple(v.evs(), at as int), flat_next(v.evs(), at as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_to_record<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V, at: isize) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_record(v.evs(), at as int), flat_next(v.evs(), at as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_to_tuple<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V, at: isize) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_tuple(v.evs(), at as int), flat_next(v.evs(), at as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flatten_to_seq<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V) -> (r: Result<isize>)
        requires !(*old(stream)).st().broken,
        ensures flat_sent((*old(stream)).st(), (*final(stream)).st(), r, flat_seq(v.evs()), flat_next(v.evs(), 0)),
    { unimplemented!() }
}
// (indexes stay within isize, as in C14)
pub open spec fn flat_sent(old: St, new: St, r: Result<isize>, evs: Seq<Ev>, next: int) -> bool {
    &&& r.is_err() == new.broken
    &&& new.lends == old.lends
    &&& r.is_ok() ==> new.log =~= old.log + lend(evs, old.lends) && r->Ok_0 == next && next < isize::MAX - 1000
}

// one event or one value, seen from the log
pub proof fn d_zero(o: Seq<Ev>, l: bool)
    ensures o + lend(Seq::<Ev>::empty(), l) == o,
{ assert(o + lend(Seq::<Ev>::empty(), l) =~= o); }
pub proof fn d_ev(o: Seq<Ev>, x: Seq<Ev>, l: bool, e: Ev)
    requires lend1(e, l) == e,
    ensures (o + lend(x, l)) + seq![e] == o + lend(x + seq![e], l),
{ assert((o + lend(x, l)) + seq![e] =~= o + lend(x + seq![e], l)); }
pub proof fn d_val(o: Seq<Ev>, x: Seq<Ev>, l: bool, v: Seq<Ev>)
    ensures (o + lend(x, l)) + lend(v, l) == o + lend(x + v, l),
{ assert((o + lend(x, l)) + lend(v, l) =~= o + lend(x + v, l)); }
pub mod types0 {
use super::*;
pub struct S000<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S000<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S000 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S000"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S000"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S000\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S000<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S000 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S000"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S000"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S000\b.*\}
//@header impl<A: Value, B: Value, C: Value> S000<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S001<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S001<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S001 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S001"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S001"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S001\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S001<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S001 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S001"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, Some(ident_v("S001"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S001\b.*\}
//@header impl<A: Value, B: Value, C: Value> S001<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S002<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S002<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S002 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S002"@)), None, None)]) + flat_record_tuple(b0.evs(), 0)) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(flat_next(b0.evs(), 0) + 1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S002"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S002\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S002<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S002 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S002"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("S002"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S002\b.*\}
//@header impl<A: Value, B: Value, C: Value> S002<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S003<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S003<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S003 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S003"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S003"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S003\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S003<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S003 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S003"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordTupleEnd(None, Some(ident_v("S003"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S003\b.*\}
//@header impl<A: Value, B: Value, C: Value> S003<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S004<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S004<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S004 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S004"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), given_v(5))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), given_v(5))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(6))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(6))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(7))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(7))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S004"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S004\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S004<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S004 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S004"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), given_v(5)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), given_v(5)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(6)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(6)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(7)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(7)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S004"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S004\b.*\}
//@header impl<A: Value, B: Value, C: Value> S004<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S005<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S005<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S005 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S005"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("x"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("x"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S005"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S005\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S005<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S005 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S005"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, text_v("x"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, text_v("x"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S005"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S005\b.*\}
//@header impl<A: Value, B: Value, C: Value> S005<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S006<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S006<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S006 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S006"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S006"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S006\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S006<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S006 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S006"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, Some(ident_v("S006"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S006\b.*\}
//@header impl<A: Value, B: Value, C: Value> S006<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S007<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S007<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S007 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S007"@)), None, None)]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + flat_record_tuple(b1.evs(), 1)) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(flat_next(b1.evs(), 1) + 0))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(flat_next(b1.evs(), 1) + 0))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S007"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S007\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S007<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S007 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S007"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = flat_record_tuple(b1.evs(), 1); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(flat_next(b1.evs(), 1) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(flat_next(b1.evs(), 1) + 0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("S007"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S007\b.*\}
//@header impl<A: Value, B: Value, C: Value> S007<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S008<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S008<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S008 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S008"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f1"@), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S008"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S008\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S008<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S008 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S008"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f1"@), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordTupleEnd(None, Some(ident_v("S008"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S008\b.*\}
//@header impl<A: Value, B: Value, C: Value> S008<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S009<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S009<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S009 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S009"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(-2))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(-2))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(-1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(-1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S009"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S009\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S009<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S009 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S009"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(-2)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(-2)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(-1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(-1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S009"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S009\b.*\}
//@header impl<A: Value, B: Value, C: Value> S009<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S010<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S010<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S010 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S010"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S010"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S010\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S010<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S010 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S010"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S010"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S010\b.*\}
//@header impl<A: Value, B: Value, C: Value> S010<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S011<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S011<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S011 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S011"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S011"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S011\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S011<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S011 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S011"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, Some(ident_v("S011"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S011\b.*\}
//@header impl<A: Value, B: Value, C: Value> S011<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S012<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S012<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S012 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S012"@)), None, None)]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + flat_record_tuple(b2.evs(), 2)) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S012"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S012\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S012<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S012 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S012"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = flat_record_tuple(b2.evs(), 2); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("S012"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S012\b.*\}
//@header impl<A: Value, B: Value, C: Value> S012<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S013<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S013<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S013 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S013"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f2"@), offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S013"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S013\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S013<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S013 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S013"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f2"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f2"@), offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordTupleEnd(None, Some(ident_v("S013"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S013\b.*\}
//@header impl<A: Value, B: Value, C: Value> S013<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S014<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S014<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S014 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S014"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(0))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(0))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S014"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S014\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S014<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S014 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S014"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(0)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S014"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S014\b.*\}
//@header impl<A: Value, B: Value, C: Value> S014<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S015<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S015<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S015 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S015"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, text_v("z"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("z"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S015"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S015\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S015<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S015 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S015"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, text_v("z"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, text_v("z"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S015"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S015\b.*\}
//@header impl<A: Value, B: Value, C: Value> S015<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types1 {
use super::*;
pub struct S016<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S016<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S016 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S016"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S016"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S016\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S016<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S016 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S016"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S016"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S016\b.*\}
//@header impl<A: Value, B: Value, C: Value> S016<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S017<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S017<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S017 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S017"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S017"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S017\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S017<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S017 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S017"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S017"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S017\b.*\}
//@header impl<A: Value, B: Value, C: Value> S017<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S018<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S018<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S018 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S018"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S018"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S018\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S018<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S018 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S018"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S018"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S018\b.*\}
//@header impl<A: Value, B: Value, C: Value> S018<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S019<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S019<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S019 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S019"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S019"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S019\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S019<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S019 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S019"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S019"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S019\b.*\}
//@header impl<A: Value, B: Value, C: Value> S019<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S020<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S020<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S020 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S020"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S020"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S020\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S020<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S020 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S020"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordEnd(None, Some(ident_v("S020"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S020\b.*\}
//@header impl<A: Value, B: Value, C: Value> S020<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S021<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S021<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S021 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S021"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S021"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S021\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S021<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S021 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S021"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(None, Some(ident_v("S021"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S021\b.*\}
//@header impl<A: Value, B: Value, C: Value> S021<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S022<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S022<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S022 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S022"@)), None, None)]) + flat_record(b0.evs(), 0)) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S022"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S022\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S022<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S022 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S022"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordEnd(None, Some(ident_v("S022"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S022\b.*\}
//@header impl<A: Value, B: Value, C: Value> S022<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S023<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S023<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S023 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S023"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f0"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S023"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S023\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S023<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S023 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S023"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f0"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordEnd(None, Some(ident_v("S023"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S023\b.*\}
//@header impl<A: Value, B: Value, C: Value> S023<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S024<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S024<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S024 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S024"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, text_v("x"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, text_v("x"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S024"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S024\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S024<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S024 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S024"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, text_v("x"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, text_v("x"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordEnd(None, Some(ident_v("S024"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S024\b.*\}
//@header impl<A: Value, B: Value, C: Value> S024<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S025<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S025<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S025 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S025"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S025"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S025\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S025<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S025 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S025"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(None, Some(ident_v("S025"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S025\b.*\}
//@header impl<A: Value, B: Value, C: Value> S025<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S026<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S026<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S026 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S026"@)), None, None)]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + flat_record(b1.evs(), 0)) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S026"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S026\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S026<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S026 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S026"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = flat_record(b1.evs(), 0); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordEnd(None, Some(ident_v("S026"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S026\b.*\}
//@header impl<A: Value, B: Value, C: Value> S026<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S027<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S027<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S027 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S027"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f1"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S027"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S027\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S027<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S027 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S027"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f1"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordEnd(None, Some(ident_v("S027"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S027\b.*\}
//@header impl<A: Value, B: Value, C: Value> S027<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S028<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S028<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S028 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S028"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, label_c_v())]) + b1.evs()) + seq![Ev::RecordValueEnd(None, label_c_v())]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S028"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S028\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S028<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S028 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S028"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, label_c_v()); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, label_c_v()); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordEnd(None, Some(ident_v("S028"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S028\b.*\}
//@header impl<A: Value, B: Value, C: Value> S028<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S029<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S029<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S029 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S029"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S029"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S029\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S029<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S029 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S029"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(None, Some(ident_v("S029"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S029\b.*\}
//@header impl<A: Value, B: Value, C: Value> S029<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S030<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S030<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S030 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S030"@)), None, None)]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + flat_record(b2.evs(), 0)) + seq![Ev::RecordEnd(None, Some(ident_v("S030"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S030\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S030<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S030 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S030"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = flat_record(b2.evs(), 0); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordEnd(None, Some(ident_v("S030"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S030\b.*\}
//@header impl<A: Value, B: Value, C: Value> S030<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S031<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S031<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S031 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S031"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S031"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S031\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S031<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S031 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S031"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordEnd(None, Some(ident_v("S031"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S031\b.*\}
//@header impl<A: Value, B: Value, C: Value> S031<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types2 {
use super::*;
pub struct S032<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S032<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S032 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S032"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, text_v("z"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, text_v("z"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S032"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S032\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S032<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S032 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S032"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, text_v("z"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, text_v("z"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordEnd(None, Some(ident_v("S032"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S032\b.*\}
//@header impl<A: Value, B: Value, C: Value> S032<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S033<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S033<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S033 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S033"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S033"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S033\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S033<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S033 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S033"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S033"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S033\b.*\}
//@header impl<A: Value, B: Value, C: Value> S033<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S034<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S034<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S034 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S034"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S034"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S034\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S034<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S034 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S034"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S034"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S034\b.*\}
//@header impl<A: Value, B: Value, C: Value> S034<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S035<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S035<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S035 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S035"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S035"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S035\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S035<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S035 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S035"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S035"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S035\b.*\}
//@header impl<A: Value, B: Value, C: Value> S035<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S036<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S036<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S036 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S036"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S036"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S036\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S036<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S036 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S036"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S036"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S036\b.*\}
//@header impl<A: Value, B: Value, C: Value> S036<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S037<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S037<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S037 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S037"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S037"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S037\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S037<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S037 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S037"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S037"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S037\b.*\}
//@header impl<A: Value, B: Value, C: Value> S037<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S038<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S038<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S038 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S038"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S038"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S038\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S038<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S038 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S038"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S038"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S038\b.*\}
//@header impl<A: Value, B: Value, C: Value> S038<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S039<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S039<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S039 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S039"@)), None, None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S039"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S039\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S039<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S039 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S039"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("S039"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S039\b.*\}
//@header impl<A: Value, B: Value, C: Value> S039<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S040<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S040<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S040 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S040"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S040"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S040\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S040<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S040 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S040"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(Some(TAG_B), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueEnd(Some(TAG_B), offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("S040"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S040\b.*\}
//@header impl<A: Value, B: Value, C: Value> S040<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S041<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S041<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S041 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S041"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, given_v(5))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, given_v(5))]) + seq![Ev::TupleValueBegin(None, given_v(6))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(6))]) + seq![Ev::TupleValueBegin(None, given_v(7))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, given_v(7))]) + seq![Ev::TupleEnd(None, Some(ident_v("S041"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S041\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S041<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S041 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S041"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, given_v(5)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, given_v(5)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, given_v(6)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, given_v(6)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(7)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(7)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S041"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S041\b.*\}
//@header impl<A: Value, B: Value, C: Value> S041<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S042<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S042<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S042 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S042"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S042"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S042\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S042<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S042 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S042"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S042"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S042\b.*\}
//@header impl<A: Value, B: Value, C: Value> S042<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S043<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S043<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S043 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S043"@)), None, None)]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + flat_tuple(b1.evs(), 1)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b1.evs(), 1) + 0))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b1.evs(), 1) + 0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S043"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S043\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S043<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S043 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S043"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = flat_tuple(b1.evs(), 1); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TupleValueBegin(None, offset_v(flat_next(b1.evs(), 1) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(flat_next(b1.evs(), 1) + 0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("S043"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S043\b.*\}
//@header impl<A: Value, B: Value, C: Value> S043<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S044<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S044<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S044 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S044"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S044"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S044\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S044<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S044 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S044"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(Some(TAG_B), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleValueEnd(Some(TAG_B), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("S044"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S044\b.*\}
//@header impl<A: Value, B: Value, C: Value> S044<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S045<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S045<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S045 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S045"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, given_v(-2))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(-2))]) + seq![Ev::TupleValueBegin(None, given_v(-1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, given_v(-1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S045"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S045\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S045<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S045 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S045"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, given_v(-2)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, given_v(-2)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(-1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(-1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S045"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S045\b.*\}
//@header impl<A: Value, B: Value, C: Value> S045<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S046<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S046<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S046 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S046"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S046"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S046\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S046<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S046 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S046"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S046"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S046\b.*\}
//@header impl<A: Value, B: Value, C: Value> S046<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S047<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S047<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S047 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S047"@)), None, None)]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + flat_tuple(b2.evs(), 2)) + seq![Ev::TupleEnd(None, Some(ident_v("S047"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S047\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S047<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S047 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S047"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = flat_tuple(b2.evs(), 2); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TupleEnd(None, Some(ident_v("S047"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S047\b.*\}
//@header impl<A: Value, B: Value, C: Value> S047<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types3 {
use super::*;
pub struct S048<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S048<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S048 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S048"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S048"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S048\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S048<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S048 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S048"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(Some(TAG_B), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleValueEnd(Some(TAG_B), offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("S048"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S048\b.*\}
//@header impl<A: Value, B: Value, C: Value> S048<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S049<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S049<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S049 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S049"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, given_v(0))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, given_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S049"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S049\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S049<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S049 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S049"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(0)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S049"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S049\b.*\}
//@header impl<A: Value, B: Value, C: Value> S049<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S050<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S050<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S050 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S050"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S050"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S050\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S050<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S050 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S050"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S050"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S050\b.*\}
//@header impl<A: Value, B: Value, C: Value> S050<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S051<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S051<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S051 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S051"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S051"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S051\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S051<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S051 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S051"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S051"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S051\b.*\}
//@header impl<A: Value, B: Value, C: Value> S051<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S052<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S052<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S052 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S052"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S052"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S052\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S052<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S052 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S052"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S052"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S052\b.*\}
//@header impl<A: Value, B: Value, C: Value> S052<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S053<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S053<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S053 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S053"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S053"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S053\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S053<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S053 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S053"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S053"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S053\b.*\}
//@header impl<A: Value, B: Value, C: Value> S053<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S054<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S054<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S054 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S054"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S054"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S054\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S054<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S054 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S054"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::SeqValueEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqEnd; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedEnd(None, Some(ident_v("S054"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S054\b.*\}
//@header impl<A: Value, B: Value, C: Value> S054<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S055<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S055<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S055 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S055"@)), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S055"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S055\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S055<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S055 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S055"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(ident_v("S055"@)), Some(given_v(0))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S055\b.*\}
//@header impl<A: Value, B: Value, C: Value> S055<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S056<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S056<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S056 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S056"@)), None)]) + seq![Ev::SeqBegin(None)]) + flat_seq(b0.evs())) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S056"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S056\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S056<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S056 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S056"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_seq(b0.evs()); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueBegin; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::SeqValueEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("S056"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S056\b.*\}
//@header impl<A: Value, B: Value, C: Value> S056<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S057<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S057<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S057 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S057"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S057"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S057\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S057<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S057 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S057"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueBegin; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqValueBegin; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::SeqValueEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::SeqEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TaggedEnd(None, Some(ident_v("S057"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S057\b.*\}
//@header impl<A: Value, B: Value, C: Value> S057<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S058<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S058<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S058 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S058"@)), Some(given_v(1)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S058"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S058\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S058<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S058 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S058"@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(ident_v("S058"@)), Some(given_v(1))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S058\b.*\}
//@header impl<A: Value, B: Value, C: Value> S058<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S059<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S059<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S059 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S059"@)), None)]) + seq![Ev::SeqBegin(None)]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + flat_seq(b1.evs())) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S059"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S059\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S059<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S059 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S059"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = flat_seq(b1.evs()); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::SeqValueBegin; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::SeqValueEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("S059"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S059\b.*\}
//@header impl<A: Value, B: Value, C: Value> S059<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S060<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S060<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S060 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S060"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S060"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S060\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S060<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S060 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S060"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqValueBegin; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::SeqValueEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::SeqEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TaggedEnd(None, Some(ident_v("S060"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S060\b.*\}
//@header impl<A: Value, B: Value, C: Value> S060<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S061<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S061<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S061 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S061"@)), Some(given_v(2)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S061"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S061\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S061<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S061 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S061"@)), Some(given_v(2))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(ident_v("S061"@)), Some(given_v(2))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S061\b.*\}
//@header impl<A: Value, B: Value, C: Value> S061<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S062<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S062<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S062 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S062"@)), None)]) + seq![Ev::SeqBegin(None)]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + flat_seq(b2.evs())) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S062"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S062\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S062<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S062 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S062"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = flat_seq(b2.evs()); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("S062"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S062\b.*\}
//@header impl<A: Value, B: Value, C: Value> S062<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S063<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S063<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S063 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S063"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S063"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S063\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S063<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S063 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S063"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::SeqValueEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::SeqEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TaggedEnd(None, Some(ident_v("S063"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S063\b.*\}
//@header impl<A: Value, B: Value, C: Value> S063<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types4 {
use super::*;
pub struct S064<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S064<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S064 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S064"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S064"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S064\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S064<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S064 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S064"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::SeqValueEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqEnd; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S064"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S064\b.*\}
//@header impl<A: Value, B: Value, C: Value> S064<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S065<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S065<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S065 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S065"@)), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S065"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S065\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S065<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S065 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S065"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S065"@)), Some(given_v(0))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S065\b.*\}
//@header impl<A: Value, B: Value, C: Value> S065<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S066<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S066<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S066 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S066"@)), Some(given_v(1)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S066"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S066\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S066<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S066 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S066"@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S066"@)), Some(given_v(1))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S066\b.*\}
//@header impl<A: Value, B: Value, C: Value> S066<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S067<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S067<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S067 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S067"@)), Some(given_v(2)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S067"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S067\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S067<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S067 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S067"@)), Some(given_v(2))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S067"@)), Some(given_v(2))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S067\b.*\}
//@header impl<A: Value, B: Value, C: Value> S067<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S068<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S068<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S068 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S068"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S068"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S068\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S068<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S068 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S068"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S068"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S068\b.*\}
//@header impl<A: Value, B: Value, C: Value> S068<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S069<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S069<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S069 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S069"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S069"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S069\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S069<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S069 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S069"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S069"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S069\b.*\}
//@header impl<A: Value, B: Value, C: Value> S069<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S070<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S070<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S070 { 0: b0, 1: b1, 2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S070"@)), None, None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S070"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S070\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S070<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S070 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S070"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("S070"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S070\b.*\}
//@header impl<A: Value, B: Value, C: Value> S070<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S071<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S071<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S071 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S071"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S071"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S071\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S071<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S071 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S071"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(Some(TAG_B), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueEnd(Some(TAG_B), offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("S071"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S071\b.*\}
//@header impl<A: Value, B: Value, C: Value> S071<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S072<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S072<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S072 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S072"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, given_v(5))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, given_v(5))]) + seq![Ev::TupleValueBegin(None, given_v(6))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(6))]) + seq![Ev::TupleValueBegin(None, given_v(7))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, given_v(7))]) + seq![Ev::TupleEnd(None, Some(ident_v("S072"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S072\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S072<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S072 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S072"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, given_v(5)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, given_v(5)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, given_v(6)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, given_v(6)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(7)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(7)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S072"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S072\b.*\}
//@header impl<A: Value, B: Value, C: Value> S072<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S073<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S073<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S073 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S073"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S073"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S073\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S073<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S073 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S073"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S073"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S073\b.*\}
//@header impl<A: Value, B: Value, C: Value> S073<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S074<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S074<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S074 { 0: b0, 1: b1, 2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S074"@)), None, None)]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + flat_tuple(b1.evs(), 1)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b1.evs(), 1) + 0))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b1.evs(), 1) + 0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S074"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S074\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S074<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S074 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S074"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = flat_tuple(b1.evs(), 1); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TupleValueBegin(None, offset_v(flat_next(b1.evs(), 1) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(flat_next(b1.evs(), 1) + 0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("S074"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S074\b.*\}
//@header impl<A: Value, B: Value, C: Value> S074<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S075<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S075<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S075 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S075"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S075"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S075\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S075<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S075 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S075"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(Some(TAG_B), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleValueEnd(Some(TAG_B), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("S075"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S075\b.*\}
//@header impl<A: Value, B: Value, C: Value> S075<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S076<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S076<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S076 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S076"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, given_v(-2))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(-2))]) + seq![Ev::TupleValueBegin(None, given_v(-1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, given_v(-1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S076"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S076\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S076<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S076 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S076"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, given_v(-2)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, given_v(-2)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(-1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(-1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S076"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S076\b.*\}
//@header impl<A: Value, B: Value, C: Value> S076<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S077<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S077<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S077 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S077"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S077"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S077\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S077<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S077 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S077"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S077"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S077\b.*\}
//@header impl<A: Value, B: Value, C: Value> S077<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S078<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S078<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S078 { 0: b0, 1: b1, 2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S078"@)), None, None)]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + flat_tuple(b2.evs(), 2)) + seq![Ev::TupleEnd(None, Some(ident_v("S078"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S078\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S078<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S078 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S078"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = flat_tuple(b2.evs(), 2); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TupleEnd(None, Some(ident_v("S078"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S078\b.*\}
//@header impl<A: Value, B: Value, C: Value> S078<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S079<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S079<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S079 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S079"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S079"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S079\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S079<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S079 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S079"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(Some(TAG_B), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleValueEnd(Some(TAG_B), offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("S079"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S079\b.*\}
//@header impl<A: Value, B: Value, C: Value> S079<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types5 {
use super::*;
pub struct S080<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S080<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S080 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S080"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, given_v(0))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, given_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S080"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S080\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S080<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S080 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S080"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(0)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(ident_v("S080"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S080\b.*\}
//@header impl<A: Value, B: Value, C: Value> S080<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S081<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S081<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S081 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S081"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S081"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S081\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S081<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S081 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S081"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S081"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S081\b.*\}
//@header impl<A: Value, B: Value, C: Value> S081<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S082<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S082<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S082 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S082"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S082"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S082\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S082<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S082 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S082"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S082"@)), Some(given_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S082\b.*\}
//@header impl<A: Value, B: Value, C: Value> S082<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S083<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S083<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S083 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S083"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S083"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S083\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S083<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S083 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S083"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S083"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S083\b.*\}
//@header impl<A: Value, B: Value, C: Value> S083<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S084<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S084<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S084 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S084"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S084"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S084\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S084<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S084 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S084"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S084"@)), Some(given_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S084\b.*\}
//@header impl<A: Value, B: Value, C: Value> S084<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S085<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S085<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S085 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S085"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S085"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S085\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S085<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S085 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S085"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::SeqValueEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqEnd; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedEnd(None, Some(ident_v("S085"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S085\b.*\}
//@header impl<A: Value, B: Value, C: Value> S085<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S086<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S086<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S086 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S086"@)), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S086"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S086\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S086<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S086 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S086"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(ident_v("S086"@)), Some(given_v(0))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S086\b.*\}
//@header impl<A: Value, B: Value, C: Value> S086<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S087<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S087<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S087 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S087"@)), None)]) + seq![Ev::SeqBegin(None)]) + flat_seq(b0.evs())) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S087"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S087\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S087<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S087 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S087"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_seq(b0.evs()); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueBegin; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::SeqValueEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("S087"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S087\b.*\}
//@header impl<A: Value, B: Value, C: Value> S087<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S088<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S088<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S088 { 0: b0, 1: b1, 2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S088"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S088"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S088\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S088<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S088 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S088"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueBegin; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqValueBegin; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::SeqValueEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::SeqEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TaggedEnd(None, Some(ident_v("S088"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S088\b.*\}
//@header impl<A: Value, B: Value, C: Value> S088<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S089<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S089<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S089 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S089"@)), Some(given_v(1)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S089"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S089\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S089<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S089 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S089"@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(ident_v("S089"@)), Some(given_v(1))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S089\b.*\}
//@header impl<A: Value, B: Value, C: Value> S089<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S090<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S090<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S090 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S090"@)), None)]) + seq![Ev::SeqBegin(None)]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + flat_seq(b1.evs())) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S090"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S090\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S090<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S090 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S090"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = flat_seq(b1.evs()); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::SeqValueBegin; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::SeqValueEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("S090"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S090\b.*\}
//@header impl<A: Value, B: Value, C: Value> S090<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S091<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S091<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S091 { 0: b0, 1: b1, 2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S091"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S091"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S091\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S091<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S091 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S091"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqValueBegin; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::SeqValueEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::SeqEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TaggedEnd(None, Some(ident_v("S091"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S091\b.*\}
//@header impl<A: Value, B: Value, C: Value> S091<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S092<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S092<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S092 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S092"@)), Some(given_v(2)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S092"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S092\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S092<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S092 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S092"@)), Some(given_v(2))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(ident_v("S092"@)), Some(given_v(2))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S092\b.*\}
//@header impl<A: Value, B: Value, C: Value> S092<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S093<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S093<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S093 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S093"@)), None)]) + seq![Ev::SeqBegin(None)]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + flat_seq(b2.evs())) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S093"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S093\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S093<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S093 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S093"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = flat_seq(b2.evs()); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("S093"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S093\b.*\}
//@header impl<A: Value, B: Value, C: Value> S093<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S094<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S094<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S094 { 0: b0, 1: b1, 2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S094"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S094"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S094\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S094<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S094 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S094"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b2.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::SeqValueEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::SeqEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TaggedEnd(None, Some(ident_v("S094"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S094\b.*\}
//@header impl<A: Value, B: Value, C: Value> S094<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S095<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S095<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S095 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S095"@)), None)]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S095"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S095\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S095<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S095 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S095"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::SeqValueEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqEnd; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S095"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S095\b.*\}
//@header impl<A: Value, B: Value, C: Value> S095<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
}
pub mod types6 {
use super::*;
pub struct S096<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S096<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S096 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S096"@)), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S096"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S096\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S096<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S096 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S096"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S096"@)), Some(given_v(0))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S096\b.*\}
//@header impl<A: Value, B: Value, C: Value> S096<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S097<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S097<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S097 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S097"@)), Some(given_v(1)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S097"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S097\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S097<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S097 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S097"@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S097"@)), Some(given_v(1))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S097\b.*\}
//@header impl<A: Value, B: Value, C: Value> S097<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S098<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S098<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S098 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S098"@)), Some(given_v(2)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S098"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S098\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S098<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S098 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S098"@)), Some(given_v(2))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S098"@)), Some(given_v(2))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S098\b.*\}
//@header impl<A: Value, B: Value, C: Value> S098<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S099 {  }
impl Value for S099 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S099 {  } => ((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S099"@)), None, Some(0usize))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S099"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S099\b.*\}
//@header impl ValueStream for S099
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S099 {  } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S099"@)), None, Some(0usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleEnd(None, Some(ident_v("S099"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S099\b.*\}
//@header impl S099
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S100();
impl Value for S100 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S100 {  } => ((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S100"@)), None, Some(0usize))]) + seq![Ev::TupleEnd(None, Some(ident_v("S100"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S100\b.*\}
//@header impl ValueStream for S100
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S100 {  } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S100"@)), None, Some(0usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleEnd(None, Some(ident_v("S100"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S100\b.*\}
//@header impl S100
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S101 {  }
impl Value for S101 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S101 {  } => ((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(text_v("none"@)), Some(given_v(2)), Some(0usize))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(text_v("none"@)), Some(given_v(2)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S101\b.*\}
//@header impl ValueStream for S101
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S101 {  } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_B), Some(text_v("none"@)), Some(given_v(2)), Some(0usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleEnd(Some(TAG_B), Some(text_v("none"@)), Some(given_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S101\b.*\}
//@header impl S101
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S102<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S102<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S102 { f0: b0, f1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S102"@)), None, None)]) + seq![Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@))]) + flat_record(b1.evs(), 0)) + seq![Ev::RecordEnd(None, Some(ident_v("S102"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S102\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S102<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S102 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S102"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = flat_record(b1.evs(), 0); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordEnd(None, Some(ident_v("S102"@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S102\b.*\}
//@header impl<A: Value, B: Value> S102<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S103<A, B, C, D, E> { pub f0: A, pub f1: B, pub f2: C, pub f3: D, pub f4: E }
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for S103<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S103 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S103"@)), Some(given_v(1)), None)]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + flat_record(b2.evs(), 0)) + flat_record(b4.evs(), flat_next(b2.evs(), 0) + 0)) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S103"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S103\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for S103<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S103 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S103"@)), Some(given_v(1)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = flat_record(b2.evs(), 0); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = flat_record(b4.evs(), flat_next(b2.evs(), 0) + 0); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S103"@)), Some(given_v(1))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S103\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> S103<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S104<A, B, C, D> { pub f0: A, pub f1: B, pub f2: C, pub f3: D }
impl<A: Value, B: Value, C: Value, D: Value> Value for S104<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S104 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S104"@)), None, Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S104"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S104\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for S104<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S104 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S104"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordEnd(None, Some(ident_v("S104"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S104\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> S104<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S105<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S105<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S105 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S105"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S105"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S105\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S105<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S105 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S105"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordEnd(None, Some(ident_v("S105"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S105\b.*\}
//@header impl<A: Value, B: Value, C: Value> S105<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S106<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S106<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S106 { f0: b0, f1: b1 } => (((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None, Some(1usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S106\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S106<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S106 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None, Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S106\b.*\}
//@header impl<A: Value, B: Value> S106<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S107<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S107<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S107 { 0: b0, 1: b1 } => ((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S107"@)), None, None)]) + seq![Ev::RecordValueBegin(None, label_c_v())]) + b0.evs()) + seq![Ev::RecordValueEnd(None, label_c_v())]) + flat_record(b1.evs(), 0)) + seq![Ev::RecordEnd(None, Some(ident_v("S107"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S107\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S107<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S107 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S107"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, label_c_v()); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, label_c_v()); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = flat_record(b1.evs(), 0); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordEnd(None, Some(ident_v("S107"@)), None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S107\b.*\}
//@header impl<A: Value, B: Value> S107<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S108<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S108<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S108 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S108"@)), None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S108"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S108\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S108<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S108 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S108"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleEnd(None, Some(ident_v("S108"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S108\b.*\}
//@header impl<A: Value, B: Value> S108<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S109<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S109<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S109 { f0: b0, f1: b1, f2: b2 } => (((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(2147483647)), None)]) + flat_record(b0.evs(), 0)) + flat_record(b1.evs(), flat_next(b0.evs(), 0) + 0)) + flat_record(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0)) + seq![Ev::RecordEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(2147483647)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S109\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S109<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S109 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(2147483647)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_record(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = flat_record(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(2147483647))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S109\b.*\}
//@header impl<A: Value, B: Value, C: Value> S109<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S110<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S110<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S110 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(label_c_v()), None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), text_v("first"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), text_v("first"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S110\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S110<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S110 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_B), Some(label_c_v()), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_B), text_v("first"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueEnd(Some(TAG_B), text_v("first"@), offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleEnd(Some(TAG_B), Some(label_c_v()), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S110\b.*\}
//@header impl<A: Value, B: Value, C: Value> S110<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S111<A, B, C, D> { pub f0: A, pub f1: B, pub f2: C, pub f3: D }
impl<A: Value, B: Value, C: Value, D: Value> Value for S111<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S111 { f0: b0, f1: b1, f2: b2, f3: b3 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_B), Some(ident_v("S111"@)), None, Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b3.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(Some(TAG_B), Some(ident_v("S111"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S111\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for S111<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S111 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_B), Some(ident_v("S111"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueBegin(Some(TAG_A), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleValueEnd(Some(TAG_A), offset_v(1)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = b3.evs(); d_val(o, x14, l, e14);
                let x15 = x14 + e14;
                let e15 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::TupleEnd(Some(TAG_B), Some(ident_v("S111"@)), None); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S111\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> S111<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
}
pub mod types7 {
use super::*;
pub struct S112<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S112<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S112 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(label_c_v()), Some(given_v(7)), None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::TupleEnd(None, Some(label_c_v()), Some(given_v(7)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S112\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S112<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S112 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(label_c_v()), Some(given_v(7)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(label_c_v()), Some(given_v(7))); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S112\b.*\}
//@header impl<A: Value, B: Value, C: Value> S112<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S113<A, B, C, D, E> { pub f0: A, pub f1: B, pub f2: C, pub f3: D, pub f4: E }
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for S113<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S113 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(label_c_v()), Some(given_v(0)), None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b3.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + b4.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::TupleEnd(None, Some(label_c_v()), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S113\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for S113<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S113 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(label_c_v()), Some(given_v(0)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b3.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b4.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleEnd(None, Some(label_c_v()), Some(given_v(0))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S113\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> S113<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S114<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S114<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S114 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S114"@)), Some(given_v(7)), Some(2usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S114"@)), Some(given_v(7)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S114\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S114<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S114 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S114"@)), Some(given_v(7)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(Some(TAG_B), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(Some(TAG_B), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(Some(TAG_B), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(Some(TAG_B), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S114"@)), Some(given_v(7))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S114\b.*\}
//@header impl<A: Value, B: Value, C: Value> S114<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S115<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S115<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S115 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S115"@)), Some(given_v(-300)), Some(2usize))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, label_c_v())]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(None, label_c_v())]) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S115"@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S115\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S115<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S115 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S115"@)), Some(given_v(-300)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, label_c_v()); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordValueEnd(None, label_c_v()); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S115"@)), Some(given_v(-300))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S115\b.*\}
//@header impl<A: Value, B: Value, C: Value> S115<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S116<A, B, C, D, E> { pub f0: A, pub f1: B, pub f2: C, pub f3: D, pub f4: E }
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for S116<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S116 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => ((((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(text_v("renamed"@)), None, Some(4usize))]) + seq![Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, text_v("second label"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, text_v("second label"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f3"@))]) + b3.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f3"@))]) + seq![Ev::RecordValueBegin(None, label_c_v())]) + b4.evs()) + seq![Ev::RecordValueEnd(None, label_c_v())]) + seq![Ev::RecordEnd(None, Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S116\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for S116<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S116 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(text_v("renamed"@)), None, Some(4usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, text_v("second label"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, text_v("second label"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, ident_v("f3"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b3.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, ident_v("f3"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordValueBegin(None, label_c_v()); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b4.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordValueEnd(None, label_c_v()); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S116\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> S116<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S117<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S117<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S117 { 0: b0, 1: b1, 2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S117"@)), Some(given_v(-300)), Some(3usize))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("S117"@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S117\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S117<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S117 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S117"@)), Some(given_v(-300)), Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(Some(TAG_A), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueEnd(Some(TAG_A), offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TupleEnd(None, Some(ident_v("S117"@)), Some(given_v(-300))); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S117\b.*\}
//@header impl<A: Value, B: Value, C: Value> S117<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S118<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S118<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S118 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(text_v("renamed"@)), None, Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S118\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S118<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S118 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(text_v("renamed"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S118\b.*\}
//@header impl<A: Value, B: Value, C: Value> S118<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S119<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S119<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S119 { 0: b0, 1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S119"@)), Some(given_v(1)), None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S119"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S119\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S119<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S119 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S119"@)), Some(given_v(1)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TupleValueBegin(Some(TAG_B), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(Some(TAG_B), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S119"@)), Some(given_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S119\b.*\}
//@header impl<A: Value, B: Value> S119<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S120<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S120<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S120 { 0: b0, 1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S120"@)), Some(given_v(-300)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S120"@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S120\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S120<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S120 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S120"@)), Some(given_v(-300)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S120"@)), Some(given_v(-300))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S120\b.*\}
//@header impl<A: Value, B: Value> S120<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S121<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S121<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S121 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(given_v(-300)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S121\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S121<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S121 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(given_v(-300))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(given_v(-300))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S121\b.*\}
//@header impl<A: Value, B: Value> S121<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S122<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S122<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S122 { f0: b0, f1: b1 } => ((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S122"@)), None)]) + seq![Ev::SeqBegin(None)]) + flat_seq(b0.evs())) + flat_seq(b1.evs())) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S122"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S122\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S122<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S122 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S122"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_seq(b0.evs()); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = flat_seq(b1.evs()); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedEnd(None, Some(ident_v("S122"@)), None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S122\b.*\}
//@header impl<A: Value, B: Value> S122<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S123<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S123<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S123 { 0: b0, 1: b1 } => ((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_B), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S123\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S123<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S123 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueBegin; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b1.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqValueEnd; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::SeqEnd; d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::TaggedEnd(Some(TAG_B), Some(text_v("with \"quotes\""@)), None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S123\b.*\}
//@header impl<A: Value, B: Value> S123<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S124<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S124<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S124 { f0: b0, f1: b1 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S124\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S124<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S124 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueBegin; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedEnd(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S124\b.*\}
//@header impl<A: Value, B: Value> S124<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S125<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S125<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S125 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S125"@)), None, Some(2usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S125"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S125\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S125<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S125 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S125"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(Some(TAG_B), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(Some(TAG_B), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b2.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("S125"@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S125\b.*\}
//@header impl<A: Value, B: Value, C: Value> S125<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S126<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S126<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S126 { f0: b0, f1: b1, f2: b2 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S126"@)), Some(given_v(7)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f1"@), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S126"@)), Some(given_v(7)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S126\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S126<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S126 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S126"@)), Some(given_v(7)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f1"@), offset_v(1)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleEnd(None, Some(ident_v("S126"@)), Some(given_v(7))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S126\b.*\}
//@header impl<A: Value, B: Value, C: Value> S126<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S127<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S127<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S127 { 0: b0, 1: b1, 2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S127"@)), Some(given_v(7)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("S127"@)), Some(given_v(7)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S127\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S127<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S127 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S127"@)), Some(given_v(7)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(Some(TAG_A), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleValueEnd(Some(TAG_A), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TupleEnd(None, Some(ident_v("S127"@)), Some(given_v(7))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S127\b.*\}
//@header impl<A: Value, B: Value, C: Value> S127<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types8 {
use super::*;
pub struct S128<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S128<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S128 { f0: b0, f1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S128"@)), Some(given_v(2147483647)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), given_v(70))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), given_v(70))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), given_v(-4))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), given_v(-4))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S128"@)), Some(given_v(2147483647)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S128\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S128<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S128 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S128"@)), Some(given_v(2147483647)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), given_v(70)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), given_v(70)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, text_v("first"@), given_v(-4)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, text_v("first"@), given_v(-4)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, Some(ident_v("S128"@)), Some(given_v(2147483647))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S128\b.*\}
//@header impl<A: Value, B: Value> S128<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S129<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S129<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S129 { 0: b0, 1: b1, 2: b2 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S129"@)), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S129"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S129\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S129<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S129 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("S129"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqValueBegin; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::SeqValueEnd; d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::SeqEnd; d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("S129"@)), Some(given_v(0))); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S129\b.*\}
//@header impl<A: Value, B: Value, C: Value> S129<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S130<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S130<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S130 { 0: b0, 1: b1 } => (((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(label_c_v()), None, Some(1usize))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(0))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S130\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S130<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S130 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(label_c_v()), None, Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(Some(TAG_A), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(Some(TAG_A), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S130\b.*\}
//@header impl<A: Value, B: Value> S130<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S131<A, B, C, D> { pub f0: A, pub f1: B, pub f2: C, pub f3: D }
impl<A: Value, B: Value, C: Value, D: Value> Value for S131<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S131 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), None, None)]) + flat_record_tuple(b0.evs(), 0)) + flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0)) + flat_record_tuple(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0)) + flat_record_tuple(b3.evs(), flat_next(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0) + 0)) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S131\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for S131<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S131 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(label_c_v()), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = flat_record_tuple(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = flat_record_tuple(b3.evs(), flat_next(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0) + 0); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordTupleEnd(None, Some(label_c_v()), None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S131\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> S131<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S132<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S132<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S132 { 0: b0, 1: b1, 2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S132"@)), None, Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, given_v(40))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(40))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S132"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S132\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S132<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S132 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S132"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, given_v(40)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, given_v(40)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S132"@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S132\b.*\}
//@header impl<A: Value, B: Value, C: Value> S132<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S133<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S133<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S133 { 0: b0, 1: b1 } => (((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S133"@)), None, None)]) + flat_tuple(b1.evs(), 0)) + seq![Ev::TupleEnd(None, Some(ident_v("S133"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S133\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S133<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S133 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S133"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b1.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TupleEnd(None, Some(ident_v("S133"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S133\b.*\}
//@header impl<A: Value, B: Value> S133<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S134<A> { pub f0: A }
impl<A: Value> Value for S134<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S134 { f0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S134"@)), None, Some(1usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S134"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S134\b.*\}
//@header impl<A: Value> ValueStream for S134<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S134 { f0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S134"@)), None, Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleEnd(None, Some(ident_v("S134"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S134\b.*\}
//@header impl<A: Value> S134<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S135<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S135<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S135 { f0: b0, f1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S135"@)), None, Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S135"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S135\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S135<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S135 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S135"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S135"@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S135\b.*\}
//@header impl<A: Value, B: Value> S135<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S136<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S136<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S136 { f0: b0, f1: b1, f2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S136"@)), None, None)]) + flat_record(b0.evs(), 0)) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(Some(TAG_A), ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(Some(TAG_A), ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S136"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S136\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S136<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S136 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S136"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(Some(TAG_A), ident_v("f2"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(Some(TAG_A), ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordEnd(None, Some(ident_v("S136"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S136\b.*\}
//@header impl<A: Value, B: Value, C: Value> S136<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S137<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S137<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S137 { f0: b0, f1: b1 } => (((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S137"@)), None, Some(1usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(0))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S137"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S137\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S137<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S137 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S137"@)), None, Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S137"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S137\b.*\}
//@header impl<A: Value, B: Value> S137<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S138<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S138<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S138 { 0: b0, 1: b1 } => (((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S138"@)), None)]) + seq![Ev::SeqBegin(Some(1usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("S138"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S138\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S138<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S138 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S138"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedEnd(None, Some(ident_v("S138"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S138\b.*\}
//@header impl<A: Value, B: Value> S138<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S139<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S139<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S139 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S139"@)), None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), label_c_v(), given_v(-4))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), label_c_v(), given_v(-4))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(-3))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(-3))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S139"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S139\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S139<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S139 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(ident_v("S139"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_A), label_c_v(), given_v(-4)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_A), label_c_v(), given_v(-4)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(-3)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(-3)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleEnd(Some(TAG_A), Some(ident_v("S139"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S139\b.*\}
//@header impl<A: Value, B: Value, C: Value> S139<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S140<A, B, C, D> { pub f0: A, pub f1: B, pub f2: C, pub f3: D }
impl<A: Value, B: Value, C: Value, D: Value> Value for S140<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S140 { f0: b0, f1: b1, f2: b2, f3: b3 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S140"@)), None, Some(3usize))]) + seq![Ev::RecordValueBegin(Some(TAG_A), text_v("second label"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(Some(TAG_A), text_v("second label"@))]) + seq![Ev::RecordValueBegin(Some(TAG_A), text_v("second label"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_A), text_v("second label"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S140"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S140\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for S140<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S140 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S140"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_A), text_v("second label"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(Some(TAG_A), text_v("second label"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(Some(TAG_A), text_v("second label"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordValueEnd(Some(TAG_A), text_v("second label"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::RecordEnd(None, Some(ident_v("S140"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S140\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> S140<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S141<A, B, C, D, E> { pub f0: A, pub f1: B, pub f2: C, pub f3: D, pub f4: E }
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for S141<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S141 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => ((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("S141"@)), None, None)]) + flat_tuple(b0.evs(), 0)) + flat_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0)) + flat_tuple(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0)) + flat_tuple(b3.evs(), flat_next(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0) + 0)) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("S141"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S141\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for S141<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S141 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("S141"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = flat_tuple(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = flat_tuple(b3.evs(), flat_next(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0) + 0); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("S141"@)), None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S141\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> S141<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S142<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S142<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S142 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S142"@)), Some(given_v(-300)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, text_v("first"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, text_v("first"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S142"@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S142\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S142<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S142 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S142"@)), Some(given_v(-300)), Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(None, text_v("first"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(None, text_v("first"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordEnd(None, Some(ident_v("S142"@)), Some(given_v(-300))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S142\b.*\}
//@header impl<A: Value, B: Value> S142<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S143<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S143<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S143 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S143"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), text_v("first"@), given_v(70))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), text_v("first"@), given_v(70))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), given_v(71))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), given_v(71))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), given_v(70))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), given_v(70))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S143"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S143\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S143<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S143 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S143"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_A), text_v("first"@), given_v(70)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_A), text_v("first"@), given_v(70)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, label_c_v(), given_v(71)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, label_c_v(), given_v(71)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, label_c_v(), given_v(70)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, label_c_v(), given_v(70)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S143"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S143\b.*\}
//@header impl<A: Value, B: Value, C: Value> S143<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types9 {
use super::*;
pub struct S144<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S144<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S144 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(text_v("with \"quotes\""@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), label_c_v(), offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), label_c_v(), offset_v(2))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S144\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S144<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S144 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_B), Some(text_v("with \"quotes\""@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleValueBegin(Some(TAG_A), label_c_v(), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordTupleValueEnd(Some(TAG_A), label_c_v(), offset_v(2)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::RecordTupleEnd(Some(TAG_B), Some(text_v("with \"quotes\""@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S144\b.*\}
//@header impl<A: Value, B: Value, C: Value> S144<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S145<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S145<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S145 { f0: b0, f1: b1, f2: b2 } => ((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(label_c_v()), None, None)]) + flat_record_tuple(b0.evs(), 0)) + flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0)) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S145\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S145<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S145 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_B), Some(label_c_v()), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleEnd(Some(TAG_B), Some(label_c_v()), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S145\b.*\}
//@header impl<A: Value, B: Value, C: Value> S145<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S146<A> { pub f0: A }
impl<A: Value> Value for S146<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S146 { f0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("S146"@)), None, Some(1usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("S146"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S146\b.*\}
//@header impl<A: Value> ValueStream for S146<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S146 { f0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("S146"@)), None, Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("S146"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S146\b.*\}
//@header impl<A: Value> S146<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S147<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S147<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S147 { f0: b0, f1: b1 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S147"@)), None)]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S147"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S147\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S147<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S147 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S147"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S147"@)), None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S147\b.*\}
//@header impl<A: Value, B: Value> S147<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S148<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S148<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S148 { f0: b0, f1: b1, f2: b2 } => ((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(label_c_v()), Some(given_v(-1)), None)]) + flat_record_tuple(b0.evs(), 0)) + flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0)) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(label_c_v()), Some(given_v(-1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S148\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S148<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S148 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(label_c_v()), Some(given_v(-1)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleEnd(Some(TAG_A), Some(label_c_v()), Some(given_v(-1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S148\b.*\}
//@header impl<A: Value, B: Value, C: Value> S148<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S149<A, B>(pub A, pub B);
impl<A: Value, B: Value> Value for S149<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S149 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(label_c_v()), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_B), Some(label_c_v()), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S149\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S149<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S149 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(label_c_v()), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueEnd; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::SeqValueBegin; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedEnd(Some(TAG_B), Some(label_c_v()), Some(given_v(0))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S149\b.*\}
//@header impl<A: Value, B: Value> S149<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S150<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S150<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S150 { f0: b0, f1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(text_v("with \"quotes\""@)), None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S150\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S150<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S150 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(text_v("with \"quotes\""@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S150\b.*\}
//@header impl<A: Value, B: Value> S150<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S151<A, B, C, D> { pub f0: A, pub f1: B, pub f2: C, pub f3: D }
impl<A: Value, B: Value, C: Value, D: Value> Value for S151<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S151 { f0: b0, f1: b1, f2: b2, f3: b3 } => (((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S151"@)), None, None)]) + flat_record(b0.evs(), 0)) + flat_record(b1.evs(), flat_next(b0.evs(), 0) + 0)) + flat_record(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0)) + seq![Ev::RecordEnd(None, Some(ident_v("S151"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S151\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for S151<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S151 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S151"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_record(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = flat_record(b2.evs(), flat_next(b1.evs(), flat_next(b0.evs(), 0) + 0) + 0); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordEnd(None, Some(ident_v("S151"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S151\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> S151<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S152<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S152<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S152 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("S152"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), label_c_v(), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), label_c_v(), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), given_v(70))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), given_v(70))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(70))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(70))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("S152"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S152\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S152<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S152 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("S152"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_A), label_c_v(), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_A), label_c_v(), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, label_c_v(), given_v(70)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, label_c_v(), given_v(70)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(70)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(70)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("S152"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S152\b.*\}
//@header impl<A: Value, B: Value, C: Value> S152<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S153<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S153<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S153 { 0: b0, 1: b1, 2: b2 } => ((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S153"@)), None, None)]) + flat_tuple(b0.evs(), 0)) + flat_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0)) + seq![Ev::TupleEnd(None, Some(ident_v("S153"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S153\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S153<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S153 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S153"@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = flat_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleEnd(None, Some(ident_v("S153"@)), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S153\b.*\}
//@header impl<A: Value, B: Value, C: Value> S153<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S154<A, B, C, D> { pub f0: A, pub f1: B, pub f2: C, pub f3: D }
impl<A: Value, B: Value, C: Value, D: Value> Value for S154<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S154 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(Some(TAG_A), Some(ident_v("S154"@)), Some(given_v(2147483647)), None)]) + seq![Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@))]) + flat_record(b2.evs(), 0)) + seq![Ev::RecordEnd(Some(TAG_A), Some(ident_v("S154"@)), Some(given_v(2147483647)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S154\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for S154<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S154 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(Some(TAG_A), Some(ident_v("S154"@)), Some(given_v(2147483647)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = flat_record(b2.evs(), 0); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordEnd(Some(TAG_A), Some(ident_v("S154"@)), Some(given_v(2147483647))); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S154\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> S154<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S155<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S155<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S155 { f0: b0, f1: b1, f2: b2 } => (((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None, None)]) + flat_record_tuple(b0.evs(), 0)) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + flat_record_tuple(b2.evs(), flat_next(b0.evs(), 0) + 1)) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S155\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S155<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S155 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record_tuple(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = flat_record_tuple(b2.evs(), flat_next(b0.evs(), 0) + 1); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S155\b.*\}
//@header impl<A: Value, B: Value, C: Value> S155<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S156<A, B, C>(pub A, pub B, pub C);
impl<A: Value, B: Value, C: Value> Value for S156<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S156 { 0: b0, 1: b1, 2: b2 } => (((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S156"@)), None, Some(1usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S156"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S156\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S156<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S156 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S156"@)), None, Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleEnd(None, Some(ident_v("S156"@)), None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S156\b.*\}
//@header impl<A: Value, B: Value, C: Value> S156<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S157<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S157<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S157 { f0: b0, f1: b1, f2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(ident_v("S157"@)), None, Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("S157"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S157\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S157<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S157 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(ident_v("S157"@)), None, Some(3usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("S157"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S157\b.*\}
//@header impl<A: Value, B: Value, C: Value> S157<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S158<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S158<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S158 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(-300)))]) + seq![Ev::SeqBegin(Some(3usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S158\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S158<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S158 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(-300))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::SeqBegin(Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqValueBegin; d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueBegin; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqValueBegin; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::SeqValueEnd; d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::SeqEnd; d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::TaggedEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(-300))); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S158\b.*\}
//@header impl<A: Value, B: Value, C: Value> S158<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S159<A> { pub f0: A }
impl<A: Value> Value for S159<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S159 { f0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, Some(ident_v("S159"@)), Some(given_v(1)), Some(1usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("S159"@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S159\b.*\}
//@header impl<A: Value> ValueStream for S159<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S159 { f0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, Some(ident_v("S159"@)), Some(given_v(1)), Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleEnd(None, Some(ident_v("S159"@)), Some(given_v(1))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S159\b.*\}
//@header impl<A: Value> S159<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types10 {
use super::*;
pub struct S160<A, B> { pub f0: A, pub f1: B }
impl<A: Value, B: Value> Value for S160<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S160 { f0: b0, f1: b1 } => (((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(-1)), Some(1usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0))]) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(-1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S160\b.*\}
//@header impl<A: Value, B: Value> ValueStream for S160<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S160 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(-1)), Some(1usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b1.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(-1))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S160\b.*\}
//@header impl<A: Value, B: Value> S160<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S161<A, B, C> { pub f0: A, pub f1: B, pub f2: C }
impl<A: Value, B: Value, C: Value> Value for S161<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S161 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, Some(ident_v("S161"@)), None, Some(2usize))]) + seq![Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, text_v("second label"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, text_v("second label"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("S161"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S161\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for S161<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S161 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, Some(ident_v("S161"@)), None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordValueBegin(None, text_v("second label"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::RecordValueEnd(None, text_v("second label"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordEnd(None, Some(ident_v("S161"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S161\b.*\}
//@header impl<A: Value, B: Value, C: Value> S161<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S162<A>(pub A);
impl<A: Value> Value for S162<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S162 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(text_v("with \"quotes\""@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S162\b.*\}
//@header impl<A: Value> ValueStream for S162<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S162 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_B), Some(text_v("with \"quotes\""@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S162\b.*\}
//@header impl<A: Value> S162<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S163;
impl Value for S163 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S163 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(label_c_v()), Some(given_v(2147483647)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S163\b.*\}
//@header impl ValueStream for S163
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S163 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(label_c_v()), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S163\b.*\}
//@header impl S163
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S164<A>(pub A);
impl<A: Value> Value for S164<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S164 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S164"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S164"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S164\b.*\}
//@header impl<A: Value> ValueStream for S164<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S164 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S164"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S164"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S164\b.*\}
//@header impl<A: Value> S164<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S165;
impl Value for S165 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S165 => (Seq::<Ev>::empty() + seq![Ev::Tag(Some(TAG_A), Some(ident_v("S165"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S165\b.*\}
//@header impl ValueStream for S165
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S165 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(Some(TAG_A), Some(ident_v("S165"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S165\b.*\}
//@header impl S165
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S166<A>(pub A);
impl<A: Value> Value for S166<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S166 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S166"@)), Some(given_v(-300)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S166"@)), Some(given_v(-300)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S166\b.*\}
//@header impl<A: Value> ValueStream for S166<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S166 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S166"@)), Some(given_v(-300))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S166"@)), Some(given_v(-300))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S166\b.*\}
//@header impl<A: Value> S166<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S167;
impl Value for S167 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S167 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(ident_v("S167"@)), Some(given_v(40)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S167\b.*\}
//@header impl ValueStream for S167
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S167 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(ident_v("S167"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S167\b.*\}
//@header impl S167
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S168<A>(pub A);
impl<A: Value> Value for S168<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S168 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S168"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("S168"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S168\b.*\}
//@header impl<A: Value> ValueStream for S168<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S168 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S168"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(None, Some(ident_v("S168"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S168\b.*\}
//@header impl<A: Value> S168<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S169;
impl Value for S169 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S169 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S169\b.*\}
//@header impl ValueStream for S169
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S169 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S169\b.*\}
//@header impl S169
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S170<A>(pub A);
impl<A: Value> Value for S170<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S170 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(text_v("renamed"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S170\b.*\}
//@header impl<A: Value> ValueStream for S170<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S170 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S170\b.*\}
//@header impl<A: Value> S170<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S171;
impl Value for S171 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S171 => (Seq::<Ev>::empty() + seq![Ev::Tag(Some(TAG_B), Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S171\b.*\}
//@header impl ValueStream for S171
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S171 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(Some(TAG_B), Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S171\b.*\}
//@header impl S171
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S172<A>(pub A);
impl<A: Value> Value for S172<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S172 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S172\b.*\}
//@header impl<A: Value> ValueStream for S172<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S172 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S172\b.*\}
//@header impl<A: Value> S172<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S173;
impl Value for S173 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S173 => (Seq::<Ev>::empty() + seq![Ev::Tag(Some(TAG_A), Some(text_v("renamed"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S173\b.*\}
//@header impl ValueStream for S173
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S173 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(Some(TAG_A), Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S173\b.*\}
//@header impl S173
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S174<A>(pub A);
impl<A: Value> Value for S174<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S174 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), Some(given_v(7)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), Some(given_v(7)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S174\b.*\}
//@header impl<A: Value> ValueStream for S174<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S174 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), Some(given_v(7))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), Some(given_v(7))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S174\b.*\}
//@header impl<A: Value> S174<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub struct S175;
impl Value for S175 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S175 => (Seq::<Ev>::empty() + seq![Ev::Tag(Some(TAG_B), Some(ident_v("S175"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S175\b.*\}
//@header impl ValueStream for S175
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S175 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(Some(TAG_B), Some(ident_v("S175"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S175\b.*\}
//@header impl S175
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
}
pub mod types11 {
use super::*;
pub struct S176<A>(pub A);
impl<A: Value> Value for S176<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S176 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S176"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S176"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S176\b.*\}
//@header impl<A: Value> ValueStream for S176<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S176 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(Some(TAG_B), Some(ident_v("S176"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(Some(TAG_B), Some(ident_v("S176"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S176\b.*\}
//@header impl<A: Value> S176<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub struct S177;
impl Value for S177 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S177 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S177\b.*\}
//@header impl ValueStream for S177
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S177 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S177\b.*\}
//@header impl S177
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S178<A>(pub A);
impl<A: Value> Value for S178<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S178 { 0: b0 } => (((Seq::<Ev>::empty() + seq![Ev::TaggedBegin(None, Some(ident_v("S178"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("S178"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S178\b.*\}
//@header impl<A: Value> ValueStream for S178<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S178 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TaggedBegin(None, Some(ident_v("S178"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = b0.evs(); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::TaggedEnd(None, Some(ident_v("S178"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S178\b.*\}
//@header impl<A: Value> S178<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S179;
impl Value for S179 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S179 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(ident_v("S179"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S179\b.*\}
//@header impl ValueStream for S179
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S179 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(ident_v("S179"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for S179\b.*\}
//@header impl S179
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub struct S180<A>(pub A);
impl<A: Value> Value for S180<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            S180 { 0: b0 } => (Seq::<Ev>::empty() + b0.evs()),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for S180\b.*\}
//@header impl<A: Value> ValueStream for S180<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            S180 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = b0.evs(); d_val(o, x1, l, e1);
                let x2 = x1 + e1;
            },
        }
    }
//@end
pub enum E000<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E000<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E000::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E000"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E000"@)), None)]),
            E000::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E000"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E000"@)), None)]),
            E000::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E000"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E000"@)), None)]),
            E000::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E000"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(offset_v(3)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(offset_v(3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E000"@)), None)]),
            E000::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E000"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V4"@)), Some(offset_v(4)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E000"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E000\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E000<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E000::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E000"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E000"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E000::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E000"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E000"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E000::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E000"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(offset_v(2))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E000"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E000::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E000"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(offset_v(3)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(offset_v(3))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E000"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E000::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E000"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V4"@)), Some(offset_v(4))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E000"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E000\b.*\}
//@header impl<A: Value, B: Value> E000<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E001<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E001<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E001::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E001"@)), None)]) + seq![Ev::Tag(None, None, Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E001"@)), None)]),
            E001::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E001"@)), None)]) + seq![Ev::TaggedBegin(None, None, Some(offset_v(1)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, None, Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E001"@)), None)]),
            E001::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E001"@)), None)]) + seq![Ev::TupleBegin(None, None, Some(offset_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, None, Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E001"@)), None)]),
            E001::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E001"@)), None)]) + seq![Ev::RecordTupleBegin(None, None, Some(offset_v(3)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, None, Some(offset_v(3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E001"@)), None)]),
            E001::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E001"@)), None)]) + seq![Ev::Tag(None, None, Some(offset_v(4)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E001"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E001\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E001<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E001::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E001"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E001"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E001::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E001"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, None, Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, None, Some(offset_v(1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E001"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E001::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E001"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, None, Some(offset_v(2)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, None, Some(offset_v(2))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E001"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E001::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E001"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, None, Some(offset_v(3)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, None, Some(offset_v(3))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E001"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E001::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E001"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, Some(offset_v(4))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E001"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E001\b.*\}
//@header impl<A: Value, B: Value> E001<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E002<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E002<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E002::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E002"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E002"@)), None)]),
            E002::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E002"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E002"@)), None)]),
            E002::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E002"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), None, Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E002"@)), None)]),
            E002::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E002"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E002"@)), None)]),
            E002::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E002"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V4"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E002"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E002\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E002<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E002::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E002"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E002"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E002::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E002"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E002"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E002::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E002"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), None, Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V2"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E002"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E002::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E002"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), None, Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E002"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E002::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E002"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V4"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E002"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E002\b.*\}
//@header impl<A: Value, B: Value> E002<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E003<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E003<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E003::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E003"@)), None)]) + seq![Ev::Tag(None, None, None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E003"@)), None)]),
            E003::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E003"@)), None)]) + seq![Ev::TaggedBegin(None, None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, None, None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E003"@)), None)]),
            E003::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E003"@)), None)]) + seq![Ev::TupleBegin(None, None, None, Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, None, None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E003"@)), None)]),
            E003::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E003"@)), None)]) + seq![Ev::RecordTupleBegin(None, None, None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, None, None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E003"@)), None)]),
            E003::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E003"@)), None)]) + seq![Ev::Tag(None, None, None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E003"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E003\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E003<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E003::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E003"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E003"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E003::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E003"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, None, None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E003"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E003::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E003"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, None, None, Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E003"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E003::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E003"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, None, None, Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E003"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E003::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E003"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E003"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E003\b.*\}
//@header impl<A: Value, B: Value> E003<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E004<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E004<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E004::V0 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(ident_v("V0"@)), None)]),
            E004::V1 { 0: b0 } => (Seq::<Ev>::empty() + b0.evs()),
            E004::V2 { 0: b0, 1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::TupleBegin(None, None, None, Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, None, None)]),
            E004::V3 { f0: b0, f1: b1 } => ((((((((Seq::<Ev>::empty() + seq![Ev::RecordTupleBegin(None, None, None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, None, None)]),
            E004::V4 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(ident_v("V4"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E004\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E004<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E004::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(ident_v("V0"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
            E004::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = b0.evs(); d_val(o, x1, l, e1);
                let x2 = x1 + e1;
            },
            E004::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::TupleBegin(None, None, None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
            E004::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordTupleBegin(None, None, None, Some(2usize)); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
            E004::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(ident_v("V4"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
pub enum E005<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E005<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E005::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E005"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), Some(given_v(5)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E005"@)), None)]),
            E005::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E005"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(6)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(6)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E005"@)), None)]),
            E005::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E005"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(7)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(7)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E005"@)), None)]),
            E005::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E005"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(-3)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(-3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E005"@)), None)]),
            E005::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E005"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(-2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E005"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E005\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E005<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E005::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E005"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), Some(given_v(5))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E005"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E005::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E005"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(6))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(6))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E005"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E005::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E005"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(7)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(7))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E005"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E005::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E005"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(-3)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(-3))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E005"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E005::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E005"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(-2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E005"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E005\b.*\}
//@header impl<A: Value, B: Value> E005<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E006<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E006<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E006::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E006"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E006"@)), None)]),
            E006::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E006"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(10)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(10)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E006"@)), None)]),
            E006::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E006"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(11)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(11)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E006"@)), None)]),
            E006::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E006"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(2)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E006"@)), None)]),
            E006::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E006"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E006"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E006\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E006<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E006::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E006"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E006"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E006::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E006"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(10))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(10))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E006"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E006::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E006"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(11)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(11))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E006"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E006::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E006"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(2)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(2))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E006"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E006::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E006"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(3))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E006"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E006\b.*\}
//@header impl<A: Value, B: Value> E006<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E007<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E007<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E007::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E007"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E007"@)), None)]),
            E007::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E007"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E007"@)), None)]),
            E007::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E007"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E007"@)), None)]),
            E007::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E007"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(7)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(7)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E007"@)), None)]),
            E007::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E007"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(9)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E007"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E007\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E007<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E007::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E007"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E007"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E007::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E007"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E007"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E007::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E007"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(offset_v(2))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E007"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E007::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E007"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(7)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(7))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E007"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E007::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E007"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(9))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E007"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E007\b.*\}
//@header impl<A: Value, B: Value> E007<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E008<A, B> {
    V0,
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B },
    V4,
}
impl<A: Value, B: Value> Value for E008<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E008::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E008"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), Some(given_v(-2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E008"@)), None)]),
            E008::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E008"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(-1)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(-1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E008"@)), None)]),
            E008::V2 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E008"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(0)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E008"@)), None)]),
            E008::V3 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E008"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(1)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E008"@)), None)]),
            E008::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E008"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E008"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E008\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E008<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E008::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E008"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), Some(given_v(-2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E008"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E008::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E008"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(-1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(-1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E008"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E008::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E008"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(0)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(0))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E008"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E008::V3 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E008"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V3"@)), Some(given_v(1)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(ident_v("V3"@)), Some(given_v(1))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E008"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E008::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E008"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V4"@)), Some(given_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E008"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E008\b.*\}
//@header impl<A: Value, B: Value> E008<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E010<A, B, C, D, E> {
    V0(A, B, C, D),
    V1 { f0: A, f1: B },
    V2,
    V3 { f0: A, f1: B, f2: C, f3: D, f4: E },
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E010<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E010::V0 { 0: b0, 1: b1, 2: b2, 3: b3 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40)))]) + seq![Ev::TupleBegin(None, Some(label_c_v()), Some(given_v(-7)), Some(3usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(label_c_v()), Some(given_v(-7)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40)))]),
            E010::V1 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40)))]) + seq![Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(given_v(5)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, given_v(3))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, given_v(3))]) + seq![Ev::TupleValueBegin(None, given_v(70))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(70))]) + seq![Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(given_v(5)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40)))]),
            E010::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40)))]) + seq![Ev::Tag(None, Some(ident_v("V2"@)), Some(given_v(-7)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40)))]),
            E010::V3 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40)))]) + seq![Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(given_v(0)), None)]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(1))]) + flat_tuple(b2.evs(), 2)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b2.evs(), 2) + 0))]) + b3.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b2.evs(), 2) + 0))]) + flat_tuple(b4.evs(), flat_next(b2.evs(), 2) + 1)) + seq![Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(given_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E010\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E010<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E010::V0 { 0: b0, 1: b1, 2: b2, 3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(label_c_v()), Some(given_v(-7)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(Some(TAG_B), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(Some(TAG_B), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(Some(TAG_A), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(Some(TAG_A), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleEnd(None, Some(label_c_v()), Some(given_v(-7))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
            E010::V1 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(given_v(5)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, given_v(3)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, given_v(3)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, given_v(70)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, given_v(70)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(given_v(5))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E010::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V2"@)), Some(given_v(-7))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E010::V3 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(given_v(0)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(Some(TAG_A), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(Some(TAG_A), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = flat_tuple(b2.evs(), 2); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TupleValueBegin(None, offset_v(flat_next(b2.evs(), 2) + 0)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b3.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TupleValueEnd(None, offset_v(flat_next(b2.evs(), 2) + 0)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = flat_tuple(b4.evs(), flat_next(b2.evs(), 2) + 1); d_val(o, x15, l, e15);
                let x16 = x15 + e15;
                let e16 = Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::EnumEnd(None, Some(ident_v("E010"@)), Some(given_v(40))); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E010\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E010<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E011<A, B> {
    V0(A, B),
    V1(A),
    V2,
    V3(A),
    V4,
}
impl<A: Value, B: Value> Value for E011<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E011::V0 { 0: b0, 1: b1 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]) + seq![Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(offset_v(0)))]) + seq![Ev::SeqBegin(Some(1usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]),
            E011::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]) + seq![Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(given_v(-10)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(given_v(-10)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]),
            E011::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]) + seq![Ev::Tag(Some(TAG_A), Some(label_c_v()), Some(given_v(-9)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]),
            E011::V3 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]) + seq![Ev::TaggedBegin(None, Some(ident_v("V3"@)), Some(given_v(-20)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V3"@)), Some(given_v(-20)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]),
            E011::V4 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]) + seq![Ev::Tag(None, Some(label_c_v()), Some(given_v(-19)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E011\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E011<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E011::V0 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(1usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(offset_v(0))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
            E011::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(given_v(-10))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(given_v(-10))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E011::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_A), Some(label_c_v()), Some(given_v(-9))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E011::V3 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V3"@)), Some(given_v(-20))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V3"@)), Some(given_v(-20))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E011::V4 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(label_c_v()), Some(given_v(-19))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), Some(given_v(1))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E011\b.*\}
//@header impl<A: Value, B: Value> E011<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types12 {
use super::*;
pub enum E012 {
    V0,
}
impl Value for E012 {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E012::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E012"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E012"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E012\b.*\}
//@header impl ValueStream for E012
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E012::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E012"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E012"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E012\b.*\}
//@header impl E012
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E013<A, B, C> {
    V0(A),
    V1 { f0: A, f1: B, f2: C },
    V2(A, B, C),
}
impl<A: Value, B: Value, C: Value> Value for E013<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E013::V0 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_B), Some(ident_v("V0"@)), Some(offset_v(0)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(ident_v("V0"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]),
            E013::V1 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("V1"@)), Some(offset_v(1)), Some(3usize))]) + seq![Ev::TupleValueBegin(None, given_v(3))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::TupleValueEnd(None, given_v(3))]) + seq![Ev::TupleValueBegin(None, given_v(4))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(4))]) + seq![Ev::TupleValueBegin(None, given_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, given_v(0))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]),
            E013::V2 { 0: b0, 1: b1, 2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(offset_v(2)))]) + seq![Ev::SeqBegin(Some(1usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E013\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E013<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E013::V0 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_B), Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_B), Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E013::V1 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("V1"@)), Some(offset_v(1)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, given_v(3)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(None, given_v(3)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, given_v(4)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TupleValueEnd(None, given_v(4)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TupleValueBegin(None, given_v(0)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::TupleValueEnd(None, given_v(0)); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::EnumEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
            E013::V2 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(1usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(offset_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(Some(TAG_A), Some(text_v("with \"quotes\""@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E013\b.*\}
//@header impl<A: Value, B: Value, C: Value> E013<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub enum E014<A, B> {
    V0 { f0: A, f1: B },
    V1,
}
impl<A: Value, B: Value> Value for E014<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E014::V0 { f0: b0, f1: b1 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E014"@)), Some(given_v(7)))]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(given_v(-7)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(given_v(-7)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E014"@)), Some(given_v(7)))]),
            E014::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E014"@)), Some(given_v(7)))]) + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(-7)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E014"@)), Some(given_v(7)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E014\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E014<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E014::V0 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E014"@)), Some(given_v(7))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(given_v(-7)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(given_v(-7))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(ident_v("E014"@)), Some(given_v(7))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
            E014::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E014"@)), Some(given_v(7))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(-7))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E014"@)), Some(given_v(7))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E014\b.*\}
//@header impl<A: Value, B: Value> E014<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E015<A, B, C, D, E> {
    V0(A),
    V1 { f0: A, f1: B, f2: C, f3: D, f4: E },
    V2,
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E015<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E015::V0 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E015"@)), Some(given_v(40)))]) + seq![Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(offset_v(0)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E015"@)), Some(given_v(40)))]),
            E015::V1 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => ((((((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E015"@)), Some(given_v(40)))]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::SeqBegin(Some(4usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b3.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E015"@)), Some(given_v(40)))]),
            E015::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E015"@)), Some(given_v(40)))]) + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E015"@)), Some(given_v(40)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E015\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E015<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E015::V0 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E015"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(text_v("renamed"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(text_v("renamed"@)), Some(offset_v(0))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E015"@)), Some(given_v(40))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E015::V1 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E015"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(4usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b0.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b1.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::SeqValueEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqValueBegin; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::SeqValueEnd; d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::SeqValueBegin; d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = b3.evs(); d_val(o, x16, l, e16);
                let x17 = x16 + e16;
                let e17 = Ev::SeqValueEnd; d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
                let e18 = Ev::SeqEnd; d_ev(o, x18, l, e18);
                let x19 = x18 + seq![e18];
                let e19 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x19, l, e19);
                let x20 = x19 + seq![e19];
                let e20 = Ev::EnumEnd(None, Some(ident_v("E015"@)), Some(given_v(40))); d_ev(o, x20, l, e20);
                let x21 = x20 + seq![e20];
            },
            E015::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E015"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(text_v("renamed"@)), Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E015"@)), Some(given_v(40))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E015\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E015<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E016<A> {
    V0(A),
}
impl<A: Value> Value for E016<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E016::V0 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_B), Some(ident_v("E016"@)), None)]) + seq![Ev::TaggedBegin(None, Some(label_c_v()), None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(label_c_v()), None)]) + seq![Ev::EnumEnd(Some(TAG_B), Some(ident_v("E016"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E016\b.*\}
//@header impl<A: Value> ValueStream for E016<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E016::V0 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_B), Some(ident_v("E016"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(label_c_v()), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(label_c_v()), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(Some(TAG_B), Some(ident_v("E016"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E016\b.*\}
//@header impl<A: Value> E016<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub enum E017<A, B> {
    V0 { f0: A, f1: B },
    V1 { f0: A, f1: B },
    V2(A),
}
impl<A: Value, B: Value> Value for E017<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E017::V0 { f0: b0, f1: b1 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(given_v(40)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), text_v("second label"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), text_v("second label"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(given_v(40)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
            E017::V1 { f0: b0, f1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::RecordBegin(None, Some(ident_v("V1"@)), Some(given_v(40)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("V1"@)), Some(given_v(40)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
            E017::V2 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V2"@)), Some(given_v(40)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V2"@)), Some(given_v(40)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E017\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E017<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E017::V0 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(given_v(40)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(Some(TAG_B), text_v("second label"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(Some(TAG_B), text_v("second label"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(given_v(40))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
            E017::V1 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, Some(ident_v("V1"@)), Some(given_v(40)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordEnd(None, Some(ident_v("V1"@)), Some(given_v(40))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E017::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V2"@)), Some(given_v(40))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V2"@)), Some(given_v(40))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E017\b.*\}
//@header impl<A: Value, B: Value> E017<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E018<A, B, C, D, E> {
    V0 { f0: A, f1: B, f2: C, f3: D, f4: E },
    V1 { f0: A, f1: B },
    V2(A),
    V3,
    V4(A),
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E018<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E018::V0 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0)))]) + seq![Ev::RecordTupleBegin(Some(TAG_A), None, Some(offset_v(0)), None)]) + flat_record_tuple(b0.evs(), 0)) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + flat_record_tuple(b2.evs(), flat_next(b0.evs(), 0) + 1)) + seq![Ev::RecordTupleValueBegin(None, ident_v("f4"@), offset_v(flat_next(b2.evs(), flat_next(b0.evs(), 0) + 1) + 0))]) + b4.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f4"@), offset_v(flat_next(b2.evs(), flat_next(b0.evs(), 0) + 1) + 0))]) + seq![Ev::RecordTupleEnd(Some(TAG_A), None, Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0)))]),
            E018::V1 { f0: b0, f1: b1 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0)))]) + seq![Ev::RecordTupleBegin(None, None, Some(offset_v(1)), None)]) + flat_record_tuple(b0.evs(), 0)) + seq![Ev::RecordTupleEnd(None, None, Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0)))]),
            E018::V2 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0)))]) + seq![Ev::TaggedBegin(None, None, Some(offset_v(2)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, None, Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0)))]),
            E018::V3 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0)))]) + seq![Ev::Tag(Some(TAG_B), None, Some(offset_v(3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0)))]),
            E018::V4 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0)))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, Some(offset_v(4)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, Some(offset_v(4)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E018\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E018<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E018::V0 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_A), None, Some(offset_v(0)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_record_tuple(b0.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = flat_record_tuple(b2.evs(), flat_next(b0.evs(), 0) + 1); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueBegin(None, ident_v("f4"@), offset_v(flat_next(b2.evs(), flat_next(b0.evs(), 0) + 1) + 0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b4.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f4"@), offset_v(flat_next(b2.evs(), flat_next(b0.evs(), 0) + 1) + 0)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(Some(TAG_A), None, Some(offset_v(0))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
            E018::V1 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, None, Some(offset_v(1)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_record_tuple(b0.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleEnd(None, None, Some(offset_v(1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E018::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, None, Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, None, Some(offset_v(2))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E018::V3 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_B), None, Some(offset_v(3))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E018::V4 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_B), None, Some(offset_v(4))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_B), None, Some(offset_v(4))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E018"@)), Some(given_v(0))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E018\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E018<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E019<A> {
    V0(A),
}
impl<A: Value> Value for E019<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E019::V0 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E019"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(label_c_v()), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E019"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E019\b.*\}
//@header impl<A: Value> ValueStream for E019<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E019::V0 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E019"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E019"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E019\b.*\}
//@header impl<A: Value> E019<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E020<A, B, C, D, E> {
    V0(A),
    V1 { f0: A, f1: B, f2: C },
    V2(A),
    V3,
    V4 { f0: A, f1: B, f2: C, f3: D, f4: E },
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E020<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E020::V0 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]) + seq![Ev::TaggedBegin(None, Some(ident_v("V0"@)), Some(given_v(5)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V0"@)), Some(given_v(5)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]),
            E020::V1 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]) + seq![Ev::RecordBegin(None, Some(ident_v("V1"@)), Some(given_v(5)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, text_v("first"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, text_v("first"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("V1"@)), Some(given_v(5)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]),
            E020::V2 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("V2"@)), Some(given_v(5)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("V2"@)), Some(given_v(5)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]),
            E020::V3 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]) + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(40)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]),
            E020::V4 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => (((((((((((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]) + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(0)), Some(5usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), text_v("second label"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), text_v("second label"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), text_v("first"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), text_v("first"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(3))]) + b3.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(3))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f4"@), offset_v(4))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b4.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f4"@), offset_v(4))]) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E020\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E020<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E020::V0 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V0"@)), Some(given_v(5))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V0"@)), Some(given_v(5))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E020::V1 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, Some(ident_v("V1"@)), Some(given_v(5)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, text_v("first"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(None, text_v("first"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordEnd(None, Some(ident_v("V1"@)), Some(given_v(5))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E020::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("V2"@)), Some(given_v(5))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("V2"@)), Some(given_v(5))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E020::V3 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(40))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E020::V4 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(0)), Some(5usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_B), text_v("second label"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(Some(TAG_B), text_v("second label"@), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(Some(TAG_B), text_v("first"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(Some(TAG_B), text_v("first"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(3)); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = b3.evs(); d_val(o, x17, l, e17);
                let x18 = x17 + e17;
                let e18 = Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(3)); d_ev(o, x18, l, e18);
                let x19 = x18 + seq![e18];
                let e19 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f4"@), offset_v(4)); d_ev(o, x19, l, e19);
                let x20 = x19 + seq![e19];
                let e20 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x20, l, e20);
                let x21 = x20 + seq![e20];
                let e21 = b4.evs(); d_val(o, x21, l, e21);
                let x22 = x21 + e21;
                let e22 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x22, l, e22);
                let x23 = x22 + seq![e22];
                let e23 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f4"@), offset_v(4)); d_ev(o, x23, l, e23);
                let x24 = x23 + seq![e23];
                let e24 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(0))); d_ev(o, x24, l, e24);
                let x25 = x24 + seq![e24];
                let e25 = Ev::EnumEnd(None, Some(ident_v("E020"@)), Some(given_v(2147483647))); d_ev(o, x25, l, e25);
                let x26 = x25 + seq![e25];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E020\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E020<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E021<A, B, C, D> {
    V0(A, B, C),
    V1(A, B, C),
    V2 { f0: A, f1: B, f2: C, f3: D },
    V3(A, B),
}
impl<A: Value, B: Value, C: Value, D: Value> Value for E021<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E021::V0 { 0: b0, 1: b1, 2: b2 } => (((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(given_v(60)), None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + seq![Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(given_v(60)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
            E021::V1 { 0: b0, 1: b1, 2: b2 } => ((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(given_v(20)), Some(2usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(Some(TAG_B), offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(given_v(20)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
            E021::V2 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(label_c_v()), Some(given_v(70)), Some(4usize))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), label_c_v(), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), label_c_v(), offset_v(2))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f3"@), offset_v(3))]) + b3.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f3"@), offset_v(3))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(label_c_v()), Some(given_v(70)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
            E021::V3 { 0: b0, 1: b1 } => (((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V3"@)), Some(given_v(71)), Some(1usize))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("V3"@)), Some(given_v(71)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E021\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for E021<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E021::V0 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(given_v(60)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_tuple(b0.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(given_v(60))); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
            },
            E021::V1 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(given_v(20)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(Some(TAG_B), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(Some(TAG_B), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(given_v(20))); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
            },
            E021::V2 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_B), Some(label_c_v()), Some(given_v(70)), Some(4usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleValueBegin(Some(TAG_B), label_c_v(), offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordTupleValueEnd(Some(TAG_B), label_c_v(), offset_v(2)); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordTupleValueBegin(None, ident_v("f3"@), offset_v(3)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = b3.evs(); d_val(o, x15, l, e15);
                let x16 = x15 + e15;
                let e16 = Ev::RecordTupleValueEnd(None, ident_v("f3"@), offset_v(3)); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::RecordTupleEnd(Some(TAG_B), Some(label_c_v()), Some(given_v(70))); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
                let e18 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x18, l, e18);
                let x19 = x18 + seq![e18];
            },
            E021::V3 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V3"@)), Some(given_v(71)), Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(Some(TAG_A), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(Some(TAG_A), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleEnd(None, Some(ident_v("V3"@)), Some(given_v(71))); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E021\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> E021<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E022<A, B, C> {
    V0(A, B, C),
}
impl<A: Value, B: Value, C: Value> Value for E022<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E022::V0 { 0: b0, 1: b1, 2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E022"@)), None)]) + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(-20)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), text_v("second label"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), text_v("second label"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(-20)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E022"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E022\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E022<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E022::V0 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E022"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(-20)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_B), text_v("second label"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(Some(TAG_B), text_v("second label"@), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(2)); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(-20))); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::EnumEnd(None, Some(ident_v("E022"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E022\b.*\}
//@header impl<A: Value, B: Value, C: Value> E022<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E023<A, B, C, D> {
    V0 { f0: A, f1: B, f2: C },
    V1(A, B, C, D),
    V2(A, B),
    V3,
}
impl<A: Value, B: Value, C: Value, D: Value> Value for E023<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E023::V0 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E023"@)), None)]) + seq![Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(0)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), text_v("first"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), text_v("first"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(-4))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(-4))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E023"@)), None)]),
            E023::V1 { 0: b0, 1: b1, 2: b2, 3: b3 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E023"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(given_v(0)), Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleValueBegin(None, offset_v(2))]) + b3.evs()) + seq![Ev::TupleValueEnd(None, offset_v(2))]) + seq![Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(given_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E023"@)), None)]),
            E023::V2 { 0: b0, 1: b1 } => ((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E023"@)), None)]) + seq![Ev::TaggedBegin(None, Some(label_c_v()), Some(given_v(40)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(label_c_v()), Some(given_v(40)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E023"@)), None)]),
            E023::V3 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E023"@)), None)]) + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E023"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E023\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for E023<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E023::V0 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E023"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(0)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(Some(TAG_B), text_v("first"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(Some(TAG_B), text_v("first"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(-4)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(-4)); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::RecordTupleEnd(Some(TAG_B), Some(ident_v("V0"@)), Some(given_v(0))); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::EnumEnd(None, Some(ident_v("E023"@)), None); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
            E023::V1 { 0: b0, 1: b1, 2: b2, 3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E023"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(given_v(0)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleValueBegin(None, offset_v(2)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b3.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TupleValueEnd(None, offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(given_v(0))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(ident_v("E023"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
            E023::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E023"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(label_c_v()), Some(given_v(40))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(2usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b0.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueEnd; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::SeqValueBegin; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b1.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::SeqValueEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::SeqEnd; d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedEnd(None, Some(label_c_v()), Some(given_v(40))); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::EnumEnd(None, Some(ident_v("E023"@)), None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
            },
            E023::V3 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E023"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E023"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E023\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> E023<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E024<A, B> {
    V0 { f0: A, f1: B },
    V1(A),
    V2(A),
}
impl<A: Value, B: Value> Value for E024<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E024::V0 { f0: b0, f1: b1 } => (((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647)))]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), None, Some(1usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), None)]) + seq![Ev::EnumEnd(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647)))]),
            E024::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647)))]) + seq![Ev::TaggedBegin(None, Some(label_c_v()), None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(label_c_v()), None)]) + seq![Ev::EnumEnd(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647)))]),
            E024::V2 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647)))]) + seq![Ev::TaggedBegin(None, Some(ident_v("V2"@)), None)]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V2"@)), None)]) + seq![Ev::EnumEnd(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E024\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E024<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E024::V0 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), None, Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::EnumEnd(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647))); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
            },
            E024::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(label_c_v()), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(label_c_v()), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E024::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V2"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V2"@)), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(Some(TAG_A), Some(ident_v("E024"@)), Some(given_v(2147483647))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E024\b.*\}
//@header impl<A: Value, B: Value> E024<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub enum E025<A, B, C> {
    V0 { f0: A },
    V1,
    V2(A),
    V3 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value> Value for E025<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E025::V0 { f0: b0 } => (((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(offset_v(0)), Some(1usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E025::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::Tag(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E025::V2 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V2"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E025::V3 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V3"@)), Some(offset_v(3)), Some(2usize))]) + seq![Ev::TupleValueBegin(Some(TAG_B), given_v(70))]) + b0.evs()) + seq![Ev::TupleValueEnd(Some(TAG_B), given_v(70))]) + seq![Ev::TupleValueBegin(Some(TAG_B), given_v(71))]) + b1.evs()) + seq![Ev::TupleValueEnd(Some(TAG_B), given_v(71))]) + seq![Ev::TupleEnd(None, Some(ident_v("V3"@)), Some(offset_v(3)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E025\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E025<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E025::V0 { f0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(offset_v(0)), Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
            },
            E025::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E025::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V2"@)), Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V2"@)), Some(offset_v(2))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E025::V3 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V3"@)), Some(offset_v(3)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(Some(TAG_B), given_v(70)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(Some(TAG_B), given_v(70)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(Some(TAG_B), given_v(71)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(Some(TAG_B), given_v(71)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(ident_v("V3"@)), Some(offset_v(3))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E025\b.*\}
//@header impl<A: Value, B: Value, C: Value> E025<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub enum E026<A, B> {
    V0 { f0: A, f1: B },
    V1,
    V2(A, B),
}
impl<A: Value, B: Value> Value for E026<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E026::V0 { f0: b0, f1: b1 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E026"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(given_v(-10)), Some(1usize))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(0))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(given_v(-10)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E026"@)), None)]),
            E026::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E026"@)), None)]) + seq![Ev::Tag(Some(TAG_B), Some(label_c_v()), Some(given_v(-9)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E026"@)), None)]),
            E026::V2 { 0: b0, 1: b1 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E026"@)), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(-20)), Some(1usize))]) + seq![Ev::TupleValueBegin(None, given_v(70))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, given_v(70))]) + seq![Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(-20)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E026"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E026\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E026<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E026::V0 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E026"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V0"@)), Some(given_v(-10)), Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleEnd(None, Some(ident_v("V0"@)), Some(given_v(-10))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(None, Some(ident_v("E026"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
            E026::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E026"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_B), Some(label_c_v()), Some(given_v(-9))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E026"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E026::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E026"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V2"@)), Some(given_v(-20)), Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, given_v(70)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(None, given_v(70)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TupleEnd(None, Some(ident_v("V2"@)), Some(given_v(-20))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(None, Some(ident_v("E026"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E026\b.*\}
//@header impl<A: Value, B: Value> E026<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E027<A> {
    V0,
    V1,
    V2(A),
    V3,
}
impl<A: Value> Value for E027<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E027::V0 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(ident_v("V0"@)), None)]),
            E027::V1 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(text_v("renamed"@)), None)]),
            E027::V2 { 0: b0 } => (Seq::<Ev>::empty() + b0.evs()),
            E027::V3 => (Seq::<Ev>::empty() + seq![Ev::Tag(None, Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E027\b.*\}
//@header impl<A: Value> ValueStream for E027<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E027::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(ident_v("V0"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
            E027::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
            E027::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = b0.evs(); d_val(o, x1, l, e1);
                let x2 = x1 + e1;
            },
            E027::V3 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::Tag(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
            },
        }
    }
//@end
}
pub mod types13 {
use super::*;
pub enum E028<A, B, C, D, E> {
    V0,
    V1 { f0: A, f1: B, f2: C },
    V2 { f0: A, f1: B, f2: C },
    V3 { f0: A, f1: B, f2: C, f3: D, f4: E },
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E028<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E028::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::Tag(Some(TAG_B), Some(ident_v("V0"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
            E028::V1 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), given_v(-4))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), given_v(-4))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), given_v(-3))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), given_v(-3))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f2"@), given_v(-2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f2"@), given_v(-2))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
            E028::V2 { f0: b0, f1: b1, f2: b2 } => ((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::RecordBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)), None)]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + flat_record(b2.evs(), 0)) + seq![Ev::RecordEnd(None, Some(ident_v("V2"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
            E028::V3 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(offset_v(3)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f4"@), offset_v(2))]) + b4.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f4"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(offset_v(3)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E028\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E028<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E028::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_B), Some(ident_v("V0"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E028::V1 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), given_v(-4)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), given_v(-4)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, text_v("first"@), given_v(-3)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, text_v("first"@), given_v(-3)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f2"@), given_v(-2)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f2"@), given_v(-2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleEnd(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
            E028::V2 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, Some(ident_v("V2"@)), Some(offset_v(2)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = flat_record(b2.evs(), 0); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordEnd(None, Some(ident_v("V2"@)), Some(offset_v(2))); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
            },
            E028::V3 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(offset_v(3)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueBegin(None, ident_v("f4"@), offset_v(2)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b4.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::RecordTupleValueEnd(None, ident_v("f4"@), offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(offset_v(3))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E028\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E028<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E029<A, B, C> {
    V0 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value> Value for E029<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E029::V0 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(5)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), given_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), given_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(5)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E029\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E029<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E029::V0 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(5)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f0"@), given_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f0"@), given_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), given_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), given_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(5))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E029\b.*\}
//@header impl<A: Value, B: Value, C: Value> E029<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E030<A, B> {
    V0,
    V1(A, B),
    V2(A),
}
impl<A: Value, B: Value> Value for E030<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E030::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E030"@)), None)]) + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E030"@)), None)]),
            E030::V1 { 0: b0, 1: b1 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E030"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(1)))]) + seq![Ev::SeqBegin(Some(1usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E030"@)), None)]),
            E030::V2 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E030"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(2)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E030"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E030\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E030<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E030::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E030"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(text_v("renamed"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E030"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E030::V1 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E030"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(1usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedEnd(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(1))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(None, Some(ident_v("E030"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
            E030::V2 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E030"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_A), Some(text_v("renamed"@)), Some(offset_v(2))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E030"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E030\b.*\}
//@header impl<A: Value, B: Value> E030<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E031<A, B, C> {
    V0 { f0: A },
    V1(A, B),
    V2 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value> Value for E031<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E031::V0 { f0: b0 } => (((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_B), Some(ident_v("E031"@)), None)]) + seq![Ev::TupleBegin(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(-7)), Some(1usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleEnd(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(-7)))]) + seq![Ev::EnumEnd(Some(TAG_B), Some(ident_v("E031"@)), None)]),
            E031::V1 { 0: b0, 1: b1 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_B), Some(ident_v("E031"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(0)))]) + seq![Ev::SeqBegin(Some(2usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(0)))]) + seq![Ev::EnumEnd(Some(TAG_B), Some(ident_v("E031"@)), None)]),
            E031::V2 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_B), Some(ident_v("E031"@)), None)]) + seq![Ev::RecordBegin(None, Some(text_v("renamed"@)), Some(given_v(40)), Some(3usize))]) + seq![Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@))]) + seq![Ev::RecordEnd(None, Some(text_v("renamed"@)), Some(given_v(40)))]) + seq![Ev::EnumEnd(Some(TAG_B), Some(ident_v("E031"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E031\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E031<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E031::V0 { f0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_B), Some(ident_v("E031"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(-7)), Some(1usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleEnd(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(-7))); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::EnumEnd(Some(TAG_B), Some(ident_v("E031"@)), None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
            },
            E031::V1 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_B), Some(ident_v("E031"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(2usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqValueBegin; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::SeqValueEnd; d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::SeqEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(0))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(Some(TAG_B), Some(ident_v("E031"@)), None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
            E031::V2 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_B), Some(ident_v("E031"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, Some(text_v("renamed"@)), Some(given_v(40)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(Some(TAG_A), ident_v("f0"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(Some(TAG_A), ident_v("f0"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@)); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordEnd(None, Some(text_v("renamed"@)), Some(given_v(40))); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::EnumEnd(Some(TAG_B), Some(ident_v("E031"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E031\b.*\}
//@header impl<A: Value, B: Value, C: Value> E031<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_B),
//@end
pub enum E032<A, B, C, D> {
    V0(A, B, C, D),
    V1,
    V2(A, B, C),
    V3 { f0: A, f1: B, f2: C, f3: D },
}
impl<A: Value, B: Value, C: Value, D: Value> Value for E032<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E032::V0 { 0: b0, 1: b1, 2: b2, 3: b3 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, None, Some(offset_v(0)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(1))]) + b3.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, None, Some(offset_v(0)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E032::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::Tag(Some(TAG_B), None, Some(offset_v(1)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E032::V2 { 0: b0, 1: b1, 2: b2 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(Some(TAG_B), None, Some(offset_v(2)), None)]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(0))]) + flat_record_tuple(b1.evs(), 1)) + flat_record_tuple(b2.evs(), flat_next(b1.evs(), 1) + 0)) + seq![Ev::RecordTupleEnd(Some(TAG_B), None, Some(offset_v(2)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E032::V3 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, None, Some(offset_v(3)), Some(4usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), given_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), given_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(0))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), given_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), given_v(1))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f3"@), given_v(40))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b3.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f3"@), given_v(40))]) + seq![Ev::RecordTupleEnd(None, None, Some(offset_v(3)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E032\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for E032<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E032::V0 { 0: b0, 1: b1, 2: b2, 3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, None, Some(offset_v(0)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b3.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleEnd(None, None, Some(offset_v(0))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E032::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_B), None, Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E032::V2 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_B), None, Some(offset_v(2)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = flat_record_tuple(b1.evs(), 1); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = flat_record_tuple(b2.evs(), flat_next(b1.evs(), 1) + 0); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleEnd(Some(TAG_B), None, Some(offset_v(2))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
            E032::V3 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, None, Some(offset_v(3)), Some(4usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f0"@), given_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f0"@), given_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(0)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueBegin(None, label_c_v(), given_v(1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::RecordTupleValueEnd(None, label_c_v(), given_v(1)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f3"@), given_v(40)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = b3.evs(); d_val(o, x14, l, e14);
                let x15 = x14 + e14;
                let e15 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f3"@), given_v(40)); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::RecordTupleEnd(None, None, Some(offset_v(3))); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
                let e18 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x18, l, e18);
                let x19 = x18 + seq![e18];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E032\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> E032<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub enum E033<A, B, C> {
    V0 { f0: A, f1: B, f2: C },
    V1,
    V2,
}
impl<A: Value, B: Value, C: Value> Value for E033<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E033::V0 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::RecordBegin(None, None, Some(offset_v(0)), Some(2usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordEnd(None, None, Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None)]),
            E033::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::Tag(None, None, Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None)]),
            E033::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None)]) + seq![Ev::Tag(None, None, Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E033\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E033<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E033::V0 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, None, Some(offset_v(0)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordEnd(None, None, Some(offset_v(0))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E033::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E033::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(text_v("with \"quotes\""@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E033\b.*\}
//@header impl<A: Value, B: Value, C: Value> E033<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E034<A> {
    V0,
    V1 { f0: A },
}
impl<A: Value> Value for E034<A> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E034::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(text_v("renamed"@)), None)]) + seq![Ev::Tag(None, Some(ident_v("V0"@)), None)]) + seq![Ev::EnumEnd(Some(TAG_A), Some(text_v("renamed"@)), None)]),
            E034::V1 { f0: b0 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(text_v("renamed"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), None)]) + seq![Ev::SeqBegin(Some(1usize))]) + seq![Ev::SeqValueBegin]) + b0.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), None)]) + seq![Ev::EnumEnd(Some(TAG_A), Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E034\b.*\}
//@header impl<A: Value> ValueStream for E034<A>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E034::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V0"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E034::V1 { f0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(Some(1usize)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::SeqValueBegin; d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::SeqValueEnd; d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::SeqEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E034\b.*\}
//@header impl<A: Value> E034<A>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub enum E035<A, B, C> {
    V0(A, B),
    V1(A),
    V2,
    V3(A, B),
    V4(A, B, C),
}
impl<A: Value, B: Value, C: Value> Value for E035<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E035::V0 { 0: b0, 1: b1 } => ((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E035"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(offset_v(0)), None)]) + flat_record_tuple(b0.evs(), 0)) + flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0)) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E035"@)), None)]),
            E035::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E035"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_B), Some(text_v("renamed"@)), Some(offset_v(1)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(text_v("renamed"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E035"@)), None)]),
            E035::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E035"@)), None)]) + seq![Ev::Tag(None, Some(label_c_v()), Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E035"@)), None)]),
            E035::V3 { 0: b0, 1: b1 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E035"@)), None)]) + seq![Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(offset_v(3)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(offset_v(3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E035"@)), None)]),
            E035::V4 { 0: b0, 1: b1, 2: b2 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E035"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V4"@)), Some(offset_v(4)), Some(2usize))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), label_c_v(), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), label_c_v(), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(1))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V4"@)), Some(offset_v(4)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E035"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E035\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E035<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E035::V0 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E035"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(offset_v(0)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_record_tuple(b0.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = flat_record_tuple(b1.evs(), flat_next(b0.evs(), 0) + 0); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(offset_v(0))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::EnumEnd(None, Some(ident_v("E035"@)), None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
            E035::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E035"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_B), Some(text_v("renamed"@)), Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_B), Some(text_v("renamed"@)), Some(offset_v(1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E035"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E035::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E035"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(label_c_v()), Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E035"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E035::V3 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E035"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(offset_v(3)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(offset_v(3))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(ident_v("E035"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E035::V4 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E035"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V4"@)), Some(offset_v(4)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(Some(TAG_B), label_c_v(), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(Some(TAG_B), label_c_v(), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, text_v("second label"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordTupleValueEnd(None, text_v("second label"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("V4"@)), Some(offset_v(4))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(ident_v("E035"@)), None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E035\b.*\}
//@header impl<A: Value, B: Value, C: Value> E035<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E036<A, B> {
    V0,
    V1,
    V2 { f0: A, f1: B },
}
impl<A: Value, B: Value> Value for E036<A, B> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E036::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), Some(given_v(0)))]) + seq![Ev::Tag(None, Some(label_c_v()), None)]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), Some(given_v(0)))]),
            E036::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), Some(given_v(0)))]) + seq![Ev::Tag(Some(TAG_A), Some(text_v("renamed"@)), None)]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), Some(given_v(0)))]),
            E036::V2 { f0: b0, f1: b1 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), Some(given_v(0)))]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V2"@)), None, Some(2usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V2"@)), None)]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), Some(given_v(0)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E036\b.*\}
//@header impl<A: Value, B: Value> ValueStream for E036<A, B>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E036::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(label_c_v()), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E036::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_A), Some(text_v("renamed"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E036::V2 { f0: b0, f1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V2"@)), None, Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f1"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleEnd(None, Some(ident_v("V2"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(text_v("renamed"@)), Some(given_v(0))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E036\b.*\}
//@header impl<A: Value, B: Value> E036<A, B>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E037<A, B, C, D> {
    V0,
    V1(A, B, C, D),
    V2,
    V3 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value, D: Value> Value for E037<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E037::V0 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::Tag(None, Some(text_v("renamed"@)), Some(offset_v(0)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E037::V1 { 0: b0, 1: b1, 2: b2, 3: b3 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)), Some(3usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, given_v(-1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, given_v(-1))]) + seq![Ev::TupleValueBegin(None, given_v(0))]) + b3.evs()) + seq![Ev::TupleValueEnd(None, given_v(0))]) + seq![Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(offset_v(1)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E037::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::Tag(Some(TAG_A), Some(ident_v("V2"@)), Some(offset_v(2)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
            E037::V3 { f0: b0, f1: b1, f2: b2 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(offset_v(3)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(None, offset_v(1))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(1))]) + seq![Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(offset_v(3)))]) + seq![Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E037\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for E037<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E037::V0 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(text_v("renamed"@)), Some(offset_v(0))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E037::V1 { 0: b0, 1: b1, 2: b2, 3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V1"@)), Some(offset_v(1)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, given_v(-1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, given_v(-1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleValueBegin(None, given_v(0)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b3.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TupleValueEnd(None, given_v(0)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TupleEnd(None, Some(ident_v("V1"@)), Some(offset_v(1))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
            E037::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_A), Some(ident_v("V2"@)), Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E037::V3 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(offset_v(3)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(None, offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(None, offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(offset_v(3))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E037\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> E037<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == Some(TAG_A),
//@end
pub enum E038<A, B, C, D> {
    V0(A, B, C),
    V1(A),
    V2 { f0: A, f1: B, f2: C, f3: D },
    V3(A),
}
impl<A: Value, B: Value, C: Value, D: Value> Value for E038<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E038::V0 { 0: b0, 1: b1, 2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E038"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(70)))]) + seq![Ev::SeqBegin(None)]) + flat_seq(b0.evs())) + seq![Ev::SeqValueBegin]) + b1.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqValueBegin]) + b2.evs()) + seq![Ev::SeqValueEnd]) + seq![Ev::SeqEnd]) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(70)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E038"@)), None)]),
            E038::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E038"@)), None)]) + seq![Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(71)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(71)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E038"@)), None)]),
            E038::V2 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E038"@)), None)]) + seq![Ev::RecordBegin(None, Some(ident_v("V2"@)), Some(given_v(72)), Some(4usize))]) + seq![Ev::RecordValueBegin(None, label_c_v())]) + b0.evs()) + seq![Ev::RecordValueEnd(None, label_c_v())]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f2"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f3"@))]) + b3.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f3"@))]) + seq![Ev::RecordEnd(None, Some(ident_v("V2"@)), Some(given_v(72)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E038"@)), None)]),
            E038::V3 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E038"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(ident_v("V3"@)), Some(given_v(73)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(ident_v("V3"@)), Some(given_v(73)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E038"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E038\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for E038<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E038::V0 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E038"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(70))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::SeqBegin(None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = flat_seq(b0.evs()); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::SeqValueBegin; d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = b1.evs(); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::SeqValueEnd; d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::SeqValueBegin; d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b2.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::SeqValueEnd; d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::SeqEnd; d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("V0"@)), Some(given_v(70))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(ident_v("E038"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
            E038::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E038"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, Some(ident_v("V1"@)), Some(given_v(71))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, Some(ident_v("V1"@)), Some(given_v(71))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E038"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E038::V2 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E038"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, Some(ident_v("V2"@)), Some(given_v(72)), Some(4usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, label_c_v()); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, label_c_v()); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordValueBegin(None, ident_v("f2"@)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::RecordValueEnd(None, ident_v("f2"@)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordValueBegin(None, ident_v("f3"@)); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b3.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::RecordValueEnd(None, ident_v("f3"@)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::RecordEnd(None, Some(ident_v("V2"@)), Some(given_v(72))); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::EnumEnd(None, Some(ident_v("E038"@)), None); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
            },
            E038::V3 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E038"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(ident_v("V3"@)), Some(given_v(73))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_A), Some(ident_v("V3"@)), Some(given_v(73))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E038"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E038\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> E038<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E039<A, B, C, D, E> {
    V0 { f0: A, f1: B, f2: C, f3: D, f4: E },
    V1(A),
    V2(A, B),
    V3 { f0: A, f1: B, f2: C, f3: D },
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E039<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E039::V0 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => ((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E039"@)), None)]) + seq![Ev::RecordBegin(None, Some(text_v("renamed"@)), Some(given_v(30)), None)]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + flat_record(b1.evs(), 0)) + seq![Ev::RecordValueBegin(None, text_v("second label"@))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b3.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(None, text_v("second label"@))]) + flat_record(b4.evs(), flat_next(b1.evs(), 0) + 0)) + seq![Ev::RecordEnd(None, Some(text_v("renamed"@)), Some(given_v(30)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E039"@)), None)]),
            E039::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E039"@)), None)]) + seq![Ev::TaggedBegin(Some(TAG_B), Some(ident_v("V1"@)), Some(given_v(20)))]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), Some(ident_v("V1"@)), Some(given_v(20)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E039"@)), None)]),
            E039::V2 { 0: b0, 1: b1 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E039"@)), None)]) + seq![Ev::RecordTupleBegin(Some(TAG_A), Some(text_v("renamed"@)), Some(given_v(10)), None)]) + flat_record_tuple(b1.evs(), 0)) + seq![Ev::RecordTupleEnd(Some(TAG_A), Some(text_v("renamed"@)), Some(given_v(10)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E039"@)), None)]),
            E039::V3 { f0: b0, f1: b1, f2: b2, f3: b3 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E039"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(40)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("second label"@), given_v(-4))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("second label"@), given_v(-4))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(-1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(-1))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), text_v("first"@), given_v(0))]) + b3.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), text_v("first"@), given_v(0))]) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(40)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E039"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E039\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E039<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E039::V0 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E039"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, Some(text_v("renamed"@)), Some(given_v(30)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = flat_record(b1.evs(), 0); d_val(o, x6, l, e6);
                let x7 = x6 + e6;
                let e7 = Ev::RecordValueBegin(None, text_v("second label"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b3.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordValueEnd(None, text_v("second label"@)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = flat_record(b4.evs(), flat_next(b1.evs(), 0) + 0); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordEnd(None, Some(text_v("renamed"@)), Some(given_v(30))); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::EnumEnd(None, Some(ident_v("E039"@)), None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
            },
            E039::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E039"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_B), Some(ident_v("V1"@)), Some(given_v(20))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_B), Some(ident_v("V1"@)), Some(given_v(20))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E039"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E039::V2 { 0: b0, 1: b1 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E039"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_A), Some(text_v("renamed"@)), Some(given_v(10)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_record_tuple(b1.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleEnd(Some(TAG_A), Some(text_v("renamed"@)), Some(given_v(10))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E039"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E039::V3 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E039"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(40)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, text_v("second label"@), given_v(-4)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, text_v("second label"@), given_v(-4)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f1"@), given_v(-1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f1"@), given_v(-1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueBegin(Some(TAG_A), text_v("first"@), given_v(0)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b3.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::RecordTupleValueEnd(Some(TAG_A), text_v("first"@), given_v(0)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(40))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(ident_v("E039"@)), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E039\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E039<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E040<A, B, C, D> {
    V0 { f0: A, f1: B, f2: C, f3: D },
    V1,
    V2,
    V3,
    V4(A),
}
impl<A: Value, B: Value, C: Value, D: Value> Value for E040<A, B, C, D> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E040::V0 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40)))]) + seq![Ev::TupleBegin(None, Some(ident_v("V0"@)), None, None)]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + flat_tuple(b1.evs(), 1)) + flat_tuple(b2.evs(), flat_next(b1.evs(), 1) + 0)) + flat_tuple(b3.evs(), flat_next(b2.evs(), flat_next(b1.evs(), 1) + 0) + 0)) + seq![Ev::TupleEnd(None, Some(ident_v("V0"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40)))]),
            E040::V1 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40)))]) + seq![Ev::Tag(Some(TAG_B), Some(ident_v("V1"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40)))]),
            E040::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40)))]) + seq![Ev::Tag(None, Some(ident_v("V2"@)), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40)))]),
            E040::V3 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40)))]) + seq![Ev::Tag(None, Some(label_c_v()), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40)))]),
            E040::V4 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40)))]) + seq![Ev::TaggedBegin(Some(TAG_A), Some(label_c_v()), None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), Some(label_c_v()), None)]) + seq![Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40)))]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E040\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> ValueStream for E040<A, B, C, D>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E040::V0 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(ident_v("V0"@)), None, None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = flat_tuple(b1.evs(), 1); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = flat_tuple(b2.evs(), flat_next(b1.evs(), 1) + 0); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = flat_tuple(b3.evs(), flat_next(b2.evs(), flat_next(b1.evs(), 1) + 0) + 0); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TupleEnd(None, Some(ident_v("V0"@)), None); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
            E040::V1 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(Some(TAG_B), Some(ident_v("V1"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E040::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(ident_v("V2"@)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E040::V3 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, Some(label_c_v()), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E040::V4 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(Some(TAG_A), Some(label_c_v()), None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E040"@)), Some(given_v(40))); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E040\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value> E040<A, B, C, D>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E041<A, B, C> {
    V0 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value> Value for E041<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E041::V0 { f0: b0, f1: b1, f2: b2 } => (((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(label_c_v()), None)]) + seq![Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(10)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(10)))]) + seq![Ev::EnumEnd(None, Some(label_c_v()), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E041\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E041<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E041::V0 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(label_c_v()), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(label_c_v()), Some(given_v(10)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, label_c_v(), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b1.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, label_c_v(), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueBegin(Some(TAG_B), ident_v("f2"@), offset_v(2)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = b2.evs(); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::RecordTupleValueEnd(Some(TAG_B), ident_v("f2"@), offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::RecordTupleEnd(None, Some(label_c_v()), Some(given_v(10))); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::EnumEnd(None, Some(label_c_v()), None); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E041\b.*\}
//@header impl<A: Value, B: Value, C: Value> E041<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E042<A, B, C> {
    V0 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value> Value for E042<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E042::V0 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E042"@)), None)]) + seq![Ev::RecordTupleBegin(Some(TAG_B), None, Some(offset_v(0)), Some(3usize))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f1"@), offset_v(1))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f1"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2))]) + seq![Ev::RecordTupleEnd(Some(TAG_B), None, Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E042"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E042\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E042<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E042::V0 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E042"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(Some(TAG_B), None, Some(offset_v(0)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, ident_v("f0"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordTupleValueEnd(None, ident_v("f0"@), offset_v(0)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordTupleValueBegin(Some(TAG_A), ident_v("f1"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordTupleValueEnd(Some(TAG_A), ident_v("f1"@), offset_v(1)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(2)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(2)); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordTupleEnd(Some(TAG_B), None, Some(offset_v(0))); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::EnumEnd(None, Some(ident_v("E042"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E042\b.*\}
//@header impl<A: Value, B: Value, C: Value> E042<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E043<A, B, C> {
    V0 { f0: A, f1: B, f2: C },
    V1(A),
    V2,
    V3,
    V4 { f0: A, f1: B, f2: C },
}
impl<A: Value, B: Value, C: Value> Value for E043<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E043::V0 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E043"@)), None)]) + seq![Ev::RecordBegin(Some(TAG_B), None, Some(offset_v(0)), Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + b0.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, label_c_v())]) + seq![Ev::TaggedBegin(Some(TAG_B), None, None)]) + b1.evs()) + seq![Ev::TaggedEnd(Some(TAG_B), None, None)]) + seq![Ev::RecordValueEnd(None, label_c_v())]) + seq![Ev::RecordValueBegin(None, text_v("second label"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b2.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(None, text_v("second label"@))]) + seq![Ev::RecordEnd(Some(TAG_B), None, Some(offset_v(0)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E043"@)), None)]),
            E043::V1 { 0: b0 } => (((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E043"@)), None)]) + seq![Ev::TaggedBegin(None, None, Some(offset_v(1)))]) + b0.evs()) + seq![Ev::TaggedEnd(None, None, Some(offset_v(1)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E043"@)), None)]),
            E043::V2 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E043"@)), None)]) + seq![Ev::Tag(None, None, Some(offset_v(2)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E043"@)), None)]),
            E043::V3 => (((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E043"@)), None)]) + seq![Ev::Tag(None, None, Some(offset_v(3)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E043"@)), None)]),
            E043::V4 { f0: b0, f1: b1, f2: b2 } => (((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(ident_v("E043"@)), None)]) + seq![Ev::RecordBegin(None, None, Some(offset_v(4)), Some(3usize))]) + seq![Ev::RecordValueBegin(None, ident_v("f0"@))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b0.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordValueEnd(None, ident_v("f0"@))]) + seq![Ev::RecordValueBegin(None, ident_v("f1"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(None, ident_v("f1"@))]) + seq![Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@))]) + b2.evs()) + seq![Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@))]) + seq![Ev::RecordEnd(None, None, Some(offset_v(4)))]) + seq![Ev::EnumEnd(None, Some(ident_v("E043"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E043\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E043<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E043::V0 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E043"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(Some(TAG_B), None, Some(offset_v(0)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordValueBegin(None, label_c_v()); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TaggedBegin(Some(TAG_B), None, None); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b1.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TaggedEnd(Some(TAG_B), None, None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::RecordValueEnd(None, label_c_v()); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordValueBegin(None, text_v("second label"@)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = b2.evs(); d_val(o, x13, l, e13);
                let x14 = x13 + e13;
                let e14 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::RecordValueEnd(None, text_v("second label"@)); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
                let e16 = Ev::RecordEnd(Some(TAG_B), None, Some(offset_v(0))); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::EnumEnd(None, Some(ident_v("E043"@)), None); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
            },
            E043::V1 { 0: b0 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E043"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TaggedBegin(None, None, Some(offset_v(1))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = b0.evs(); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TaggedEnd(None, None, Some(offset_v(1))); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = Ev::EnumEnd(None, Some(ident_v("E043"@)), None); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
            },
            E043::V2 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E043"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, Some(offset_v(2))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E043"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E043::V3 => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E043"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::Tag(None, None, Some(offset_v(3))); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::EnumEnd(None, Some(ident_v("E043"@)), None); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
            },
            E043::V4 { f0: b0, f1: b1, f2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(ident_v("E043"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordBegin(None, None, Some(offset_v(4)), Some(3usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordValueBegin(None, ident_v("f0"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b0.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::RecordValueEnd(None, ident_v("f0"@)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = Ev::RecordValueBegin(None, ident_v("f1"@)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = b1.evs(); d_val(o, x9, l, e9);
                let x10 = x9 + e9;
                let e10 = Ev::RecordValueEnd(None, ident_v("f1"@)); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = Ev::RecordValueBegin(Some(TAG_B), ident_v("f2"@)); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = b2.evs(); d_val(o, x12, l, e12);
                let x13 = x12 + e12;
                let e13 = Ev::RecordValueEnd(Some(TAG_B), ident_v("f2"@)); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordEnd(None, None, Some(offset_v(4))); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = Ev::EnumEnd(None, Some(ident_v("E043"@)), None); d_ev(o, x15, l, e15);
                let x16 = x15 + seq![e15];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E043\b.*\}
//@header impl<A: Value, B: Value, C: Value> E043<A, B, C>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
}
pub mod types14 {
use super::*;
pub enum E044<A, B, C, D, E> {
    V0 { f0: A, f1: B, f2: C, f3: D },
    V1 { f0: A, f1: B, f2: C, f3: D, f4: E },
    V2 { f0: A, f1: B, f2: C, f3: D },
    V3 { f0: A, f1: B, f2: C, f3: D },
}
impl<A: Value, B: Value, C: Value, D: Value, E: Value> Value for E044<A, B, C, D, E> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E044::V0 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::TupleBegin(Some(TAG_B), Some(label_c_v()), Some(given_v(-20)), Some(2usize))]) + seq![Ev::TupleValueBegin(None, offset_v(0))]) + b0.evs()) + seq![Ev::TupleValueEnd(None, offset_v(0))]) + seq![Ev::TupleValueBegin(Some(TAG_A), offset_v(1))]) + b3.evs()) + seq![Ev::TupleValueEnd(Some(TAG_A), offset_v(1))]) + seq![Ev::TupleEnd(Some(TAG_B), Some(label_c_v()), Some(given_v(-20)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
            E044::V1 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => ((((((((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(ident_v("V1"@)), Some(given_v(-19)), Some(4usize))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0))]) + b0.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1))]) + b2.evs()) + seq![Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1))]) + seq![Ev::RecordTupleValueBegin(None, ident_v("f3"@), offset_v(2))]) + seq![Ev::TaggedBegin(Some(TAG_A), None, None)]) + b3.evs()) + seq![Ev::TaggedEnd(Some(TAG_A), None, None)]) + seq![Ev::RecordTupleValueEnd(None, ident_v("f3"@), offset_v(2))]) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(3))]) + b4.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(3))]) + seq![Ev::RecordTupleEnd(None, Some(ident_v("V1"@)), Some(given_v(-19)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
            E044::V2 { f0: b0, f1: b1, f2: b2, f3: b3 } => ((((((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(given_v(70)), None)]) + flat_tuple(b0.evs(), 0)) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0))]) + seq![Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + b2.evs()) + seq![Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1))]) + flat_tuple(b3.evs(), flat_next(b0.evs(), 0) + 2)) + seq![Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(given_v(70)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
            E044::V3 { f0: b0, f1: b1, f2: b2, f3: b3 } => (((((((((Seq::<Ev>::empty() + seq![Ev::EnumBegin(None, Some(text_v("renamed"@)), None)]) + seq![Ev::RecordTupleBegin(None, Some(text_v("renamed"@)), Some(given_v(71)), None)]) + flat_record_tuple(b0.evs(), 0)) + seq![Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + b1.evs()) + seq![Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(flat_next(b0.evs(), 0) + 0))]) + flat_record_tuple(b3.evs(), flat_next(b0.evs(), 0) + 1)) + seq![Ev::RecordTupleEnd(None, Some(text_v("renamed"@)), Some(given_v(71)))]) + seq![Ev::EnumEnd(None, Some(text_v("renamed"@)), None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E044\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> ValueStream for E044<A, B, C, D, E>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E044::V0 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(Some(TAG_B), Some(label_c_v()), Some(given_v(-20)), Some(2usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::TupleValueBegin(None, offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::TupleValueEnd(None, offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::TupleValueBegin(Some(TAG_A), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b3.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::TupleValueEnd(Some(TAG_A), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::TupleEnd(Some(TAG_B), Some(label_c_v()), Some(given_v(-20))); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
            },
            E044::V1 { f0: b0, f1: b1, f2: b2, f3: b3, f4: b4 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(ident_v("V1"@)), Some(given_v(-19)), Some(4usize)); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(0)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b0.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(0)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordTupleValueBegin(None, ident_v("f2"@), offset_v(1)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = b2.evs(); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleValueEnd(None, ident_v("f2"@), offset_v(1)); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::RecordTupleValueBegin(None, ident_v("f3"@), offset_v(2)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = Ev::TaggedBegin(Some(TAG_A), None, None); d_ev(o, x10, l, e10);
                let x11 = x10 + seq![e10];
                let e11 = b3.evs(); d_val(o, x11, l, e11);
                let x12 = x11 + e11;
                let e12 = Ev::TaggedEnd(Some(TAG_A), None, None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
                let e13 = Ev::RecordTupleValueEnd(None, ident_v("f3"@), offset_v(2)); d_ev(o, x13, l, e13);
                let x14 = x13 + seq![e13];
                let e14 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(3)); d_ev(o, x14, l, e14);
                let x15 = x14 + seq![e14];
                let e15 = b4.evs(); d_val(o, x15, l, e15);
                let x16 = x15 + e15;
                let e16 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(3)); d_ev(o, x16, l, e16);
                let x17 = x16 + seq![e16];
                let e17 = Ev::RecordTupleEnd(None, Some(ident_v("V1"@)), Some(given_v(-19))); d_ev(o, x17, l, e17);
                let x18 = x17 + seq![e17];
                let e18 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x18, l, e18);
                let x19 = x18 + seq![e18];
            },
            E044::V2 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::TupleBegin(None, Some(text_v("renamed"@)), Some(given_v(70)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_tuple(b0.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = Ev::TupleValueBegin(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x7, l, e7);
                let x8 = x7 + seq![e7];
                let e8 = b2.evs(); d_val(o, x8, l, e8);
                let x9 = x8 + e8;
                let e9 = Ev::TupleValueEnd(None, offset_v(flat_next(b0.evs(), 0) + 1)); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
                let e10 = flat_tuple(b3.evs(), flat_next(b0.evs(), 0) + 2); d_val(o, x10, l, e10);
                let x11 = x10 + e10;
                let e11 = Ev::TupleEnd(None, Some(text_v("renamed"@)), Some(given_v(70))); d_ev(o, x11, l, e11);
                let x12 = x11 + seq![e11];
                let e12 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x12, l, e12);
                let x13 = x12 + seq![e12];
            },
            E044::V3 { f0: b0, f1: b1, f2: b2, f3: b3 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::EnumBegin(None, Some(text_v("renamed"@)), None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = Ev::RecordTupleBegin(None, Some(text_v("renamed"@)), Some(given_v(71)), None); d_ev(o, x2, l, e2);
                let x3 = x2 + seq![e2];
                let e3 = flat_record_tuple(b0.evs(), 0); d_val(o, x3, l, e3);
                let x4 = x3 + e3;
                let e4 = Ev::RecordTupleValueBegin(None, text_v("first"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x4, l, e4);
                let x5 = x4 + seq![e4];
                let e5 = b1.evs(); d_val(o, x5, l, e5);
                let x6 = x5 + e5;
                let e6 = Ev::RecordTupleValueEnd(None, text_v("first"@), offset_v(flat_next(b0.evs(), 0) + 0)); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
                let e7 = flat_record_tuple(b3.evs(), flat_next(b0.evs(), 0) + 1); d_val(o, x7, l, e7);
                let x8 = x7 + e7;
                let e8 = Ev::RecordTupleEnd(None, Some(text_v("renamed"@)), Some(given_v(71))); d_ev(o, x8, l, e8);
                let x9 = x8 + seq![e8];
                let e9 = Ev::EnumEnd(None, Some(text_v("renamed"@)), None); d_ev(o, x9, l, e9);
                let x10 = x9 + seq![e9];
            },
        }
    }
//@end
//@impl derived | ~\{impl.*sval::Value for E044\b.*\}
//@header impl<A: Value, B: Value, C: Value, D: Value, E: Value> E044<A, B, C, D, E>
//@only tag
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@spec tag
        ensures r == None,
//@end
pub enum E045<A, B, C> {
    V0(A, B, C),
}
impl<A: Value, B: Value, C: Value> Value for E045<A, B, C> {
    open spec fn evs(&self) -> Seq<Ev> {
        match self {
            E045::V0 { 0: b0, 1: b1, 2: b2 } => ((((((Seq::<Ev>::empty() + seq![Ev::RecordBegin(None, None, None, None)]) + flat_record(b0.evs(), 0)) + seq![Ev::RecordValueBegin(Some(TAG_B), text_v("second label"@))]) + b1.evs()) + seq![Ev::RecordValueEnd(Some(TAG_B), text_v("second label"@))]) + seq![Ev::RecordEnd(None, None, None)]),
        }
    }
}
//@impl derived | ~\{impl.*sval::Value for E045\b.*\}
//@header impl<A: Value, B: Value, C: Value> ValueStream for E045<A, B, C>
//@only stream
//@generic S
//@sub \bsval::Index::from\( => Index::new_isize(
//@sub &LABEL_C\b => &label_c()
//@sub \bsval_derive::extensions::flatten:: => flatten::
//@head stream
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        match self {
            E045::V0 { 0: b0, 1: b1, 2: b2 } => {
                d_zero(o, l);
                let x1 = Seq::<Ev>::empty();
                let e1 = Ev::RecordBegin(None, None, None, None); d_ev(o, x1, l, e1);
                let x2 = x1 + seq![e1];
                let e2 = flat_record(b0.evs(), 0); d_val(o, x2, l, e2);
                let x3 = x2 + e2;
                let e3 = Ev::RecordValueBegin(Some(TAG_B), text_v("second label"@)); d_ev(o, x3, l, e3);
                let x4 = x3 + seq![e3];
                let e4 = b1.evs(); d_val(o, x4, l, e4);
                let x5 = x4 + e4;
                let e5 = Ev::RecordValueEnd(Some(TAG_B), text_v("second label"@)); d_ev(o, x5, l, e5);
                let x6 = x5 + seq![e5];
                let e6 = Ev::RecordEnd(None, None, None); d_ev(o, x6, l, e6);
                let x7 = x6 + seq![e6];
            },
        }
    }
//@end
}
}
fn main() {}
