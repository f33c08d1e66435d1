//! The catalogue of derived types, run (generated by lib/mkderive.py).
use crate::tree::Node as V;
use crate::derive_props::one;
use derive_types::*;

pub const CASES: usize = 339;

fn ident(t: &'static str) -> sval::Label<'static> { sval::Label::new(t).with_tag(&sval::tags::VALUE_IDENT) }
fn text(t: &'static str) -> sval::Label<'static> { sval::Label::new(t) }
fn offset(i: isize) -> sval::Index { sval::Index::new_isize(i).with_tag(&sval::tags::VALUE_OFFSET) }
fn given(i: isize) -> sval::Index { sval::Index::new_isize(i) }

pub struct Expected<'a>(pub usize, pub &'a [V]);
impl<'a> sval::Value for Expected<'a> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        parts(self.0, self.1, s)
    }
}
#[rustfmt::skip]
#[allow(unused_variables)]
fn parts<'sval, S: sval::Stream<'sval> + ?Sized>(case: usize, f: &'sval [V], s: &mut S) -> sval::Result {
    match case {
        0 => { s.record_tuple_begin(None, Some(&ident("S000")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S000")), None)?; }
        1 => { s.record_tuple_begin(None, Some(&ident("S001")), Some(&given(0)), Some(2))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(1))?; s.record_tuple_end(None, Some(&ident("S001")), Some(&given(0)))?; }
        2 => { s.record_tuple_begin(None, Some(&ident("S002")), None, None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; s.record_tuple_value_begin(None, &ident("f1"), &offset(at0 + 0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(at0 + 0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(at0 + 1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(at0 + 1))?; s.record_tuple_end(None, Some(&ident("S002")), None)?; }
        3 => { s.record_tuple_begin(None, Some(&ident("S003")), None, Some(3))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f0"), &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_B), &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S003")), None)?; }
        4 => { s.record_tuple_begin(None, Some(&ident("S004")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &given(5))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &given(5))?; s.record_tuple_value_begin(None, &ident("f1"), &given(6))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &given(6))?; s.record_tuple_value_begin(None, &ident("f2"), &given(7))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &given(7))?; s.record_tuple_end(None, Some(&ident("S004")), None)?; }
        5 => { s.record_tuple_begin(None, Some(&ident("S005")), None, Some(3))?; s.record_tuple_value_begin(None, &text("x"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("x"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S005")), None)?; }
        6 => { s.record_tuple_begin(None, Some(&ident("S006")), Some(&given(1)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(1))?; s.record_tuple_end(None, Some(&ident("S006")), Some(&given(1)))?; }
        7 => { s.record_tuple_begin(None, Some(&ident("S007")), None, None)?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], 1)?; s.record_tuple_value_begin(None, &ident("f2"), &offset(at1 + 0))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(at1 + 0))?; s.record_tuple_end(None, Some(&ident("S007")), None)?; }
        8 => { s.record_tuple_begin(None, Some(&ident("S008")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f1"), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_B), &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S008")), None)?; }
        9 => { s.record_tuple_begin(None, Some(&ident("S009")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &given(-2))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &given(-2))?; s.record_tuple_value_begin(None, &ident("f2"), &given(-1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &given(-1))?; s.record_tuple_end(None, Some(&ident("S009")), None)?; }
        10 => { s.record_tuple_begin(None, Some(&ident("S010")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &text("constant label"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("constant label"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S010")), None)?; }
        11 => { s.record_tuple_begin(None, Some(&ident("S011")), Some(&given(2)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("S011")), Some(&given(2)))?; }
        12 => { s.record_tuple_begin(None, Some(&ident("S012")), None, None)?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; let at2 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[2], 2)?; s.record_tuple_end(None, Some(&ident("S012")), None)?; }
        13 => { s.record_tuple_begin(None, Some(&ident("S013")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f2"), &offset(2))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_B), &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S013")), None)?; }
        14 => { s.record_tuple_begin(None, Some(&ident("S014")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &given(0))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &given(0))?; s.record_tuple_end(None, Some(&ident("S014")), None)?; }
        15 => { s.record_tuple_begin(None, Some(&ident("S015")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &text("z"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &text("z"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S015")), None)?; }
        16 => { s.record_tuple_begin(Some(&TAG_A), Some(&ident("S016")), None, Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(Some(&TAG_A), Some(&ident("S016")), None)?; }
        17 => { s.record_tuple_begin(Some(&TAG_A), Some(&ident("S017")), Some(&given(0)), Some(2))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(1))?; s.record_tuple_end(Some(&TAG_A), Some(&ident("S017")), Some(&given(0)))?; }
        18 => { s.record_tuple_begin(Some(&TAG_A), Some(&ident("S018")), Some(&given(1)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(1))?; s.record_tuple_end(Some(&TAG_A), Some(&ident("S018")), Some(&given(1)))?; }
        19 => { s.record_tuple_begin(Some(&TAG_A), Some(&ident("S019")), Some(&given(2)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(Some(&TAG_A), Some(&ident("S019")), Some(&given(2)))?; }
        20 => { s.record_begin(None, Some(&ident("S020")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S020")), None)?; }
        21 => { s.record_begin(None, Some(&ident("S021")), Some(&given(0)), Some(2))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S021")), Some(&given(0)))?; }
        22 => { s.record_begin(None, Some(&ident("S022")), None, None)?; let at0 = sval_flatten::flatten_to_record(&mut *s, &f[0], 0)?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S022")), None)?; }
        23 => { s.record_begin(None, Some(&ident("S023")), None, Some(3))?; s.record_value_begin(Some(&TAG_B), &ident("f0"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(Some(&TAG_B), &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S023")), None)?; }
        24 => { s.record_begin(None, Some(&ident("S024")), None, Some(3))?; s.record_value_begin(None, &text("x"))?; s.value(&f[0])?; s.record_value_end(None, &text("x"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S024")), None)?; }
        25 => { s.record_begin(None, Some(&ident("S025")), Some(&given(1)), Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S025")), Some(&given(1)))?; }
        26 => { s.record_begin(None, Some(&ident("S026")), None, None)?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; let at1 = sval_flatten::flatten_to_record(&mut *s, &f[1], 0)?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S026")), None)?; }
        27 => { s.record_begin(None, Some(&ident("S027")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(Some(&TAG_B), &ident("f1"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(Some(&TAG_B), &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S027")), None)?; }
        28 => { s.record_begin(None, Some(&ident("S028")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &text("constant label"))?; s.value(&f[1])?; s.record_value_end(None, &text("constant label"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S028")), None)?; }
        29 => { s.record_begin(None, Some(&ident("S029")), Some(&given(2)), Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_end(None, Some(&ident("S029")), Some(&given(2)))?; }
        30 => { s.record_begin(None, Some(&ident("S030")), None, None)?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; let at2 = sval_flatten::flatten_to_record(&mut *s, &f[2], 0)?; s.record_end(None, Some(&ident("S030")), None)?; }
        31 => { s.record_begin(None, Some(&ident("S031")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(Some(&TAG_B), &ident("f2"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(Some(&TAG_B), &ident("f2"))?; s.record_end(None, Some(&ident("S031")), None)?; }
        32 => { s.record_begin(None, Some(&ident("S032")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &text("z"))?; s.value(&f[2])?; s.record_value_end(None, &text("z"))?; s.record_end(None, Some(&ident("S032")), None)?; }
        33 => { s.record_begin(Some(&TAG_A), Some(&ident("S033")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(Some(&TAG_A), Some(&ident("S033")), None)?; }
        34 => { s.record_begin(Some(&TAG_A), Some(&ident("S034")), Some(&given(0)), Some(2))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(Some(&TAG_A), Some(&ident("S034")), Some(&given(0)))?; }
        35 => { s.record_begin(Some(&TAG_A), Some(&ident("S035")), Some(&given(1)), Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(Some(&TAG_A), Some(&ident("S035")), Some(&given(1)))?; }
        36 => { s.record_begin(Some(&TAG_A), Some(&ident("S036")), Some(&given(2)), Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_end(Some(&TAG_A), Some(&ident("S036")), Some(&given(2)))?; }
        37 => { s.tuple_begin(None, Some(&ident("S037")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S037")), None)?; }
        38 => { s.tuple_begin(None, Some(&ident("S038")), Some(&given(0)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S038")), Some(&given(0)))?; }
        39 => { s.tuple_begin(None, Some(&ident("S039")), None, None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(None, &offset(at0 + 0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(at0 + 0))?; s.tuple_value_begin(None, &offset(at0 + 1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(at0 + 1))?; s.tuple_end(None, Some(&ident("S039")), None)?; }
        40 => { s.tuple_begin(None, Some(&ident("S040")), None, Some(3))?; s.tuple_value_begin(Some(&TAG_B), &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S040")), None)?; }
        41 => { s.tuple_begin(None, Some(&ident("S041")), None, Some(3))?; s.tuple_value_begin(None, &given(5))?; s.value(&f[0])?; s.tuple_value_end(None, &given(5))?; s.tuple_value_begin(None, &given(6))?; s.value(&f[1])?; s.tuple_value_end(None, &given(6))?; s.tuple_value_begin(None, &given(7))?; s.value(&f[2])?; s.tuple_value_end(None, &given(7))?; s.tuple_end(None, Some(&ident("S041")), None)?; }
        42 => { s.tuple_begin(None, Some(&ident("S042")), Some(&given(1)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S042")), Some(&given(1)))?; }
        43 => { s.tuple_begin(None, Some(&ident("S043")), None, None)?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; let at1 = sval_flatten::flatten_to_tuple(&mut *s, &f[1], 1)?; s.tuple_value_begin(None, &offset(at1 + 0))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(at1 + 0))?; s.tuple_end(None, Some(&ident("S043")), None)?; }
        44 => { s.tuple_begin(None, Some(&ident("S044")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(Some(&TAG_B), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S044")), None)?; }
        45 => { s.tuple_begin(None, Some(&ident("S045")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &given(-2))?; s.value(&f[1])?; s.tuple_value_end(None, &given(-2))?; s.tuple_value_begin(None, &given(-1))?; s.value(&f[2])?; s.tuple_value_end(None, &given(-1))?; s.tuple_end(None, Some(&ident("S045")), None)?; }
        46 => { s.tuple_begin(None, Some(&ident("S046")), Some(&given(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S046")), Some(&given(2)))?; }
        47 => { s.tuple_begin(None, Some(&ident("S047")), None, None)?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; let at2 = sval_flatten::flatten_to_tuple(&mut *s, &f[2], 2)?; s.tuple_end(None, Some(&ident("S047")), None)?; }
        48 => { s.tuple_begin(None, Some(&ident("S048")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(Some(&TAG_B), &offset(2))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(2))?; s.tuple_end(None, Some(&ident("S048")), None)?; }
        49 => { s.tuple_begin(None, Some(&ident("S049")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &given(0))?; s.value(&f[2])?; s.tuple_value_end(None, &given(0))?; s.tuple_end(None, Some(&ident("S049")), None)?; }
        50 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S050")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(Some(&TAG_A), Some(&ident("S050")), None)?; }
        51 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S051")), Some(&given(0)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(Some(&TAG_A), Some(&ident("S051")), Some(&given(0)))?; }
        52 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S052")), Some(&given(1)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(Some(&TAG_A), Some(&ident("S052")), Some(&given(1)))?; }
        53 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S053")), Some(&given(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(Some(&TAG_A), Some(&ident("S053")), Some(&given(2)))?; }
        54 => { s.tagged_begin(None, Some(&ident("S054")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S054")), None)?; }
        55 => { s.tagged_begin(None, Some(&ident("S055")), Some(&given(0)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S055")), Some(&given(0)))?; }
        56 => { s.tagged_begin(None, Some(&ident("S056")), None)?; s.seq_begin(None)?; sval_flatten::flatten_to_seq(&mut *s, &f[0])?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S056")), None)?; }
        57 => { s.tagged_begin(None, Some(&ident("S057")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S057")), None)?; }
        58 => { s.tagged_begin(None, Some(&ident("S058")), Some(&given(1)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S058")), Some(&given(1)))?; }
        59 => { s.tagged_begin(None, Some(&ident("S059")), None)?; s.seq_begin(None)?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *s, &f[1])?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S059")), None)?; }
        60 => { s.tagged_begin(None, Some(&ident("S060")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S060")), None)?; }
        61 => { s.tagged_begin(None, Some(&ident("S061")), Some(&given(2)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S061")), Some(&given(2)))?; }
        62 => { s.tagged_begin(None, Some(&ident("S062")), None)?; s.seq_begin(None)?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *s, &f[2])?; s.seq_end()?; s.tagged_end(None, Some(&ident("S062")), None)?; }
        63 => { s.tagged_begin(None, Some(&ident("S063")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S063")), None)?; }
        64 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S064")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S064")), None)?; }
        65 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S065")), Some(&given(0)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S065")), Some(&given(0)))?; }
        66 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S066")), Some(&given(1)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S066")), Some(&given(1)))?; }
        67 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S067")), Some(&given(2)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S067")), Some(&given(2)))?; }
        68 => { s.tuple_begin(None, Some(&ident("S068")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S068")), None)?; }
        69 => { s.tuple_begin(None, Some(&ident("S069")), Some(&given(0)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S069")), Some(&given(0)))?; }
        70 => { s.tuple_begin(None, Some(&ident("S070")), None, None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(None, &offset(at0 + 0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(at0 + 0))?; s.tuple_value_begin(None, &offset(at0 + 1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(at0 + 1))?; s.tuple_end(None, Some(&ident("S070")), None)?; }
        71 => { s.tuple_begin(None, Some(&ident("S071")), None, Some(3))?; s.tuple_value_begin(Some(&TAG_B), &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S071")), None)?; }
        72 => { s.tuple_begin(None, Some(&ident("S072")), None, Some(3))?; s.tuple_value_begin(None, &given(5))?; s.value(&f[0])?; s.tuple_value_end(None, &given(5))?; s.tuple_value_begin(None, &given(6))?; s.value(&f[1])?; s.tuple_value_end(None, &given(6))?; s.tuple_value_begin(None, &given(7))?; s.value(&f[2])?; s.tuple_value_end(None, &given(7))?; s.tuple_end(None, Some(&ident("S072")), None)?; }
        73 => { s.tuple_begin(None, Some(&ident("S073")), Some(&given(1)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S073")), Some(&given(1)))?; }
        74 => { s.tuple_begin(None, Some(&ident("S074")), None, None)?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; let at1 = sval_flatten::flatten_to_tuple(&mut *s, &f[1], 1)?; s.tuple_value_begin(None, &offset(at1 + 0))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(at1 + 0))?; s.tuple_end(None, Some(&ident("S074")), None)?; }
        75 => { s.tuple_begin(None, Some(&ident("S075")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(Some(&TAG_B), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S075")), None)?; }
        76 => { s.tuple_begin(None, Some(&ident("S076")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &given(-2))?; s.value(&f[1])?; s.tuple_value_end(None, &given(-2))?; s.tuple_value_begin(None, &given(-1))?; s.value(&f[2])?; s.tuple_value_end(None, &given(-1))?; s.tuple_end(None, Some(&ident("S076")), None)?; }
        77 => { s.tuple_begin(None, Some(&ident("S077")), Some(&given(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S077")), Some(&given(2)))?; }
        78 => { s.tuple_begin(None, Some(&ident("S078")), None, None)?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; let at2 = sval_flatten::flatten_to_tuple(&mut *s, &f[2], 2)?; s.tuple_end(None, Some(&ident("S078")), None)?; }
        79 => { s.tuple_begin(None, Some(&ident("S079")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(Some(&TAG_B), &offset(2))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(2))?; s.tuple_end(None, Some(&ident("S079")), None)?; }
        80 => { s.tuple_begin(None, Some(&ident("S080")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &given(0))?; s.value(&f[2])?; s.tuple_value_end(None, &given(0))?; s.tuple_end(None, Some(&ident("S080")), None)?; }
        81 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S081")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(Some(&TAG_A), Some(&ident("S081")), None)?; }
        82 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S082")), Some(&given(0)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(Some(&TAG_A), Some(&ident("S082")), Some(&given(0)))?; }
        83 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S083")), Some(&given(1)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(Some(&TAG_A), Some(&ident("S083")), Some(&given(1)))?; }
        84 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S084")), Some(&given(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(Some(&TAG_A), Some(&ident("S084")), Some(&given(2)))?; }
        85 => { s.tagged_begin(None, Some(&ident("S085")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S085")), None)?; }
        86 => { s.tagged_begin(None, Some(&ident("S086")), Some(&given(0)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S086")), Some(&given(0)))?; }
        87 => { s.tagged_begin(None, Some(&ident("S087")), None)?; s.seq_begin(None)?; sval_flatten::flatten_to_seq(&mut *s, &f[0])?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S087")), None)?; }
        88 => { s.tagged_begin(None, Some(&ident("S088")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S088")), None)?; }
        89 => { s.tagged_begin(None, Some(&ident("S089")), Some(&given(1)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S089")), Some(&given(1)))?; }
        90 => { s.tagged_begin(None, Some(&ident("S090")), None)?; s.seq_begin(None)?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *s, &f[1])?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S090")), None)?; }
        91 => { s.tagged_begin(None, Some(&ident("S091")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S091")), None)?; }
        92 => { s.tagged_begin(None, Some(&ident("S092")), Some(&given(2)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S092")), Some(&given(2)))?; }
        93 => { s.tagged_begin(None, Some(&ident("S093")), None)?; s.seq_begin(None)?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *s, &f[2])?; s.seq_end()?; s.tagged_end(None, Some(&ident("S093")), None)?; }
        94 => { s.tagged_begin(None, Some(&ident("S094")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S094")), None)?; }
        95 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S095")), None)?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S095")), None)?; }
        96 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S096")), Some(&given(0)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S096")), Some(&given(0)))?; }
        97 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S097")), Some(&given(1)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S097")), Some(&given(1)))?; }
        98 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S098")), Some(&given(2)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S098")), Some(&given(2)))?; }
        99 => { s.record_tuple_begin(None, Some(&ident("S099")), None, Some(0))?; s.record_tuple_end(None, Some(&ident("S099")), None)?; }
        100 => { s.tuple_begin(None, Some(&ident("S100")), None, Some(0))?; s.tuple_end(None, Some(&ident("S100")), None)?; }
        101 => { s.record_tuple_begin(Some(&TAG_B), Some(&text("none")), Some(&given(2)), Some(0))?; s.record_tuple_end(Some(&TAG_B), Some(&text("none")), Some(&given(2)))?; }
        102 => { s.record_begin(None, Some(&ident("S102")), None, None)?; s.record_value_begin(Some(&TAG_A), &ident("f0"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(Some(&TAG_A), &ident("f0"))?; let at1 = sval_flatten::flatten_to_record(&mut *s, &f[1], 0)?; s.record_end(None, Some(&ident("S102")), None)?; }
        103 => { s.record_begin(Some(&TAG_A), Some(&ident("S103")), Some(&given(1)), None)?; s.record_value_begin(None, &ident("f1"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(None, &ident("f1"))?; let at2 = sval_flatten::flatten_to_record(&mut *s, &f[2], 0)?; let at4 = sval_flatten::flatten_to_record(&mut *s, &f[4], at2 + 0)?; s.record_end(Some(&TAG_A), Some(&ident("S103")), Some(&given(1)))?; }
        104 => { s.record_begin(None, Some(&ident("S104")), None, Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_end(None, Some(&ident("S104")), None)?; }
        105 => { s.record_begin(None, Some(&ident("S105")), None, Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(Some(&TAG_B), &ident("f2"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(Some(&TAG_B), &ident("f2"))?; s.record_end(None, Some(&ident("S105")), None)?; }
        106 => { s.record_tuple_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), None, Some(1))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(0))?; s.record_tuple_end(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; }
        107 => { s.record_begin(None, Some(&ident("S107")), None, None)?; s.record_value_begin(None, &text("constant label"))?; s.value(&f[0])?; s.record_value_end(None, &text("constant label"))?; let at1 = sval_flatten::flatten_to_record(&mut *s, &f[1], 0)?; s.record_end(None, Some(&ident("S107")), None)?; }
        108 => { s.record_tuple_begin(None, Some(&ident("S108")), None, Some(2))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("S108")), None)?; }
        109 => { s.record_begin(None, Some(&text("with \"quotes\"")), Some(&given(2147483647)), None)?; let at0 = sval_flatten::flatten_to_record(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_record(&mut *s, &f[1], at0 + 0)?; let at2 = sval_flatten::flatten_to_record(&mut *s, &f[2], at1 + 0)?; s.record_end(None, Some(&text("with \"quotes\"")), Some(&given(2147483647)))?; }
        110 => { s.record_tuple_begin(Some(&TAG_B), Some(&text("constant label")), None, Some(2))?; s.record_tuple_value_begin(Some(&TAG_B), &text("first"), &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_B), &text("first"), &offset(0))?; s.record_tuple_value_begin(None, &text("second label"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("second label"), &offset(1))?; s.record_tuple_end(Some(&TAG_B), Some(&text("constant label")), None)?; }
        111 => { s.tuple_begin(Some(&TAG_B), Some(&ident("S111")), None, Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(Some(&TAG_A), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_A), &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[3])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(Some(&TAG_B), Some(&ident("S111")), None)?; }
        112 => { s.tuple_begin(None, Some(&text("constant label")), Some(&given(7)), None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(None, &offset(at0 + 0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(None, &offset(at0 + 0))?; s.tuple_value_begin(None, &offset(at0 + 1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(None, &offset(at0 + 1))?; s.tuple_end(None, Some(&text("constant label")), Some(&given(7)))?; }
        113 => { s.tuple_begin(None, Some(&text("constant label")), Some(&given(0)), None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(None, &offset(at0 + 0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[3])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &offset(at0 + 0))?; s.tuple_value_begin(None, &offset(at0 + 1))?; s.value(&f[4])?; s.tuple_value_end(None, &offset(at0 + 1))?; s.tuple_end(None, Some(&text("constant label")), Some(&given(0)))?; }
        114 => { s.tuple_begin(None, Some(&ident("S114")), Some(&given(7)), Some(2))?; s.tuple_value_begin(Some(&TAG_B), &offset(0))?; s.value(&f[0])?; s.tuple_value_end(Some(&TAG_B), &offset(0))?; s.tuple_value_begin(Some(&TAG_B), &offset(1))?; s.value(&f[2])?; s.tuple_value_end(Some(&TAG_B), &offset(1))?; s.tuple_end(None, Some(&ident("S114")), Some(&given(7)))?; }
        115 => { s.record_begin(Some(&TAG_A), Some(&ident("S115")), Some(&given(-300)), Some(2))?; s.record_value_begin(Some(&TAG_B), &ident("f0"))?; s.value(&f[0])?; s.record_value_end(Some(&TAG_B), &ident("f0"))?; s.record_value_begin(None, &text("constant label"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(None, &text("constant label"))?; s.record_end(Some(&TAG_A), Some(&ident("S115")), Some(&given(-300)))?; }
        116 => { s.record_begin(None, Some(&text("renamed")), None, Some(4))?; s.record_value_begin(Some(&TAG_A), &ident("f0"))?; s.value(&f[0])?; s.record_value_end(Some(&TAG_A), &ident("f0"))?; s.record_value_begin(None, &text("second label"))?; s.value(&f[2])?; s.record_value_end(None, &text("second label"))?; s.record_value_begin(None, &ident("f3"))?; s.value(&f[3])?; s.record_value_end(None, &ident("f3"))?; s.record_value_begin(None, &text("constant label"))?; s.value(&f[4])?; s.record_value_end(None, &text("constant label"))?; s.record_end(None, Some(&text("renamed")), None)?; }
        117 => { s.tuple_begin(None, Some(&ident("S117")), Some(&given(-300)), Some(3))?; s.tuple_value_begin(Some(&TAG_A), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(Some(&TAG_A), &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("S117")), Some(&given(-300)))?; }
        118 => { s.tuple_begin(None, Some(&text("renamed")), None, Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&text("renamed")), None)?; }
        119 => { s.tuple_begin(None, Some(&ident("S119")), Some(&given(1)), None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(Some(&TAG_B), &offset(at0 + 0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(at0 + 0))?; s.tuple_end(None, Some(&ident("S119")), Some(&given(1)))?; }
        120 => { s.tuple_begin(None, Some(&ident("S120")), Some(&given(-300)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S120")), Some(&given(-300)))?; }
        121 => { s.tagged_begin(None, Some(&text("renamed")), Some(&given(-300)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&text("renamed")), Some(&given(-300)))?; }
        122 => { s.tagged_begin(None, Some(&ident("S122")), None)?; s.seq_begin(None)?; sval_flatten::flatten_to_seq(&mut *s, &f[0])?; sval_flatten::flatten_to_seq(&mut *s, &f[1])?; s.seq_end()?; s.tagged_end(None, Some(&ident("S122")), None)?; }
        123 => { s.tagged_begin(Some(&TAG_B), Some(&text("with \"quotes\"")), None)?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_B), Some(&text("with \"quotes\"")), None)?; }
        124 => { s.tagged_begin(None, Some(&text("with \"quotes\"")), None)?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&text("with \"quotes\"")), None)?; }
        125 => { s.tuple_begin(None, Some(&ident("S125")), None, Some(2))?; s.tuple_value_begin(Some(&TAG_B), &offset(0))?; s.value(&f[0])?; s.tuple_value_end(Some(&TAG_B), &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("S125")), None)?; }
        126 => { s.record_tuple_begin(None, Some(&ident("S126")), Some(&given(7)), Some(2))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f0"), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(Some(&TAG_A), &ident("f0"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f1"), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_A), &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("S126")), Some(&given(7)))?; }
        127 => { s.tuple_begin(None, Some(&ident("S127")), Some(&given(7)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(Some(&TAG_A), &offset(1))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(Some(&TAG_A), &offset(1))?; s.tuple_end(None, Some(&ident("S127")), Some(&given(7)))?; }
        128 => { s.record_tuple_begin(None, Some(&ident("S128")), Some(&given(2147483647)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &given(70))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &given(70))?; s.record_tuple_value_begin(None, &text("first"), &given(-4))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("first"), &given(-4))?; s.record_tuple_end(None, Some(&ident("S128")), Some(&given(2147483647)))?; }
        129 => { s.tagged_begin(Some(&TAG_A), Some(&ident("S129")), Some(&given(0)))?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("S129")), Some(&given(0)))?; }
        130 => { s.tuple_begin(Some(&TAG_A), Some(&text("constant label")), None, Some(1))?; s.tuple_value_begin(Some(&TAG_A), &offset(0))?; s.value(&f[1])?; s.tuple_value_end(Some(&TAG_A), &offset(0))?; s.tuple_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        131 => { s.record_tuple_begin(None, Some(&text("constant label")), None, None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], at0 + 0)?; let at2 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[2], at1 + 0)?; let at3 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[3], at2 + 0)?; s.record_tuple_end(None, Some(&text("constant label")), None)?; }
        132 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S132")), None, Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &given(40))?; s.value(&f[1])?; s.tuple_value_end(None, &given(40))?; s.tuple_end(Some(&TAG_A), Some(&ident("S132")), None)?; }
        133 => { s.tuple_begin(None, Some(&ident("S133")), None, None)?; let at1 = sval_flatten::flatten_to_tuple(&mut *s, &f[1], 0)?; s.tuple_end(None, Some(&ident("S133")), None)?; }
        134 => { s.tuple_begin(None, Some(&ident("S134")), None, Some(1))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_end(None, Some(&ident("S134")), None)?; }
        135 => { s.record_begin(Some(&TAG_A), Some(&ident("S135")), None, Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_end(Some(&TAG_A), Some(&ident("S135")), None)?; }
        136 => { s.record_begin(None, Some(&ident("S136")), None, None)?; let at0 = sval_flatten::flatten_to_record(&mut *s, &f[0], 0)?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(Some(&TAG_A), &ident("f2"))?; s.value(&f[2])?; s.record_value_end(Some(&TAG_A), &ident("f2"))?; s.record_end(None, Some(&ident("S136")), None)?; }
        137 => { s.record_tuple_begin(Some(&TAG_A), Some(&ident("S137")), None, Some(1))?; s.record_tuple_value_begin(None, &text("second label"), &offset(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("second label"), &offset(0))?; s.record_tuple_end(Some(&TAG_A), Some(&ident("S137")), None)?; }
        138 => { s.tagged_begin(None, Some(&ident("S138")), None)?; s.seq_begin(Some(1))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("S138")), None)?; }
        139 => { s.record_tuple_begin(Some(&TAG_A), Some(&ident("S139")), None, Some(2))?; s.record_tuple_value_begin(Some(&TAG_A), &text("constant label"), &given(-4))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_A), &text("constant label"), &given(-4))?; s.record_tuple_value_begin(None, &ident("f2"), &given(-3))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(None, &ident("f2"), &given(-3))?; s.record_tuple_end(Some(&TAG_A), Some(&ident("S139")), None)?; }
        140 => { s.record_begin(None, Some(&ident("S140")), None, Some(3))?; s.record_value_begin(Some(&TAG_A), &text("second label"))?; s.value(&f[0])?; s.record_value_end(Some(&TAG_A), &text("second label"))?; s.record_value_begin(Some(&TAG_A), &text("second label"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(Some(&TAG_A), &text("second label"))?; s.record_value_begin(None, &ident("f2"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, Some(&ident("S140")), None)?; }
        141 => { s.tuple_begin(Some(&TAG_A), Some(&ident("S141")), None, None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_tuple(&mut *s, &f[1], at0 + 0)?; let at2 = sval_flatten::flatten_to_tuple(&mut *s, &f[2], at1 + 0)?; let at3 = sval_flatten::flatten_to_tuple(&mut *s, &f[3], at2 + 0)?; s.tuple_end(Some(&TAG_A), Some(&ident("S141")), None)?; }
        142 => { s.record_begin(None, Some(&ident("S142")), Some(&given(-300)), Some(2))?; s.record_value_begin(None, &text("first"))?; s.value(&f[0])?; s.record_value_end(None, &text("first"))?; s.record_value_begin(None, &ident("f1"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(None, &ident("f1"))?; s.record_end(None, Some(&ident("S142")), Some(&given(-300)))?; }
        143 => { s.record_tuple_begin(None, Some(&ident("S143")), None, Some(3))?; s.record_tuple_value_begin(Some(&TAG_A), &text("first"), &given(70))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_A), &text("first"), &given(70))?; s.record_tuple_value_begin(None, &text("constant label"), &given(71))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("constant label"), &given(71))?; s.record_tuple_value_begin(None, &text("constant label"), &given(70))?; s.value(&f[2])?; s.record_tuple_value_end(None, &text("constant label"), &given(70))?; s.record_tuple_end(None, Some(&ident("S143")), None)?; }
        144 => { s.record_tuple_begin(Some(&TAG_B), Some(&text("with \"quotes\"")), None, Some(3))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_A), &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(Some(&TAG_A), &text("constant label"), &offset(2))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(Some(&TAG_A), &text("constant label"), &offset(2))?; s.record_tuple_end(Some(&TAG_B), Some(&text("with \"quotes\"")), None)?; }
        145 => { s.record_tuple_begin(Some(&TAG_B), Some(&text("constant label")), None, None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], at0 + 0)?; s.record_tuple_end(Some(&TAG_B), Some(&text("constant label")), None)?; }
        146 => { s.record_tuple_begin(Some(&TAG_B), Some(&ident("S146")), None, Some(1))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f0"), &offset(0))?; s.record_tuple_end(Some(&TAG_B), Some(&ident("S146")), None)?; }
        147 => { s.tagged_begin(Some(&TAG_B), Some(&ident("S147")), None)?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_B), Some(&ident("S147")), None)?; }
        148 => { s.record_tuple_begin(Some(&TAG_A), Some(&text("constant label")), Some(&given(-1)), None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], at0 + 0)?; s.record_tuple_end(Some(&TAG_A), Some(&text("constant label")), Some(&given(-1)))?; }
        149 => { s.tagged_begin(Some(&TAG_B), Some(&text("constant label")), Some(&given(0)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_B), Some(&text("constant label")), Some(&given(0)))?; }
        150 => { s.record_tuple_begin(None, Some(&text("with \"quotes\"")), None, Some(2))?; s.record_tuple_value_begin(None, &text("first"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("first"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&text("with \"quotes\"")), None)?; }
        151 => { s.record_begin(None, Some(&ident("S151")), None, None)?; let at0 = sval_flatten::flatten_to_record(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_record(&mut *s, &f[1], at0 + 0)?; let at2 = sval_flatten::flatten_to_record(&mut *s, &f[2], at1 + 0)?; s.record_end(None, Some(&ident("S151")), None)?; }
        152 => { s.record_tuple_begin(Some(&TAG_B), Some(&ident("S152")), None, Some(3))?; s.record_tuple_value_begin(Some(&TAG_A), &text("constant label"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_A), &text("constant label"), &offset(0))?; s.record_tuple_value_begin(None, &text("constant label"), &given(70))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("constant label"), &given(70))?; s.record_tuple_value_begin(None, &ident("f2"), &given(70))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &given(70))?; s.record_tuple_end(Some(&TAG_B), Some(&ident("S152")), None)?; }
        153 => { s.tuple_begin(None, Some(&ident("S153")), None, None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_tuple(&mut *s, &f[1], at0 + 0)?; s.tuple_end(None, Some(&ident("S153")), None)?; }
        154 => { s.record_begin(Some(&TAG_A), Some(&ident("S154")), Some(&given(2147483647)), None)?; s.record_value_begin(Some(&TAG_A), &ident("f0"))?; s.value(&f[0])?; s.record_value_end(Some(&TAG_A), &ident("f0"))?; let at2 = sval_flatten::flatten_to_record(&mut *s, &f[2], 0)?; s.record_end(Some(&TAG_A), Some(&ident("S154")), Some(&given(2147483647)))?; }
        155 => { s.record_tuple_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), None, None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; s.record_tuple_value_begin(None, &text("second label"), &offset(at0 + 0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("second label"), &offset(at0 + 0))?; let at2 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[2], at0 + 1)?; s.record_tuple_end(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; }
        156 => { s.tuple_begin(None, Some(&ident("S156")), None, Some(1))?; s.tuple_value_begin(None, &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &offset(0))?; s.tuple_end(None, Some(&ident("S156")), None)?; }
        157 => { s.record_tuple_begin(None, Some(&ident("S157")), None, Some(3))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_A), &ident("f0"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&ident("S157")), None)?; }
        158 => { s.tagged_begin(None, Some(&text("with \"quotes\"")), Some(&given(-300)))?; s.seq_begin(Some(3))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&text("with \"quotes\"")), Some(&given(-300)))?; }
        159 => { s.tuple_begin(None, Some(&ident("S159")), Some(&given(1)), Some(1))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_end(None, Some(&ident("S159")), Some(&given(1)))?; }
        160 => { s.record_tuple_begin(None, Some(&text("constant label")), Some(&given(-1)), Some(1))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(0))?; s.record_tuple_end(None, Some(&text("constant label")), Some(&given(-1)))?; }
        161 => { s.record_begin(None, Some(&ident("S161")), None, Some(2))?; s.record_value_begin(Some(&TAG_A), &ident("f0"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(Some(&TAG_A), &ident("f0"))?; s.record_value_begin(None, &text("second label"))?; s.value(&f[2])?; s.record_value_end(None, &text("second label"))?; s.record_end(None, Some(&ident("S161")), None)?; }
        162 => { s.tagged_begin(Some(&TAG_B), Some(&text("with \"quotes\"")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&text("with \"quotes\"")), None)?; }
        163 => { s.tag(None, Some(&text("constant label")), Some(&given(2147483647)))?; }
        164 => { s.tagged_begin(Some(&TAG_B), Some(&ident("S164")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&ident("S164")), None)?; }
        165 => { s.tag(Some(&TAG_A), Some(&ident("S165")), None)?; }
        166 => { s.tagged_begin(Some(&TAG_B), Some(&ident("S166")), Some(&given(-300)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&ident("S166")), Some(&given(-300)))?; }
        167 => { s.tag(None, Some(&ident("S167")), Some(&given(40)))?; }
        168 => { s.tagged_begin(None, Some(&ident("S168")), None)?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("S168")), None)?; }
        169 => { s.tag(None, Some(&text("renamed")), Some(&given(0)))?; }
        170 => { s.tagged_begin(Some(&TAG_A), Some(&text("renamed")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&text("renamed")), None)?; }
        171 => { s.tag(Some(&TAG_B), Some(&text("renamed")), None)?; }
        172 => { s.tagged_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; }
        173 => { s.tag(Some(&TAG_A), Some(&text("renamed")), Some(&given(0)))?; }
        174 => { s.tagged_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), Some(&given(7)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&text("with \"quotes\"")), Some(&given(7)))?; }
        175 => { s.tag(Some(&TAG_B), Some(&ident("S175")), None)?; }
        176 => { s.tagged_begin(Some(&TAG_B), Some(&ident("S176")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&ident("S176")), None)?; }
        177 => { s.tag(None, Some(&text("with \"quotes\"")), None)?; }
        178 => { s.tagged_begin(None, Some(&ident("S178")), None)?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("S178")), None)?; }
        179 => { s.tag(None, Some(&ident("S179")), None)?; }
        180 => { s.value(&f[0])?; }
        181 => { s.enum_begin(None, Some(&ident("E000")), None)?; s.tag(None, Some(&ident("V0")), Some(&offset(0)))?; s.enum_end(None, Some(&ident("E000")), None)?; }
        182 => { s.enum_begin(None, Some(&ident("E000")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&offset(1)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), Some(&offset(1)))?; s.enum_end(None, Some(&ident("E000")), None)?; }
        183 => { s.enum_begin(None, Some(&ident("E000")), None)?; s.tuple_begin(None, Some(&ident("V2")), Some(&offset(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V2")), Some(&offset(2)))?; s.enum_end(None, Some(&ident("E000")), None)?; }
        184 => { s.enum_begin(None, Some(&ident("E000")), None)?; s.record_tuple_begin(None, Some(&ident("V3")), Some(&offset(3)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V3")), Some(&offset(3)))?; s.enum_end(None, Some(&ident("E000")), None)?; }
        185 => { s.enum_begin(None, Some(&ident("E000")), None)?; s.tag(None, Some(&ident("V4")), Some(&offset(4)))?; s.enum_end(None, Some(&ident("E000")), None)?; }
        186 => { s.enum_begin(None, Some(&ident("E001")), None)?; s.tag(None, None, Some(&offset(0)))?; s.enum_end(None, Some(&ident("E001")), None)?; }
        187 => { s.enum_begin(None, Some(&ident("E001")), None)?; s.tagged_begin(None, None, Some(&offset(1)))?; s.value(&f[0])?; s.tagged_end(None, None, Some(&offset(1)))?; s.enum_end(None, Some(&ident("E001")), None)?; }
        188 => { s.enum_begin(None, Some(&ident("E001")), None)?; s.tuple_begin(None, None, Some(&offset(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, None, Some(&offset(2)))?; s.enum_end(None, Some(&ident("E001")), None)?; }
        189 => { s.enum_begin(None, Some(&ident("E001")), None)?; s.record_tuple_begin(None, None, Some(&offset(3)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, None, Some(&offset(3)))?; s.enum_end(None, Some(&ident("E001")), None)?; }
        190 => { s.enum_begin(None, Some(&ident("E001")), None)?; s.tag(None, None, Some(&offset(4)))?; s.enum_end(None, Some(&ident("E001")), None)?; }
        191 => { s.enum_begin(None, Some(&ident("E002")), None)?; s.tag(None, Some(&ident("V0")), None)?; s.enum_end(None, Some(&ident("E002")), None)?; }
        192 => { s.enum_begin(None, Some(&ident("E002")), None)?; s.tagged_begin(None, Some(&ident("V1")), None)?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), None)?; s.enum_end(None, Some(&ident("E002")), None)?; }
        193 => { s.enum_begin(None, Some(&ident("E002")), None)?; s.tuple_begin(None, Some(&ident("V2")), None, Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V2")), None)?; s.enum_end(None, Some(&ident("E002")), None)?; }
        194 => { s.enum_begin(None, Some(&ident("E002")), None)?; s.record_tuple_begin(None, Some(&ident("V3")), None, Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V3")), None)?; s.enum_end(None, Some(&ident("E002")), None)?; }
        195 => { s.enum_begin(None, Some(&ident("E002")), None)?; s.tag(None, Some(&ident("V4")), None)?; s.enum_end(None, Some(&ident("E002")), None)?; }
        196 => { s.enum_begin(None, Some(&ident("E003")), None)?; s.tag(None, None, None)?; s.enum_end(None, Some(&ident("E003")), None)?; }
        197 => { s.enum_begin(None, Some(&ident("E003")), None)?; s.tagged_begin(None, None, None)?; s.value(&f[0])?; s.tagged_end(None, None, None)?; s.enum_end(None, Some(&ident("E003")), None)?; }
        198 => { s.enum_begin(None, Some(&ident("E003")), None)?; s.tuple_begin(None, None, None, Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, None, None)?; s.enum_end(None, Some(&ident("E003")), None)?; }
        199 => { s.enum_begin(None, Some(&ident("E003")), None)?; s.record_tuple_begin(None, None, None, Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, None, None)?; s.enum_end(None, Some(&ident("E003")), None)?; }
        200 => { s.enum_begin(None, Some(&ident("E003")), None)?; s.tag(None, None, None)?; s.enum_end(None, Some(&ident("E003")), None)?; }
        201 => { s.tag(None, Some(&ident("V0")), None)?; }
        202 => { s.value(&f[0])?; }
        203 => { s.tuple_begin(None, None, None, Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, None, None)?; }
        204 => { s.record_tuple_begin(None, None, None, Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, None, None)?; }
        205 => { s.tag(None, Some(&ident("V4")), None)?; }
        206 => { s.enum_begin(None, Some(&ident("E005")), None)?; s.tag(None, Some(&ident("V0")), Some(&given(5)))?; s.enum_end(None, Some(&ident("E005")), None)?; }
        207 => { s.enum_begin(None, Some(&ident("E005")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&given(6)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), Some(&given(6)))?; s.enum_end(None, Some(&ident("E005")), None)?; }
        208 => { s.enum_begin(None, Some(&ident("E005")), None)?; s.tuple_begin(None, Some(&ident("V2")), Some(&given(7)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V2")), Some(&given(7)))?; s.enum_end(None, Some(&ident("E005")), None)?; }
        209 => { s.enum_begin(None, Some(&ident("E005")), None)?; s.record_tuple_begin(None, Some(&ident("V3")), Some(&given(-3)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V3")), Some(&given(-3)))?; s.enum_end(None, Some(&ident("E005")), None)?; }
        210 => { s.enum_begin(None, Some(&ident("E005")), None)?; s.tag(None, Some(&ident("V4")), Some(&given(-2)))?; s.enum_end(None, Some(&ident("E005")), None)?; }
        211 => { s.enum_begin(None, Some(&ident("E006")), None)?; s.tag(None, Some(&ident("V0")), Some(&offset(0)))?; s.enum_end(None, Some(&ident("E006")), None)?; }
        212 => { s.enum_begin(None, Some(&ident("E006")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&given(10)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), Some(&given(10)))?; s.enum_end(None, Some(&ident("E006")), None)?; }
        213 => { s.enum_begin(None, Some(&ident("E006")), None)?; s.tuple_begin(None, Some(&ident("V2")), Some(&given(11)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V2")), Some(&given(11)))?; s.enum_end(None, Some(&ident("E006")), None)?; }
        214 => { s.enum_begin(None, Some(&ident("E006")), None)?; s.record_tuple_begin(None, Some(&ident("V3")), Some(&given(2)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V3")), Some(&given(2)))?; s.enum_end(None, Some(&ident("E006")), None)?; }
        215 => { s.enum_begin(None, Some(&ident("E006")), None)?; s.tag(None, Some(&ident("V4")), Some(&given(3)))?; s.enum_end(None, Some(&ident("E006")), None)?; }
        216 => { s.enum_begin(None, Some(&ident("E007")), None)?; s.tag(None, Some(&ident("V0")), Some(&offset(0)))?; s.enum_end(None, Some(&ident("E007")), None)?; }
        217 => { s.enum_begin(None, Some(&ident("E007")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&offset(1)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), Some(&offset(1)))?; s.enum_end(None, Some(&ident("E007")), None)?; }
        218 => { s.enum_begin(None, Some(&ident("E007")), None)?; s.tuple_begin(None, Some(&ident("V2")), Some(&offset(2)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V2")), Some(&offset(2)))?; s.enum_end(None, Some(&ident("E007")), None)?; }
        219 => { s.enum_begin(None, Some(&ident("E007")), None)?; s.record_tuple_begin(None, Some(&ident("V3")), Some(&given(7)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V3")), Some(&given(7)))?; s.enum_end(None, Some(&ident("E007")), None)?; }
        220 => { s.enum_begin(None, Some(&ident("E007")), None)?; s.tag(None, Some(&ident("V4")), Some(&given(9)))?; s.enum_end(None, Some(&ident("E007")), None)?; }
        221 => { s.enum_begin(None, Some(&ident("E008")), None)?; s.tag(None, Some(&ident("V0")), Some(&given(-2)))?; s.enum_end(None, Some(&ident("E008")), None)?; }
        222 => { s.enum_begin(None, Some(&ident("E008")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&given(-1)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), Some(&given(-1)))?; s.enum_end(None, Some(&ident("E008")), None)?; }
        223 => { s.enum_begin(None, Some(&ident("E008")), None)?; s.tuple_begin(None, Some(&ident("V2")), Some(&given(0)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V2")), Some(&given(0)))?; s.enum_end(None, Some(&ident("E008")), None)?; }
        224 => { s.enum_begin(None, Some(&ident("E008")), None)?; s.record_tuple_begin(None, Some(&ident("V3")), Some(&given(1)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V3")), Some(&given(1)))?; s.enum_end(None, Some(&ident("E008")), None)?; }
        225 => { s.enum_begin(None, Some(&ident("E008")), None)?; s.tag(None, Some(&ident("V4")), Some(&given(2)))?; s.enum_end(None, Some(&ident("E008")), None)?; }
        226 => { s.enum_begin(None, Some(&ident("E010")), Some(&given(40)))?; s.tuple_begin(None, Some(&text("constant label")), Some(&given(-7)), Some(3))?; s.tuple_value_begin(Some(&TAG_B), &offset(0))?; s.value(&f[0])?; s.tuple_value_end(Some(&TAG_B), &offset(0))?; s.tuple_value_begin(Some(&TAG_A), &offset(1))?; s.value(&f[1])?; s.tuple_value_end(Some(&TAG_A), &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&text("constant label")), Some(&given(-7)))?; s.enum_end(None, Some(&ident("E010")), Some(&given(40)))?; }
        227 => { s.enum_begin(None, Some(&ident("E010")), Some(&given(40)))?; s.tuple_begin(None, Some(&ident("V1")), Some(&given(5)), Some(2))?; s.tuple_value_begin(None, &given(3))?; s.value(&f[0])?; s.tuple_value_end(None, &given(3))?; s.tuple_value_begin(None, &given(70))?; s.value(&f[1])?; s.tuple_value_end(None, &given(70))?; s.tuple_end(None, Some(&ident("V1")), Some(&given(5)))?; s.enum_end(None, Some(&ident("E010")), Some(&given(40)))?; }
        228 => { s.enum_begin(None, Some(&ident("E010")), Some(&given(40)))?; s.tag(None, Some(&ident("V2")), Some(&given(-7)))?; s.enum_end(None, Some(&ident("E010")), Some(&given(40)))?; }
        229 => { s.enum_begin(None, Some(&ident("E010")), Some(&given(40)))?; s.tuple_begin(None, Some(&text("renamed")), Some(&given(0)), None)?; s.tuple_value_begin(None, &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(Some(&TAG_A), &offset(1))?; s.value(&f[1])?; s.tuple_value_end(Some(&TAG_A), &offset(1))?; let at2 = sval_flatten::flatten_to_tuple(&mut *s, &f[2], 2)?; s.tuple_value_begin(None, &offset(at2 + 0))?; s.value(&f[3])?; s.tuple_value_end(None, &offset(at2 + 0))?; let at4 = sval_flatten::flatten_to_tuple(&mut *s, &f[4], at2 + 1)?; s.tuple_end(None, Some(&text("renamed")), Some(&given(0)))?; s.enum_end(None, Some(&ident("E010")), Some(&given(40)))?; }
        230 => { s.enum_begin(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; s.tagged_begin(None, Some(&text("renamed")), Some(&offset(0)))?; s.seq_begin(Some(1))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&text("renamed")), Some(&offset(0)))?; s.enum_end(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; }
        231 => { s.enum_begin(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; s.tagged_begin(None, Some(&text("renamed")), Some(&given(-10)))?; s.value(&f[0])?; s.tagged_end(None, Some(&text("renamed")), Some(&given(-10)))?; s.enum_end(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; }
        232 => { s.enum_begin(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; s.tag(Some(&TAG_A), Some(&text("constant label")), Some(&given(-9)))?; s.enum_end(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; }
        233 => { s.enum_begin(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; s.tagged_begin(None, Some(&ident("V3")), Some(&given(-20)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V3")), Some(&given(-20)))?; s.enum_end(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; }
        234 => { s.enum_begin(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; s.tag(None, Some(&text("constant label")), Some(&given(-19)))?; s.enum_end(None, Some(&text("with \"quotes\"")), Some(&given(1)))?; }
        235 => { s.enum_begin(None, Some(&ident("E012")), None)?; s.tag(None, Some(&ident("V0")), None)?; s.enum_end(None, Some(&ident("E012")), None)?; }
        236 => { s.enum_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; s.tagged_begin(Some(&TAG_B), Some(&ident("V0")), Some(&offset(0)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&ident("V0")), Some(&offset(0)))?; s.enum_end(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; }
        237 => { s.enum_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; s.tuple_begin(Some(&TAG_A), Some(&ident("V1")), Some(&offset(1)), Some(3))?; s.tuple_value_begin(None, &given(3))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.tuple_value_end(None, &given(3))?; s.tuple_value_begin(None, &given(4))?; s.value(&f[1])?; s.tuple_value_end(None, &given(4))?; s.tuple_value_begin(None, &given(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &given(0))?; s.tuple_end(Some(&TAG_A), Some(&ident("V1")), Some(&offset(1)))?; s.enum_end(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; }
        238 => { s.enum_begin(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; s.tagged_begin(None, Some(&text("renamed")), Some(&offset(2)))?; s.seq_begin(Some(1))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&text("renamed")), Some(&offset(2)))?; s.enum_end(Some(&TAG_A), Some(&text("with \"quotes\"")), None)?; }
        239 => { s.enum_begin(None, Some(&ident("E014")), Some(&given(7)))?; s.record_tuple_begin(None, Some(&ident("V0")), Some(&given(-7)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &text("constant label"), &offset(1))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(None, &text("constant label"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V0")), Some(&given(-7)))?; s.enum_end(None, Some(&ident("E014")), Some(&given(7)))?; }
        240 => { s.enum_begin(None, Some(&ident("E014")), Some(&given(7)))?; s.tag(None, Some(&text("renamed")), Some(&given(-7)))?; s.enum_end(None, Some(&ident("E014")), Some(&given(7)))?; }
        241 => { s.enum_begin(None, Some(&ident("E015")), Some(&given(40)))?; s.tagged_begin(None, Some(&text("renamed")), Some(&offset(0)))?; s.value(&f[0])?; s.tagged_end(None, Some(&text("renamed")), Some(&offset(0)))?; s.enum_end(None, Some(&ident("E015")), Some(&given(40)))?; }
        242 => { s.enum_begin(None, Some(&ident("E015")), Some(&given(40)))?; s.tagged_begin(None, Some(&ident("V1")), Some(&offset(1)))?; s.seq_begin(Some(4))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[3])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("V1")), Some(&offset(1)))?; s.enum_end(None, Some(&ident("E015")), Some(&given(40)))?; }
        243 => { s.enum_begin(None, Some(&ident("E015")), Some(&given(40)))?; s.tag(None, Some(&text("renamed")), Some(&offset(2)))?; s.enum_end(None, Some(&ident("E015")), Some(&given(40)))?; }
        244 => { s.enum_begin(Some(&TAG_B), Some(&ident("E016")), None)?; s.tagged_begin(None, Some(&text("constant label")), None)?; s.value(&f[0])?; s.tagged_end(None, Some(&text("constant label")), None)?; s.enum_end(Some(&TAG_B), Some(&ident("E016")), None)?; }
        245 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.record_tuple_begin(None, Some(&ident("V0")), Some(&given(40)), Some(2))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_B), &text("second label"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(Some(&TAG_B), &text("second label"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V0")), Some(&given(40)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        246 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.record_begin(None, Some(&ident("V1")), Some(&given(40)), Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_end(None, Some(&ident("V1")), Some(&given(40)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        247 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.tagged_begin(None, Some(&ident("V2")), Some(&given(40)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V2")), Some(&given(40)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        248 => { s.enum_begin(None, Some(&ident("E018")), Some(&given(0)))?; s.record_tuple_begin(Some(&TAG_A), None, Some(&offset(0)), None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; s.record_tuple_value_begin(None, &ident("f1"), &offset(at0 + 0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(at0 + 0))?; let at2 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[2], at0 + 1)?; s.record_tuple_value_begin(None, &ident("f4"), &offset(at2 + 0))?; s.value(&f[4])?; s.record_tuple_value_end(None, &ident("f4"), &offset(at2 + 0))?; s.record_tuple_end(Some(&TAG_A), None, Some(&offset(0)))?; s.enum_end(None, Some(&ident("E018")), Some(&given(0)))?; }
        249 => { s.enum_begin(None, Some(&ident("E018")), Some(&given(0)))?; s.record_tuple_begin(None, None, Some(&offset(1)), None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; s.record_tuple_end(None, None, Some(&offset(1)))?; s.enum_end(None, Some(&ident("E018")), Some(&given(0)))?; }
        250 => { s.enum_begin(None, Some(&ident("E018")), Some(&given(0)))?; s.tagged_begin(None, None, Some(&offset(2)))?; s.value(&f[0])?; s.tagged_end(None, None, Some(&offset(2)))?; s.enum_end(None, Some(&ident("E018")), Some(&given(0)))?; }
        251 => { s.enum_begin(None, Some(&ident("E018")), Some(&given(0)))?; s.tag(Some(&TAG_B), None, Some(&offset(3)))?; s.enum_end(None, Some(&ident("E018")), Some(&given(0)))?; }
        252 => { s.enum_begin(None, Some(&ident("E018")), Some(&given(0)))?; s.tagged_begin(Some(&TAG_B), None, Some(&offset(4)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, Some(&offset(4)))?; s.enum_end(None, Some(&ident("E018")), Some(&given(0)))?; }
        253 => { s.enum_begin(None, Some(&ident("E019")), None)?; s.tagged_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&text("constant label")), None)?; s.enum_end(None, Some(&ident("E019")), None)?; }
        254 => { s.enum_begin(None, Some(&ident("E020")), Some(&given(2147483647)))?; s.tagged_begin(None, Some(&ident("V0")), Some(&given(5)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V0")), Some(&given(5)))?; s.enum_end(None, Some(&ident("E020")), Some(&given(2147483647)))?; }
        255 => { s.enum_begin(None, Some(&ident("E020")), Some(&given(2147483647)))?; s.record_begin(None, Some(&ident("V1")), Some(&given(5)), Some(2))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &text("first"))?; s.value(&f[2])?; s.record_value_end(None, &text("first"))?; s.record_end(None, Some(&ident("V1")), Some(&given(5)))?; s.enum_end(None, Some(&ident("E020")), Some(&given(2147483647)))?; }
        256 => { s.enum_begin(None, Some(&ident("E020")), Some(&given(2147483647)))?; s.tagged_begin(Some(&TAG_A), Some(&ident("V2")), Some(&given(5)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&ident("V2")), Some(&given(5)))?; s.enum_end(None, Some(&ident("E020")), Some(&given(2147483647)))?; }
        257 => { s.enum_begin(None, Some(&ident("E020")), Some(&given(2147483647)))?; s.tag(None, Some(&text("renamed")), Some(&given(40)))?; s.enum_end(None, Some(&ident("E020")), Some(&given(2147483647)))?; }
        258 => { s.enum_begin(None, Some(&ident("E020")), Some(&given(2147483647)))?; s.record_tuple_begin(None, Some(&text("constant label")), Some(&given(0)), Some(5))?; s.record_tuple_value_begin(Some(&TAG_B), &text("second label"), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(Some(&TAG_B), &text("second label"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_B), &text("first"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(Some(&TAG_B), &text("first"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_value_begin(None, &text("second label"), &offset(3))?; s.value(&f[3])?; s.record_tuple_value_end(None, &text("second label"), &offset(3))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f4"), &offset(4))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[4])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(Some(&TAG_A), &ident("f4"), &offset(4))?; s.record_tuple_end(None, Some(&text("constant label")), Some(&given(0)))?; s.enum_end(None, Some(&ident("E020")), Some(&given(2147483647)))?; }
        259 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.tuple_begin(None, Some(&text("renamed")), Some(&given(60)), None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(None, &offset(at0 + 0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(at0 + 0))?; s.tuple_value_begin(None, &offset(at0 + 1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(at0 + 1))?; s.tuple_end(None, Some(&text("renamed")), Some(&given(60)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        260 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.tuple_begin(None, Some(&ident("V1")), Some(&given(20)), Some(2))?; s.tuple_value_begin(Some(&TAG_B), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(Some(&TAG_B), &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&ident("V1")), Some(&given(20)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        261 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.record_tuple_begin(Some(&TAG_B), Some(&text("constant label")), Some(&given(70)), Some(4))?; s.record_tuple_value_begin(None, &text("constant label"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("constant label"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(1))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &ident("f1"), &offset(1))?; s.record_tuple_value_begin(Some(&TAG_B), &text("constant label"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(Some(&TAG_B), &text("constant label"), &offset(2))?; s.record_tuple_value_begin(None, &ident("f3"), &offset(3))?; s.value(&f[3])?; s.record_tuple_value_end(None, &ident("f3"), &offset(3))?; s.record_tuple_end(Some(&TAG_B), Some(&text("constant label")), Some(&given(70)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        262 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.tuple_begin(None, Some(&ident("V3")), Some(&given(71)), Some(1))?; s.tuple_value_begin(Some(&TAG_A), &offset(0))?; s.value(&f[0])?; s.tuple_value_end(Some(&TAG_A), &offset(0))?; s.tuple_end(None, Some(&ident("V3")), Some(&given(71)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        263 => { s.enum_begin(None, Some(&ident("E022")), None)?; s.record_tuple_begin(Some(&TAG_B), Some(&ident("V0")), Some(&given(-20)), Some(3))?; s.record_tuple_value_begin(Some(&TAG_B), &text("second label"), &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_B), &text("second label"), &offset(0))?; s.record_tuple_value_begin(None, &text("first"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("first"), &offset(1))?; s.record_tuple_value_begin(None, &text("first"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &text("first"), &offset(2))?; s.record_tuple_end(Some(&TAG_B), Some(&ident("V0")), Some(&given(-20)))?; s.enum_end(None, Some(&ident("E022")), None)?; }
        264 => { s.enum_begin(None, Some(&ident("E023")), None)?; s.record_tuple_begin(Some(&TAG_B), Some(&ident("V0")), Some(&given(0)), Some(3))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f0"), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(Some(&TAG_A), &ident("f0"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_B), &text("first"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(Some(&TAG_B), &text("first"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &given(-4))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(None, &ident("f2"), &given(-4))?; s.record_tuple_end(Some(&TAG_B), Some(&ident("V0")), Some(&given(0)))?; s.enum_end(None, Some(&ident("E023")), None)?; }
        265 => { s.enum_begin(None, Some(&ident("E023")), None)?; s.tuple_begin(None, Some(&ident("V1")), Some(&given(0)), Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(1))?; s.tuple_value_begin(None, &offset(2))?; s.value(&f[3])?; s.tuple_value_end(None, &offset(2))?; s.tuple_end(None, Some(&ident("V1")), Some(&given(0)))?; s.enum_end(None, Some(&ident("E023")), None)?; }
        266 => { s.enum_begin(None, Some(&ident("E023")), None)?; s.tagged_begin(None, Some(&text("constant label")), Some(&given(40)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&text("constant label")), Some(&given(40)))?; s.enum_end(None, Some(&ident("E023")), None)?; }
        267 => { s.enum_begin(None, Some(&ident("E023")), None)?; s.tag(None, Some(&text("renamed")), Some(&given(0)))?; s.enum_end(None, Some(&ident("E023")), None)?; }
        268 => { s.enum_begin(Some(&TAG_A), Some(&ident("E024")), Some(&given(2147483647)))?; s.record_tuple_begin(None, Some(&ident("V0")), None, Some(1))?; s.record_tuple_value_begin(None, &ident("f1"), &offset(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &offset(0))?; s.record_tuple_end(None, Some(&ident("V0")), None)?; s.enum_end(Some(&TAG_A), Some(&ident("E024")), Some(&given(2147483647)))?; }
        269 => { s.enum_begin(Some(&TAG_A), Some(&ident("E024")), Some(&given(2147483647)))?; s.tagged_begin(None, Some(&text("constant label")), None)?; s.value(&f[0])?; s.tagged_end(None, Some(&text("constant label")), None)?; s.enum_end(Some(&TAG_A), Some(&ident("E024")), Some(&given(2147483647)))?; }
        270 => { s.enum_begin(Some(&TAG_A), Some(&ident("E024")), Some(&given(2147483647)))?; s.tagged_begin(None, Some(&ident("V2")), None)?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V2")), None)?; s.enum_end(Some(&TAG_A), Some(&ident("E024")), Some(&given(2147483647)))?; }
        271 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.record_tuple_begin(None, Some(&ident("V0")), Some(&offset(0)), Some(1))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_end(None, Some(&ident("V0")), Some(&offset(0)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        272 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tag(Some(&TAG_A), Some(&text("renamed")), Some(&offset(1)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        273 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tagged_begin(None, Some(&ident("V2")), Some(&offset(2)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V2")), Some(&offset(2)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        274 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tuple_begin(None, Some(&ident("V3")), Some(&offset(3)), Some(2))?; s.tuple_value_begin(Some(&TAG_B), &given(70))?; s.value(&f[0])?; s.tuple_value_end(Some(&TAG_B), &given(70))?; s.tuple_value_begin(Some(&TAG_B), &given(71))?; s.value(&f[1])?; s.tuple_value_end(Some(&TAG_B), &given(71))?; s.tuple_end(None, Some(&ident("V3")), Some(&offset(3)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        275 => { s.enum_begin(None, Some(&ident("E026")), None)?; s.record_tuple_begin(None, Some(&ident("V0")), Some(&given(-10)), Some(1))?; s.record_tuple_value_begin(None, &text("constant label"), &offset(0))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(None, &text("constant label"), &offset(0))?; s.record_tuple_end(None, Some(&ident("V0")), Some(&given(-10)))?; s.enum_end(None, Some(&ident("E026")), None)?; }
        276 => { s.enum_begin(None, Some(&ident("E026")), None)?; s.tag(Some(&TAG_B), Some(&text("constant label")), Some(&given(-9)))?; s.enum_end(None, Some(&ident("E026")), None)?; }
        277 => { s.enum_begin(None, Some(&ident("E026")), None)?; s.tuple_begin(None, Some(&ident("V2")), Some(&given(-20)), Some(1))?; s.tuple_value_begin(None, &given(70))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &given(70))?; s.tuple_end(None, Some(&ident("V2")), Some(&given(-20)))?; s.enum_end(None, Some(&ident("E026")), None)?; }
        278 => { s.tag(None, Some(&ident("V0")), None)?; }
        279 => { s.tag(None, Some(&text("renamed")), None)?; }
        280 => { s.value(&f[0])?; }
        281 => { s.tag(None, Some(&text("renamed")), None)?; }
        282 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.tag(Some(&TAG_B), Some(&ident("V0")), Some(&offset(0)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        283 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.record_tuple_begin(None, Some(&ident("V1")), Some(&offset(1)), Some(3))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f0"), &given(-4))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f0"), &given(-4))?; s.record_tuple_value_begin(None, &text("first"), &given(-3))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("first"), &given(-3))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f2"), &given(-2))?; s.value(&f[2])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f2"), &given(-2))?; s.record_tuple_end(None, Some(&ident("V1")), Some(&offset(1)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        284 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.record_begin(None, Some(&ident("V2")), Some(&offset(2)), None)?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; let at2 = sval_flatten::flatten_to_record(&mut *s, &f[2], 0)?; s.record_end(None, Some(&ident("V2")), Some(&offset(2)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        285 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.record_tuple_begin(None, Some(&text("constant label")), Some(&offset(3)), Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f4"), &offset(2))?; s.value(&f[4])?; s.record_tuple_value_end(None, &ident("f4"), &offset(2))?; s.record_tuple_end(None, Some(&text("constant label")), Some(&offset(3)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        286 => { s.enum_begin(None, Some(&text("with \"quotes\"")), None)?; s.record_tuple_begin(None, Some(&text("constant label")), Some(&given(5)), Some(2))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f0"), &given(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f0"), &given(0))?; s.record_tuple_value_begin(None, &ident("f2"), &given(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &given(1))?; s.record_tuple_end(None, Some(&text("constant label")), Some(&given(5)))?; s.enum_end(None, Some(&text("with \"quotes\"")), None)?; }
        287 => { s.enum_begin(None, Some(&ident("E030")), None)?; s.tag(None, Some(&text("renamed")), Some(&offset(0)))?; s.enum_end(None, Some(&ident("E030")), None)?; }
        288 => { s.enum_begin(None, Some(&ident("E030")), None)?; s.tagged_begin(Some(&TAG_A), Some(&text("renamed")), Some(&offset(1)))?; s.seq_begin(Some(1))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&text("renamed")), Some(&offset(1)))?; s.enum_end(None, Some(&ident("E030")), None)?; }
        289 => { s.enum_begin(None, Some(&ident("E030")), None)?; s.tagged_begin(Some(&TAG_A), Some(&text("renamed")), Some(&offset(2)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&text("renamed")), Some(&offset(2)))?; s.enum_end(None, Some(&ident("E030")), None)?; }
        290 => { s.enum_begin(Some(&TAG_B), Some(&ident("E031")), None)?; s.tuple_begin(Some(&TAG_A), Some(&ident("V0")), Some(&given(-7)), Some(1))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_end(Some(&TAG_A), Some(&ident("V0")), Some(&given(-7)))?; s.enum_end(Some(&TAG_B), Some(&ident("E031")), None)?; }
        291 => { s.enum_begin(Some(&TAG_B), Some(&ident("E031")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&given(0)))?; s.seq_begin(Some(2))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("V1")), Some(&given(0)))?; s.enum_end(Some(&TAG_B), Some(&ident("E031")), None)?; }
        292 => { s.enum_begin(Some(&TAG_B), Some(&ident("E031")), None)?; s.record_begin(None, Some(&text("renamed")), Some(&given(40)), Some(3))?; s.record_value_begin(Some(&TAG_A), &ident("f0"))?; s.value(&f[0])?; s.record_value_end(Some(&TAG_A), &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(Some(&TAG_B), &ident("f2"))?; s.value(&f[2])?; s.record_value_end(Some(&TAG_B), &ident("f2"))?; s.record_end(None, Some(&text("renamed")), Some(&given(40)))?; s.enum_end(Some(&TAG_B), Some(&ident("E031")), None)?; }
        293 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.record_tuple_begin(None, None, Some(&offset(0)), Some(2))?; s.record_tuple_value_begin(None, &text("first"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("first"), &offset(0))?; s.record_tuple_value_begin(None, &text("second label"), &offset(1))?; s.value(&f[3])?; s.record_tuple_value_end(None, &text("second label"), &offset(1))?; s.record_tuple_end(None, None, Some(&offset(0)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        294 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tag(Some(&TAG_B), None, Some(&offset(1)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        295 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.record_tuple_begin(Some(&TAG_B), None, Some(&offset(2)), None)?; s.record_tuple_value_begin(None, &text("constant label"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("constant label"), &offset(0))?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], 1)?; let at2 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[2], at1 + 0)?; s.record_tuple_end(Some(&TAG_B), None, Some(&offset(2)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        296 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.record_tuple_begin(None, None, Some(&offset(3)), Some(4))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f0"), &given(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_A), &ident("f0"), &given(0))?; s.record_tuple_value_begin(None, &ident("f1"), &given(0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &given(0))?; s.record_tuple_value_begin(None, &text("constant label"), &given(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &text("constant label"), &given(1))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f3"), &given(40))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[3])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(Some(&TAG_A), &ident("f3"), &given(40))?; s.record_tuple_end(None, None, Some(&offset(3)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        297 => { s.enum_begin(None, Some(&text("with \"quotes\"")), None)?; s.record_begin(None, None, Some(&offset(0)), Some(2))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_end(None, None, Some(&offset(0)))?; s.enum_end(None, Some(&text("with \"quotes\"")), None)?; }
        298 => { s.enum_begin(None, Some(&text("with \"quotes\"")), None)?; s.tag(None, None, Some(&offset(1)))?; s.enum_end(None, Some(&text("with \"quotes\"")), None)?; }
        299 => { s.enum_begin(None, Some(&text("with \"quotes\"")), None)?; s.tag(None, None, Some(&offset(2)))?; s.enum_end(None, Some(&text("with \"quotes\"")), None)?; }
        300 => { s.enum_begin(Some(&TAG_A), Some(&text("renamed")), None)?; s.tag(None, Some(&ident("V0")), None)?; s.enum_end(Some(&TAG_A), Some(&text("renamed")), None)?; }
        301 => { s.enum_begin(Some(&TAG_A), Some(&text("renamed")), None)?; s.tagged_begin(None, Some(&ident("V1")), None)?; s.seq_begin(Some(1))?; s.seq_value_begin()?; s.value(&f[0])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(None, Some(&ident("V1")), None)?; s.enum_end(Some(&TAG_A), Some(&text("renamed")), None)?; }
        302 => { s.enum_begin(None, Some(&ident("E035")), None)?; s.record_tuple_begin(None, Some(&text("constant label")), Some(&offset(0)), None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], at0 + 0)?; s.record_tuple_end(None, Some(&text("constant label")), Some(&offset(0)))?; s.enum_end(None, Some(&ident("E035")), None)?; }
        303 => { s.enum_begin(None, Some(&ident("E035")), None)?; s.tagged_begin(Some(&TAG_B), Some(&text("renamed")), Some(&offset(1)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&text("renamed")), Some(&offset(1)))?; s.enum_end(None, Some(&ident("E035")), None)?; }
        304 => { s.enum_begin(None, Some(&ident("E035")), None)?; s.tag(None, Some(&text("constant label")), Some(&offset(2)))?; s.enum_end(None, Some(&ident("E035")), None)?; }
        305 => { s.enum_begin(None, Some(&ident("E035")), None)?; s.tuple_begin(None, Some(&text("renamed")), Some(&offset(3)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&text("renamed")), Some(&offset(3)))?; s.enum_end(None, Some(&ident("E035")), None)?; }
        306 => { s.enum_begin(None, Some(&ident("E035")), None)?; s.record_tuple_begin(None, Some(&ident("V4")), Some(&offset(4)), Some(2))?; s.record_tuple_value_begin(Some(&TAG_B), &text("constant label"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(Some(&TAG_B), &text("constant label"), &offset(0))?; s.record_tuple_value_begin(None, &text("second label"), &offset(1))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &text("second label"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V4")), Some(&offset(4)))?; s.enum_end(None, Some(&ident("E035")), None)?; }
        307 => { s.enum_begin(None, Some(&text("renamed")), Some(&given(0)))?; s.tag(None, Some(&text("constant label")), None)?; s.enum_end(None, Some(&text("renamed")), Some(&given(0)))?; }
        308 => { s.enum_begin(None, Some(&text("renamed")), Some(&given(0)))?; s.tag(Some(&TAG_A), Some(&text("renamed")), None)?; s.enum_end(None, Some(&text("renamed")), Some(&given(0)))?; }
        309 => { s.enum_begin(None, Some(&text("renamed")), Some(&given(0)))?; s.record_tuple_begin(None, Some(&ident("V2")), None, Some(2))?; s.record_tuple_value_begin(None, &text("first"), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &text("first"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f1"), &offset(1))?; s.record_tuple_end(None, Some(&ident("V2")), None)?; s.enum_end(None, Some(&text("renamed")), Some(&given(0)))?; }
        310 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tag(None, Some(&text("renamed")), Some(&offset(0)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        311 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tuple_begin(None, Some(&ident("V1")), Some(&offset(1)), Some(3))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &given(-1))?; s.value(&f[1])?; s.tuple_value_end(None, &given(-1))?; s.tuple_value_begin(None, &given(0))?; s.value(&f[3])?; s.tuple_value_end(None, &given(0))?; s.tuple_end(None, Some(&ident("V1")), Some(&offset(1)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        312 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tag(Some(&TAG_A), Some(&ident("V2")), Some(&offset(2)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        313 => { s.enum_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.tuple_begin(None, Some(&text("renamed")), Some(&offset(3)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(None, &offset(1))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(1))?; s.tuple_end(None, Some(&text("renamed")), Some(&offset(3)))?; s.enum_end(Some(&TAG_A), Some(&text("constant label")), None)?; }
        314 => { s.enum_begin(None, Some(&ident("E038")), None)?; s.tagged_begin(Some(&TAG_A), Some(&ident("V0")), Some(&given(70)))?; s.seq_begin(None)?; sval_flatten::flatten_to_seq(&mut *s, &f[0])?; s.seq_value_begin()?; s.value(&f[1])?; s.seq_value_end()?; s.seq_value_begin()?; s.value(&f[2])?; s.seq_value_end()?; s.seq_end()?; s.tagged_end(Some(&TAG_A), Some(&ident("V0")), Some(&given(70)))?; s.enum_end(None, Some(&ident("E038")), None)?; }
        315 => { s.enum_begin(None, Some(&ident("E038")), None)?; s.tagged_begin(None, Some(&ident("V1")), Some(&given(71)))?; s.value(&f[0])?; s.tagged_end(None, Some(&ident("V1")), Some(&given(71)))?; s.enum_end(None, Some(&ident("E038")), None)?; }
        316 => { s.enum_begin(None, Some(&ident("E038")), None)?; s.record_begin(None, Some(&ident("V2")), Some(&given(72)), Some(4))?; s.record_value_begin(None, &text("constant label"))?; s.value(&f[0])?; s.record_value_end(None, &text("constant label"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(None, &ident("f2"))?; s.value(&f[2])?; s.record_value_end(None, &ident("f2"))?; s.record_value_begin(None, &ident("f3"))?; s.value(&f[3])?; s.record_value_end(None, &ident("f3"))?; s.record_end(None, Some(&ident("V2")), Some(&given(72)))?; s.enum_end(None, Some(&ident("E038")), None)?; }
        317 => { s.enum_begin(None, Some(&ident("E038")), None)?; s.tagged_begin(Some(&TAG_A), Some(&ident("V3")), Some(&given(73)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&ident("V3")), Some(&given(73)))?; s.enum_end(None, Some(&ident("E038")), None)?; }
        318 => { s.enum_begin(None, Some(&ident("E039")), None)?; s.record_begin(None, Some(&text("renamed")), Some(&given(30)), None)?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; let at1 = sval_flatten::flatten_to_record(&mut *s, &f[1], 0)?; s.record_value_begin(None, &text("second label"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[3])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(None, &text("second label"))?; let at4 = sval_flatten::flatten_to_record(&mut *s, &f[4], at1 + 0)?; s.record_end(None, Some(&text("renamed")), Some(&given(30)))?; s.enum_end(None, Some(&ident("E039")), None)?; }
        319 => { s.enum_begin(None, Some(&ident("E039")), None)?; s.tagged_begin(Some(&TAG_B), Some(&ident("V1")), Some(&given(20)))?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), Some(&ident("V1")), Some(&given(20)))?; s.enum_end(None, Some(&ident("E039")), None)?; }
        320 => { s.enum_begin(None, Some(&ident("E039")), None)?; s.record_tuple_begin(Some(&TAG_A), Some(&text("renamed")), Some(&given(10)), None)?; let at1 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[1], 0)?; s.record_tuple_end(Some(&TAG_A), Some(&text("renamed")), Some(&given(10)))?; s.enum_end(None, Some(&ident("E039")), None)?; }
        321 => { s.enum_begin(None, Some(&ident("E039")), None)?; s.record_tuple_begin(None, Some(&text("constant label")), Some(&given(40)), Some(3))?; s.record_tuple_value_begin(None, &text("second label"), &given(-4))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("second label"), &given(-4))?; s.record_tuple_value_begin(None, &ident("f1"), &given(-1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &ident("f1"), &given(-1))?; s.record_tuple_value_begin(Some(&TAG_A), &text("first"), &given(0))?; s.value(&f[3])?; s.record_tuple_value_end(Some(&TAG_A), &text("first"), &given(0))?; s.record_tuple_end(None, Some(&text("constant label")), Some(&given(40)))?; s.enum_end(None, Some(&ident("E039")), None)?; }
        322 => { s.enum_begin(None, Some(&ident("E040")), Some(&given(40)))?; s.tuple_begin(None, Some(&ident("V0")), None, None)?; s.tuple_value_begin(None, &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.tuple_value_end(None, &offset(0))?; let at1 = sval_flatten::flatten_to_tuple(&mut *s, &f[1], 1)?; let at2 = sval_flatten::flatten_to_tuple(&mut *s, &f[2], at1 + 0)?; let at3 = sval_flatten::flatten_to_tuple(&mut *s, &f[3], at2 + 0)?; s.tuple_end(None, Some(&ident("V0")), None)?; s.enum_end(None, Some(&ident("E040")), Some(&given(40)))?; }
        323 => { s.enum_begin(None, Some(&ident("E040")), Some(&given(40)))?; s.tag(Some(&TAG_B), Some(&ident("V1")), None)?; s.enum_end(None, Some(&ident("E040")), Some(&given(40)))?; }
        324 => { s.enum_begin(None, Some(&ident("E040")), Some(&given(40)))?; s.tag(None, Some(&ident("V2")), None)?; s.enum_end(None, Some(&ident("E040")), Some(&given(40)))?; }
        325 => { s.enum_begin(None, Some(&ident("E040")), Some(&given(40)))?; s.tag(None, Some(&text("constant label")), None)?; s.enum_end(None, Some(&ident("E040")), Some(&given(40)))?; }
        326 => { s.enum_begin(None, Some(&ident("E040")), Some(&given(40)))?; s.tagged_begin(Some(&TAG_A), Some(&text("constant label")), None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), Some(&text("constant label")), None)?; s.enum_end(None, Some(&ident("E040")), Some(&given(40)))?; }
        327 => { s.enum_begin(None, Some(&text("constant label")), None)?; s.record_tuple_begin(None, Some(&text("constant label")), Some(&given(10)), Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(None, &text("constant label"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("constant label"), &offset(1))?; s.record_tuple_value_begin(Some(&TAG_B), &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(Some(&TAG_B), &ident("f2"), &offset(2))?; s.record_tuple_end(None, Some(&text("constant label")), Some(&given(10)))?; s.enum_end(None, Some(&text("constant label")), None)?; }
        328 => { s.enum_begin(None, Some(&ident("E042")), None)?; s.record_tuple_begin(Some(&TAG_B), None, Some(&offset(0)), Some(3))?; s.record_tuple_value_begin(None, &ident("f0"), &offset(0))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_tuple_value_end(None, &ident("f0"), &offset(0))?; s.record_tuple_value_begin(Some(&TAG_A), &ident("f1"), &offset(1))?; s.value(&f[1])?; s.record_tuple_value_end(Some(&TAG_A), &ident("f1"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(2))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(2))?; s.record_tuple_end(Some(&TAG_B), None, Some(&offset(0)))?; s.enum_end(None, Some(&ident("E042")), None)?; }
        329 => { s.enum_begin(None, Some(&ident("E043")), None)?; s.record_begin(Some(&TAG_B), None, Some(&offset(0)), Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.value(&f[0])?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &text("constant label"))?; s.tagged_begin(Some(&TAG_B), None, None)?; s.value(&f[1])?; s.tagged_end(Some(&TAG_B), None, None)?; s.record_value_end(None, &text("constant label"))?; s.record_value_begin(None, &text("second label"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[2])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(None, &text("second label"))?; s.record_end(Some(&TAG_B), None, Some(&offset(0)))?; s.enum_end(None, Some(&ident("E043")), None)?; }
        330 => { s.enum_begin(None, Some(&ident("E043")), None)?; s.tagged_begin(None, None, Some(&offset(1)))?; s.value(&f[0])?; s.tagged_end(None, None, Some(&offset(1)))?; s.enum_end(None, Some(&ident("E043")), None)?; }
        331 => { s.enum_begin(None, Some(&ident("E043")), None)?; s.tag(None, None, Some(&offset(2)))?; s.enum_end(None, Some(&ident("E043")), None)?; }
        332 => { s.enum_begin(None, Some(&ident("E043")), None)?; s.tag(None, None, Some(&offset(3)))?; s.enum_end(None, Some(&ident("E043")), None)?; }
        333 => { s.enum_begin(None, Some(&ident("E043")), None)?; s.record_begin(None, None, Some(&offset(4)), Some(3))?; s.record_value_begin(None, &ident("f0"))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[0])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_value_end(None, &ident("f0"))?; s.record_value_begin(None, &ident("f1"))?; s.value(&f[1])?; s.record_value_end(None, &ident("f1"))?; s.record_value_begin(Some(&TAG_B), &ident("f2"))?; s.value(&f[2])?; s.record_value_end(Some(&TAG_B), &ident("f2"))?; s.record_end(None, None, Some(&offset(4)))?; s.enum_end(None, Some(&ident("E043")), None)?; }
        334 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.tuple_begin(Some(&TAG_B), Some(&text("constant label")), Some(&given(-20)), Some(2))?; s.tuple_value_begin(None, &offset(0))?; s.value(&f[0])?; s.tuple_value_end(None, &offset(0))?; s.tuple_value_begin(Some(&TAG_A), &offset(1))?; s.value(&f[3])?; s.tuple_value_end(Some(&TAG_A), &offset(1))?; s.tuple_end(Some(&TAG_B), Some(&text("constant label")), Some(&given(-20)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        335 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.record_tuple_begin(None, Some(&ident("V1")), Some(&given(-19)), Some(4))?; s.record_tuple_value_begin(None, &text("first"), &offset(0))?; s.value(&f[0])?; s.record_tuple_value_end(None, &text("first"), &offset(0))?; s.record_tuple_value_begin(None, &ident("f2"), &offset(1))?; s.value(&f[2])?; s.record_tuple_value_end(None, &ident("f2"), &offset(1))?; s.record_tuple_value_begin(None, &ident("f3"), &offset(2))?; s.tagged_begin(Some(&TAG_A), None, None)?; s.value(&f[3])?; s.tagged_end(Some(&TAG_A), None, None)?; s.record_tuple_value_end(None, &ident("f3"), &offset(2))?; s.record_tuple_value_begin(None, &text("first"), &offset(3))?; s.value(&f[4])?; s.record_tuple_value_end(None, &text("first"), &offset(3))?; s.record_tuple_end(None, Some(&ident("V1")), Some(&given(-19)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        336 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.tuple_begin(None, Some(&text("renamed")), Some(&given(70)), None)?; let at0 = sval_flatten::flatten_to_tuple(&mut *s, &f[0], 0)?; s.tuple_value_begin(None, &offset(at0 + 0))?; s.value(&f[1])?; s.tuple_value_end(None, &offset(at0 + 0))?; s.tuple_value_begin(None, &offset(at0 + 1))?; s.value(&f[2])?; s.tuple_value_end(None, &offset(at0 + 1))?; let at3 = sval_flatten::flatten_to_tuple(&mut *s, &f[3], at0 + 2)?; s.tuple_end(None, Some(&text("renamed")), Some(&given(70)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        337 => { s.enum_begin(None, Some(&text("renamed")), None)?; s.record_tuple_begin(None, Some(&text("renamed")), Some(&given(71)), None)?; let at0 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[0], 0)?; s.record_tuple_value_begin(None, &text("first"), &offset(at0 + 0))?; s.value(&f[1])?; s.record_tuple_value_end(None, &text("first"), &offset(at0 + 0))?; let at3 = sval_flatten::flatten_to_record_tuple(&mut *s, &f[3], at0 + 1)?; s.record_tuple_end(None, Some(&text("renamed")), Some(&given(71)))?; s.enum_end(None, Some(&text("renamed")), None)?; }
        338 => { s.record_begin(None, None, None, None)?; let at0 = sval_flatten::flatten_to_record(&mut *s, &f[0], 0)?; s.record_value_begin(Some(&TAG_B), &text("second label"))?; s.value(&f[1])?; s.record_value_end(Some(&TAG_B), &text("second label"))?; s.record_end(None, None, None)?; }
        _ => unreachable!(),
    }
    Ok(())
}
#[rustfmt::skip]
#[allow(unused_variables)]
pub fn run(case: usize, f: &[V], faults: bool) {
    match case {
        0 => one(0, false, &S000::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        1 => one(1, false, &S001::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        2 => one(2, true, &S002::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        3 => one(3, false, &S003::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        4 => one(4, false, &S004::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        5 => one(5, false, &S005::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        6 => one(6, false, &S006::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        7 => one(7, true, &S007::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        8 => one(8, false, &S008::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        9 => one(9, false, &S009::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        10 => one(10, false, &S010::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        11 => one(11, false, &S011::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        12 => one(12, true, &S012::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        13 => one(13, false, &S013::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        14 => one(14, false, &S014::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        15 => one(15, false, &S015::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        16 => one(16, false, &S016::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        17 => one(17, false, &S017::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        18 => one(18, false, &S018::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        19 => one(19, false, &S019::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        20 => one(20, false, &S020::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        21 => one(21, false, &S021::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        22 => one(22, true, &S022::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        23 => one(23, false, &S023::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        24 => one(24, false, &S024::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        25 => one(25, false, &S025::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        26 => one(26, true, &S026::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        27 => one(27, false, &S027::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        28 => one(28, false, &S028::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        29 => one(29, false, &S029::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        30 => one(30, true, &S030::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        31 => one(31, false, &S031::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        32 => one(32, false, &S032::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        33 => one(33, false, &S033::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        34 => one(34, false, &S034::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        35 => one(35, false, &S035::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        36 => one(36, false, &S036::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        37 => one(37, false, &S037::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        38 => one(38, false, &S038::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        39 => one(39, true, &S039::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        40 => one(40, false, &S040::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        41 => one(41, false, &S041::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        42 => one(42, false, &S042::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        43 => one(43, true, &S043::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        44 => one(44, false, &S044::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        45 => one(45, false, &S045::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        46 => one(46, false, &S046::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        47 => one(47, true, &S047::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        48 => one(48, false, &S048::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        49 => one(49, false, &S049::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        50 => one(50, false, &S050::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        51 => one(51, false, &S051::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        52 => one(52, false, &S052::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        53 => one(53, false, &S053::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        54 => one(54, false, &S054::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        55 => one(55, false, &S055::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        56 => one(56, true, &S056::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        57 => one(57, false, &S057::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        58 => one(58, false, &S058::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        59 => one(59, true, &S059::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        60 => one(60, false, &S060::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        61 => one(61, false, &S061::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        62 => one(62, true, &S062::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        63 => one(63, false, &S063::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        64 => one(64, false, &S064::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        65 => one(65, false, &S065::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        66 => one(66, false, &S066::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        67 => one(67, false, &S067::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        68 => one(68, false, &S068::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        69 => one(69, false, &S069::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        70 => one(70, true, &S070::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        71 => one(71, false, &S071::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        72 => one(72, false, &S072::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        73 => one(73, false, &S073::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        74 => one(74, true, &S074::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        75 => one(75, false, &S075::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        76 => one(76, false, &S076::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        77 => one(77, false, &S077::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        78 => one(78, true, &S078::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        79 => one(79, false, &S079::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        80 => one(80, false, &S080::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        81 => one(81, false, &S081::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        82 => one(82, false, &S082::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        83 => one(83, false, &S083::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        84 => one(84, false, &S084::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        85 => one(85, false, &S085::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        86 => one(86, false, &S086::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        87 => one(87, true, &S087::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        88 => one(88, false, &S088::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        89 => one(89, false, &S089::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        90 => one(90, true, &S090::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        91 => one(91, false, &S091::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        92 => one(92, false, &S092::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        93 => one(93, true, &S093::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        94 => one(94, false, &S094::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        95 => one(95, false, &S095::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        96 => one(96, false, &S096::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        97 => one(97, false, &S097::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        98 => one(98, false, &S098::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        99 => one(99, false, &S099 {  }, f, Some(None), faults),
        100 => one(100, false, &S100(), f, Some(None), faults),
        101 => one(101, false, &S101 {  }, f, Some(Some(TAG_B)), faults),
        102 => one(102, true, &S102::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        103 => one(103, true, &S103::<V, V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(Some(TAG_A)), faults),
        104 => one(104, false, &S104::<V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        105 => one(105, false, &S105::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        106 => one(106, false, &S106::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(Some(TAG_A)), faults),
        107 => one(107, true, &S107::<V, V>(f[0].clone(), f[1].clone()), f, Some(None), faults),
        108 => one(108, false, &S108::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        109 => one(109, true, &S109::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        110 => one(110, false, &S110::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_B)), faults),
        111 => one(111, false, &S111::<V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(Some(TAG_B)), faults),
        112 => one(112, true, &S112::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        113 => one(113, true, &S113::<V, V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        114 => one(114, false, &S114::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        115 => one(115, false, &S115::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        116 => one(116, false, &S116::<V, V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        117 => one(117, false, &S117::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        118 => one(118, false, &S118::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        119 => one(119, true, &S119::<V, V>(f[0].clone(), f[1].clone()), f, Some(None), faults),
        120 => one(120, false, &S120::<V, V>(f[0].clone(), f[1].clone()), f, Some(None), faults),
        121 => one(121, false, &S121::<V, V>(f[0].clone(), f[1].clone()), f, Some(None), faults),
        122 => one(122, true, &S122::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        123 => one(123, false, &S123::<V, V>(f[0].clone(), f[1].clone()), f, Some(Some(TAG_B)), faults),
        124 => one(124, false, &S124::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        125 => one(125, false, &S125::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        126 => one(126, false, &S126::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        127 => one(127, false, &S127::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        128 => one(128, false, &S128::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        129 => one(129, false, &S129::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        130 => one(130, false, &S130::<V, V>(f[0].clone(), f[1].clone()), f, Some(Some(TAG_A)), faults),
        131 => one(131, true, &S131::<V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        132 => one(132, false, &S132::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        133 => one(133, true, &S133::<V, V>(f[0].clone(), f[1].clone()), f, Some(None), faults),
        134 => one(134, false, &S134::<V> { f0: f[0].clone() }, f, Some(None), faults),
        135 => one(135, false, &S135::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(Some(TAG_A)), faults),
        136 => one(136, true, &S136::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        137 => one(137, false, &S137::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(Some(TAG_A)), faults),
        138 => one(138, false, &S138::<V, V>(f[0].clone(), f[1].clone()), f, Some(None), faults),
        139 => one(139, false, &S139::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        140 => one(140, false, &S140::<V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        141 => one(141, true, &S141::<V, V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(Some(TAG_A)), faults),
        142 => one(142, false, &S142::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        143 => one(143, false, &S143::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        144 => one(144, false, &S144::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_B)), faults),
        145 => one(145, true, &S145::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_B)), faults),
        146 => one(146, false, &S146::<V> { f0: f[0].clone() }, f, Some(Some(TAG_B)), faults),
        147 => one(147, false, &S147::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(Some(TAG_B)), faults),
        148 => one(148, true, &S148::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        149 => one(149, false, &S149::<V, V>(f[0].clone(), f[1].clone()), f, Some(Some(TAG_B)), faults),
        150 => one(150, false, &S150::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        151 => one(151, true, &S151::<V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        152 => one(152, false, &S152::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_B)), faults),
        153 => one(153, true, &S153::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        154 => one(154, true, &S154::<V, V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(Some(TAG_A)), faults),
        155 => one(155, true, &S155::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        156 => one(156, false, &S156::<V, V, V>(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        157 => one(157, false, &S157::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        158 => one(158, false, &S158::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        159 => one(159, false, &S159::<V> { f0: f[0].clone() }, f, Some(None), faults),
        160 => one(160, false, &S160::<V, V> { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        161 => one(161, false, &S161::<V, V, V> { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        162 => one(162, false, &S162::<V>(f[0].clone()), f, Some(Some(TAG_B)), faults),
        163 => one(163, false, &S163, f, Some(None), faults),
        164 => one(164, false, &S164::<V>(f[0].clone()), f, Some(Some(TAG_B)), faults),
        165 => one(165, false, &S165, f, Some(Some(TAG_A)), faults),
        166 => one(166, false, &S166::<V>(f[0].clone()), f, Some(Some(TAG_B)), faults),
        167 => one(167, false, &S167, f, Some(None), faults),
        168 => one(168, false, &S168::<V>(f[0].clone()), f, Some(None), faults),
        169 => one(169, false, &S169, f, Some(None), faults),
        170 => one(170, false, &S170::<V>(f[0].clone()), f, Some(Some(TAG_A)), faults),
        171 => one(171, false, &S171, f, Some(Some(TAG_B)), faults),
        172 => one(172, false, &S172::<V>(f[0].clone()), f, Some(Some(TAG_A)), faults),
        173 => one(173, false, &S173, f, Some(Some(TAG_A)), faults),
        174 => one(174, false, &S174::<V>(f[0].clone()), f, Some(Some(TAG_A)), faults),
        175 => one(175, false, &S175, f, Some(Some(TAG_B)), faults),
        176 => one(176, false, &S176::<V>(f[0].clone()), f, Some(Some(TAG_B)), faults),
        177 => one(177, false, &S177, f, Some(None), faults),
        178 => one(178, false, &S178::<V>(f[0].clone()), f, Some(None), faults),
        179 => one(179, false, &S179, f, Some(None), faults),
        180 => one(180, false, &S180::<V>(f[0].clone()), f, None, faults),
        181 => one(181, false, &E000::<V, V>::V0, f, Some(None), faults),
        182 => one(182, false, &E000::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        183 => one(183, false, &E000::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        184 => one(184, false, &E000::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        185 => one(185, false, &E000::<V, V>::V4, f, Some(None), faults),
        186 => one(186, false, &E001::<V, V>::V0, f, Some(None), faults),
        187 => one(187, false, &E001::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        188 => one(188, false, &E001::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        189 => one(189, false, &E001::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        190 => one(190, false, &E001::<V, V>::V4, f, Some(None), faults),
        191 => one(191, false, &E002::<V, V>::V0, f, Some(None), faults),
        192 => one(192, false, &E002::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        193 => one(193, false, &E002::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        194 => one(194, false, &E002::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        195 => one(195, false, &E002::<V, V>::V4, f, Some(None), faults),
        196 => one(196, false, &E003::<V, V>::V0, f, Some(None), faults),
        197 => one(197, false, &E003::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        198 => one(198, false, &E003::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        199 => one(199, false, &E003::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        200 => one(200, false, &E003::<V, V>::V4, f, Some(None), faults),
        201 => one(201, false, &E004::<V, V>::V0, f, None, faults),
        202 => one(202, false, &E004::<V, V>::V1(f[0].clone()), f, None, faults),
        203 => one(203, false, &E004::<V, V>::V2(f[0].clone(), f[1].clone()), f, None, faults),
        204 => one(204, false, &E004::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, None, faults),
        205 => one(205, false, &E004::<V, V>::V4, f, None, faults),
        206 => one(206, false, &E005::<V, V>::V0, f, Some(None), faults),
        207 => one(207, false, &E005::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        208 => one(208, false, &E005::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        209 => one(209, false, &E005::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        210 => one(210, false, &E005::<V, V>::V4, f, Some(None), faults),
        211 => one(211, false, &E006::<V, V>::V0, f, Some(None), faults),
        212 => one(212, false, &E006::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        213 => one(213, false, &E006::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        214 => one(214, false, &E006::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        215 => one(215, false, &E006::<V, V>::V4, f, Some(None), faults),
        216 => one(216, false, &E007::<V, V>::V0, f, Some(None), faults),
        217 => one(217, false, &E007::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        218 => one(218, false, &E007::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        219 => one(219, false, &E007::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        220 => one(220, false, &E007::<V, V>::V4, f, Some(None), faults),
        221 => one(221, false, &E008::<V, V>::V0, f, Some(None), faults),
        222 => one(222, false, &E008::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        223 => one(223, false, &E008::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        224 => one(224, false, &E008::<V, V>::V3 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        225 => one(225, false, &E008::<V, V>::V4, f, Some(None), faults),
        226 => one(226, false, &E010::<V, V, V, V, V>::V0(f[0].clone(), f[1].clone(), f[2].clone(), f[3].clone()), f, Some(None), faults),
        227 => one(227, false, &E010::<V, V, V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        228 => one(228, false, &E010::<V, V, V, V, V>::V2, f, Some(None), faults),
        229 => one(229, true, &E010::<V, V, V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        230 => one(230, false, &E011::<V, V>::V0(f[0].clone(), f[1].clone()), f, Some(None), faults),
        231 => one(231, false, &E011::<V, V>::V1(f[0].clone()), f, Some(None), faults),
        232 => one(232, false, &E011::<V, V>::V2, f, Some(None), faults),
        233 => one(233, false, &E011::<V, V>::V3(f[0].clone()), f, Some(None), faults),
        234 => one(234, false, &E011::<V, V>::V4, f, Some(None), faults),
        235 => one(235, false, &E012::V0, f, Some(None), faults),
        236 => one(236, false, &E013::<V, V, V>::V0(f[0].clone()), f, Some(Some(TAG_A)), faults),
        237 => one(237, false, &E013::<V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        238 => one(238, false, &E013::<V, V, V>::V2(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        239 => one(239, false, &E014::<V, V>::V0 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        240 => one(240, false, &E014::<V, V>::V1, f, Some(None), faults),
        241 => one(241, false, &E015::<V, V, V, V, V>::V0(f[0].clone()), f, Some(None), faults),
        242 => one(242, false, &E015::<V, V, V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        243 => one(243, false, &E015::<V, V, V, V, V>::V2, f, Some(None), faults),
        244 => one(244, false, &E016::<V>::V0(f[0].clone()), f, Some(Some(TAG_B)), faults),
        245 => one(245, false, &E017::<V, V>::V0 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        246 => one(246, false, &E017::<V, V>::V1 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        247 => one(247, false, &E017::<V, V>::V2(f[0].clone()), f, Some(None), faults),
        248 => one(248, true, &E018::<V, V, V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        249 => one(249, true, &E018::<V, V, V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        250 => one(250, false, &E018::<V, V, V, V, V>::V2(f[0].clone()), f, Some(None), faults),
        251 => one(251, false, &E018::<V, V, V, V, V>::V3, f, Some(None), faults),
        252 => one(252, false, &E018::<V, V, V, V, V>::V4(f[0].clone()), f, Some(None), faults),
        253 => one(253, false, &E019::<V>::V0(f[0].clone()), f, Some(None), faults),
        254 => one(254, false, &E020::<V, V, V, V, V>::V0(f[0].clone()), f, Some(None), faults),
        255 => one(255, false, &E020::<V, V, V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        256 => one(256, false, &E020::<V, V, V, V, V>::V2(f[0].clone()), f, Some(None), faults),
        257 => one(257, false, &E020::<V, V, V, V, V>::V3, f, Some(None), faults),
        258 => one(258, false, &E020::<V, V, V, V, V>::V4 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        259 => one(259, true, &E021::<V, V, V, V>::V0(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        260 => one(260, false, &E021::<V, V, V, V>::V1(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        261 => one(261, false, &E021::<V, V, V, V>::V2 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        262 => one(262, false, &E021::<V, V, V, V>::V3(f[0].clone(), f[1].clone()), f, Some(None), faults),
        263 => one(263, false, &E022::<V, V, V>::V0(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        264 => one(264, false, &E023::<V, V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        265 => one(265, false, &E023::<V, V, V, V>::V1(f[0].clone(), f[1].clone(), f[2].clone(), f[3].clone()), f, Some(None), faults),
        266 => one(266, false, &E023::<V, V, V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        267 => one(267, false, &E023::<V, V, V, V>::V3, f, Some(None), faults),
        268 => one(268, false, &E024::<V, V>::V0 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(Some(TAG_A)), faults),
        269 => one(269, false, &E024::<V, V>::V1(f[0].clone()), f, Some(Some(TAG_A)), faults),
        270 => one(270, false, &E024::<V, V>::V2(f[0].clone()), f, Some(Some(TAG_A)), faults),
        271 => one(271, false, &E025::<V, V, V>::V0 { f0: f[0].clone() }, f, Some(Some(TAG_A)), faults),
        272 => one(272, false, &E025::<V, V, V>::V1, f, Some(Some(TAG_A)), faults),
        273 => one(273, false, &E025::<V, V, V>::V2(f[0].clone()), f, Some(Some(TAG_A)), faults),
        274 => one(274, false, &E025::<V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        275 => one(275, false, &E026::<V, V>::V0 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        276 => one(276, false, &E026::<V, V>::V1, f, Some(None), faults),
        277 => one(277, false, &E026::<V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        278 => one(278, false, &E027::<V>::V0, f, None, faults),
        279 => one(279, false, &E027::<V>::V1, f, None, faults),
        280 => one(280, false, &E027::<V>::V2(f[0].clone()), f, None, faults),
        281 => one(281, false, &E027::<V>::V3, f, None, faults),
        282 => one(282, false, &E028::<V, V, V, V, V>::V0, f, Some(None), faults),
        283 => one(283, false, &E028::<V, V, V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        284 => one(284, true, &E028::<V, V, V, V, V>::V2 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        285 => one(285, false, &E028::<V, V, V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        286 => one(286, false, &E029::<V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        287 => one(287, false, &E030::<V, V>::V0, f, Some(None), faults),
        288 => one(288, false, &E030::<V, V>::V1(f[0].clone(), f[1].clone()), f, Some(None), faults),
        289 => one(289, false, &E030::<V, V>::V2(f[0].clone()), f, Some(None), faults),
        290 => one(290, false, &E031::<V, V, V>::V0 { f0: f[0].clone() }, f, Some(Some(TAG_B)), faults),
        291 => one(291, false, &E031::<V, V, V>::V1(f[0].clone(), f[1].clone()), f, Some(Some(TAG_B)), faults),
        292 => one(292, false, &E031::<V, V, V>::V2 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_B)), faults),
        293 => one(293, false, &E032::<V, V, V, V>::V0(f[0].clone(), f[1].clone(), f[2].clone(), f[3].clone()), f, Some(Some(TAG_A)), faults),
        294 => one(294, false, &E032::<V, V, V, V>::V1, f, Some(Some(TAG_A)), faults),
        295 => one(295, true, &E032::<V, V, V, V>::V2(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(Some(TAG_A)), faults),
        296 => one(296, false, &E032::<V, V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(Some(TAG_A)), faults),
        297 => one(297, false, &E033::<V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        298 => one(298, false, &E033::<V, V, V>::V1, f, Some(None), faults),
        299 => one(299, false, &E033::<V, V, V>::V2, f, Some(None), faults),
        300 => one(300, false, &E034::<V>::V0, f, Some(Some(TAG_A)), faults),
        301 => one(301, false, &E034::<V>::V1 { f0: f[0].clone() }, f, Some(Some(TAG_A)), faults),
        302 => one(302, true, &E035::<V, V, V>::V0(f[0].clone(), f[1].clone()), f, Some(None), faults),
        303 => one(303, false, &E035::<V, V, V>::V1(f[0].clone()), f, Some(None), faults),
        304 => one(304, false, &E035::<V, V, V>::V2, f, Some(None), faults),
        305 => one(305, false, &E035::<V, V, V>::V3(f[0].clone(), f[1].clone()), f, Some(None), faults),
        306 => one(306, false, &E035::<V, V, V>::V4(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        307 => one(307, false, &E036::<V, V>::V0, f, Some(None), faults),
        308 => one(308, false, &E036::<V, V>::V1, f, Some(None), faults),
        309 => one(309, false, &E036::<V, V>::V2 { f0: f[0].clone(), f1: f[1].clone() }, f, Some(None), faults),
        310 => one(310, false, &E037::<V, V, V, V>::V0, f, Some(Some(TAG_A)), faults),
        311 => one(311, false, &E037::<V, V, V, V>::V1(f[0].clone(), f[1].clone(), f[2].clone(), f[3].clone()), f, Some(Some(TAG_A)), faults),
        312 => one(312, false, &E037::<V, V, V, V>::V2, f, Some(Some(TAG_A)), faults),
        313 => one(313, false, &E037::<V, V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(Some(TAG_A)), faults),
        314 => one(314, true, &E038::<V, V, V, V>::V0(f[0].clone(), f[1].clone(), f[2].clone()), f, Some(None), faults),
        315 => one(315, false, &E038::<V, V, V, V>::V1(f[0].clone()), f, Some(None), faults),
        316 => one(316, false, &E038::<V, V, V, V>::V2 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        317 => one(317, false, &E038::<V, V, V, V>::V3(f[0].clone()), f, Some(None), faults),
        318 => one(318, true, &E039::<V, V, V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        319 => one(319, false, &E039::<V, V, V, V, V>::V1(f[0].clone()), f, Some(None), faults),
        320 => one(320, true, &E039::<V, V, V, V, V>::V2(f[0].clone(), f[1].clone()), f, Some(None), faults),
        321 => one(321, false, &E039::<V, V, V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        322 => one(322, true, &E040::<V, V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        323 => one(323, false, &E040::<V, V, V, V>::V1, f, Some(None), faults),
        324 => one(324, false, &E040::<V, V, V, V>::V2, f, Some(None), faults),
        325 => one(325, false, &E040::<V, V, V, V>::V3, f, Some(None), faults),
        326 => one(326, false, &E040::<V, V, V, V>::V4(f[0].clone()), f, Some(None), faults),
        327 => one(327, false, &E041::<V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        328 => one(328, false, &E042::<V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        329 => one(329, false, &E043::<V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        330 => one(330, false, &E043::<V, V, V>::V1(f[0].clone()), f, Some(None), faults),
        331 => one(331, false, &E043::<V, V, V>::V2, f, Some(None), faults),
        332 => one(332, false, &E043::<V, V, V>::V3, f, Some(None), faults),
        333 => one(333, false, &E043::<V, V, V>::V4 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone() }, f, Some(None), faults),
        334 => one(334, false, &E044::<V, V, V, V, V>::V0 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        335 => one(335, false, &E044::<V, V, V, V, V>::V1 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone(), f4: f[4].clone() }, f, Some(None), faults),
        336 => one(336, true, &E044::<V, V, V, V, V>::V2 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        337 => one(337, true, &E044::<V, V, V, V, V>::V3 { f0: f[0].clone(), f1: f[1].clone(), f2: f[2].clone(), f3: f[3].clone() }, f, Some(None), faults),
        338 => one(338, true, &E045::<V, V, V>::V0(f[0].clone(), f[1].clone(), f[2].clone()), f, None, faults),
        _ => unreachable!(),
    }
}
