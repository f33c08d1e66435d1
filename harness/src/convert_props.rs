//! C09: conversions of whole values, against what streaming the value gives.
use crate::core_props::{check_no_int, check_signed, check_unsigned, same_f32, same_f64};
use crate::tree::*;
use crate::*;
use sval::Value;

/// The scalar a value comes down to once tags, hints and indirection are taken off.
#[derive(Debug)]
enum Leaf {
    Nothing,
    Bool(bool),
    Num(Ev<'static>),
    /// The fragments, and whether all of them may be borrowed from the value.
    Text(Vec<&'static str>, bool),
    Binary(Vec<&'static [u8]>, bool),
    /// A bare tag: it may stand for its label.
    Label(&'static str),
}
fn leaf(n: &Node, lent: bool) -> Leaf {
    match n {
        Node::Bool(b) => Leaf::Bool(*b),
        Node::Num(e) => Leaf::Num(*e),
        Node::Text(f, _) => Leaf::Text(f.iter().map(|t| t.0).collect(), lent && f.iter().all(|t| !t.1)),
        Node::Binary(f, _) => Leaf::Binary(f.iter().map(|t| t.0).collect(), lent && f.iter().all(|t| !t.1)),
        Node::Via(c, n) => leaf(n, lent && !*c),
        Node::Hinted(_, n) => leaf(n, lent),
        Node::Tagged(_, Some(n)) | Node::Enum(_, Some(n)) => leaf(n, lent),
        Node::Tag(m) => match &m.label {
            Some(l) => Leaf::Label(l.text),
            None => Leaf::Nothing,
        },
        _ => Leaf::Nothing,
    }
}

fn no_text(x: &(impl Value + ?Sized)) {
    assert!(x.to_text().is_none(), "a value that is not text converts to text");
}
fn no_binary(x: &(impl Value + ?Sized)) {
    assert!(x.to_binary().is_none(), "a value that is not binary converts to bytes");
}
fn no_number(x: &(impl Value + ?Sized)) {
    assert!(x.to_f32().is_none() && x.to_f64().is_none(), "a value that is not a number converts to a float");
    check_no_int(x);
}
fn no_bool(x: &(impl Value + ?Sized)) {
    assert!(x.to_bool().is_none(), "a value that is not a boolean converts to one");
}

fn check(x: &(impl Value + ?Sized), want: &Leaf) {
    match want {
        Leaf::Nothing => {
            no_bool(x);
            no_number(x);
            no_text(x);
            no_binary(x);
        }
        Leaf::Bool(b) => {
            assert!(x.to_bool() == Some(*b));
            no_number(x);
            no_text(x);
            no_binary(x);
        }
        Leaf::Num(Ev::F64(v)) => {
            assert!(same_f64(x.to_f64(), *v));
            if let Some(n) = x.to_f32() {
                assert!(same_f64(Some(n as f64), *v), "a float was rounded");
            }
            check_no_int(x);
            no_bool(x);
            no_text(x);
            no_binary(x);
        }
        Leaf::Num(Ev::F32(v)) => {
            assert!(same_f32(x.to_f32(), *v));
            assert!(same_f64(x.to_f64(), *v as f64));
            check_no_int(x);
            no_bool(x);
            no_text(x);
            no_binary(x);
        }
        Leaf::Num(e) => {
            let (neg, m) = e.int().unwrap();
            match e {
                Ev::U8(_) | Ev::U16(_) | Ev::U32(_) | Ev::U64(_) | Ev::U128(_) => check_unsigned(x, m),
                _ => check_signed(x, if neg { (m as i128).wrapping_neg() } else { m as i128 }),
            }
        }
        Leaf::Text(f, lent) => {
            no_bool(x);
            no_number(x);
            no_binary(x);
            let whole: String = f.concat();
            let got = x.to_text();
            if f.len() == 1 && *lent {
                assert!(got == Some(&*whole), "text that can be borrowed does not convert");
            }
            if let Some(got) = got {
                assert!(*lent || whole.is_empty(), "text that lives elsewhere was lent");
                assert!(f.iter().filter(|f| !f.is_empty()).count() <= 1, "several fragments were taken for one");
                assert!(got == whole, "text was changed");
            }
        }
        Leaf::Binary(f, lent) => {
            no_bool(x);
            no_number(x);
            no_text(x);
            let whole: Vec<u8> = f.concat();
            let got = x.to_binary();
            if f.len() == 1 && *lent {
                assert!(got == Some(&*whole), "bytes that can be borrowed do not convert");
            }
            if let Some(got) = got {
                assert!(*lent || whole.is_empty(), "bytes that live elsewhere were lent");
                assert!(f.iter().filter(|f| !f.is_empty()).count() <= 1, "several fragments were taken for one");
                assert!(got == &*whole, "bytes were changed");
            }
        }
        Leaf::Label(l) => {
            no_bool(x);
            no_number(x);
            no_binary(x);
            if let Some(t) = x.to_text() {
                assert!(t == *l);
            }
        }
    }
}
fn check_all(n: &Node, want: &Leaf) {
    check(n, want);
    check(&n, want);
    check(&Box::new(n), want);
    check(&Some(n), want);
    check(&Some(&Some(n)), want);
    let d: &dyn sval_dynamic::Value = n;
    check(d, want);
    let d: Box<dyn sval_dynamic::Value> = Box::new(n);
    check(&*d, want);
    check(&sval_ref::Ref::new(n), want);
}

/// Concrete types that carry their own conversions.
fn text_type(x: &(impl Value + ?Sized), s: &str, lends: bool) {
    no_bool(x);
    no_number(x);
    no_binary(x);
    match x.to_text() {
        Some(t) => assert!(t == s),
        None => assert!(!lends, "text that can be borrowed does not convert"),
    }
}
fn binary_type(x: &(impl Value + ?Sized), s: &[u8]) {
    no_bool(x);
    no_number(x);
    no_text(x);
    assert!(x.to_binary() == Some(s));
}

crate::harnesses! {
    ["C09", none, unwind 1, random 12000, exhaustive false, "generated value trees of depth 3, every conversion, behind every wrapper"]
    fn convert_trees(g) {
        let n = gen_node(g, Shape { depth: 3, width: 1, empty_tagged: true, ..SHAPE });
        let want = leaf(&n, true);
        check_all(&n, &want);
    }
    ["C09", none, unwind 1, random 6000, exhaustive false, "generated text and binary in up to three fragments, tagged up to twice"]
    fn convert_text(g) {
        let mut n = if g.bool() {
            let f = gen_text(g);
            let n = f.iter().map(|t| t.0.len()).sum();
            Node::Text(f, gen_hint(g, n))
        } else {
            let c = g.choose(4);
            let f: Vec<_> = (0..c).map(|_| (BINS[g.choose(BINS.len())], g.choose(3) == 0)).collect();
            let n = f.iter().map(|t| t.0.len()).sum();
            Node::Binary(f, gen_hint(g, n))
        };
        for _ in 0..g.choose(3) {
            n = match g.choose(4) {
                0 => Node::Tagged(gen_meta(g), Some(n.boxed())),
                1 => Node::Enum(gen_meta(g), Some(Node::Tagged(gen_meta(g), Some(n.boxed())).boxed())),
                2 => Node::Hinted(&T_B, n.boxed()),
                _ => Node::Via(g.bool(), n.boxed()),
            };
        }
        let want = leaf(&n, true);
        check_all(&n, &want);
    }
    ["C09", none, unwind 1, random 2000, exhaustive false, "generated values that fail after streaming"]
    fn convert_failing(g) {
        let n = gen_node(g, Shape { depth: 1, width: 1, ..SHAPE });
        check_all(&Node::After(n.boxed()), &Leaf::Nothing);
        check_all(&Node::Fail, &Leaf::Nothing);
    }
    ["C09", none, unwind 1, random 2000, exhaustive false, "the text and binary types, over generated text"]
    fn convert_types(g) {
        let s = gen_str(g);
        text_type(s, s, true);
        text_type(&s.to_string(), s, true);
        text_type(&Some(s), s, true);
        text_type(&Box::new(s), s, true);
        text_type(&sval_buffer::TextBuf::from(s), s, true);
        let mut b = sval_buffer::TextBuf::new();
        let mut all = String::new();
        for (t, c) in gen_text(g) {
            if c { b.push_fragment_computed(t).unwrap() } else { b.push_fragment(t).unwrap() }
            all.push_str(t);
        }
        text_type(&b, &all, true);
        let c = s.chars().next().unwrap_or('x');
        text_type(&c, &c.to_string(), false);
        text_type(&sval_buffer::ValueBuf::collect(&s).unwrap(), s, true);

        let s = BINS[g.choose(BINS.len())];
        binary_type(sval::BinarySlice::new(s), s);
        binary_type(&Some(sval::BinarySlice::new(s)), s);
        binary_type(sval::BinaryArray::new(b"\x00\xff"), b"\x00\xff");
        binary_type(&sval_buffer::BinaryBuf::from(s), s);
        no_binary(s);
        no_binary(&s.to_vec());
        for x in [None::<u8>, None] { check(&x, &Leaf::Nothing); }
        check(&None::<&str>, &Leaf::Nothing);
        check(&None::<bool>, &Leaf::Nothing);
        check(&vec![1u8], &Leaf::Nothing);
        check(&[s.len() as u64][..], &Leaf::Nothing);
        check(&(1u8,), &Leaf::Nothing);
        check(&(true, "a"), &Leaf::Nothing);
        check(&std::collections::BTreeMap::from([("a", 1)]), &Leaf::Nothing);
    }
}
