//! Indexes, labels and tags (C10), adapters over whole values (C11), built-in types (C12), and values that hold references (C13).
use crate::tree::*;
use crate::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::{Hash, Hasher};
use sval::{Index, Label, Stream, Tag, Value};
use sval_ref::{Ref, ValueRef};

// ---------------------------------------------------------------- C10

fn hash_of(v: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn check_index(i: &Index, v: i128) {
    macro_rules! to {
        ($($f:ident $t:ty),*) => { $( assert!(i.$f() == <$t>::try_from(v).ok(), "index {} as {}: {:?}", v, stringify!($t), i.$f()); )* };
    }
    to!(to_usize usize, to_u32 u32, to_u64 u64, to_isize isize, to_i32 i32, to_i64 i64);
    assert!(format!("{}", i) == v.to_string());
}

fn gen_any_index(g: &mut Gen) -> (Index, i128) {
    match g.choose(12) {
        0 => { let v = g.usize(); (Index::new(v), v as i128) }
        1 => { let v = g.u32(); (Index::new_u32(v), v as i128) }
        2 => { let v = g.u64(); (Index::new_u64(v), v as i128) }
        3 => { let v = g.i32(); (Index::new_i32(v), v as i128) }
        4 => { let v = g.i64(); (Index::new_i64(v), v as i128) }
        5 => { let v = g.isize(); (Index::new_isize(v), v as i128) }
        6 => { let v = g.usize(); (Index::from(v), v as i128) }
        7 => { let v = g.u32(); (Index::from(v), v as i128) }
        8 => { let v = g.u64(); (Index::from(v), v as i128) }
        9 => { let v = g.i32(); (Index::from(v), v as i128) }
        10 => { let v = g.i64(); (Index::from(v), v as i128) }
        _ => { let v = g.isize(); (Index::from(v), v as i128) }
    }
}

const TAGNAMES: &[&str] = &[
    "", "a", "b", "ab", "ba", "abc", "abcd", "abce", "abcde", "abcdefg", "abcdefgh", "abcdefgi", "abcdefghi", "abcdefghij", "abcdefghijkl", "\0", "\0\0", "RUST_UNIT", "NUMBER",
    "a\0", "b\0\0\0\0\0\0\0", "\0\0\0\0\0\0\0\0",
];

fn check_label(g: &mut Gen) {
    let a = gen_label(g);
    let b = gen_label(g);
    let owner = a.text.to_string();
    let la = match g.choose(4) {
        0 => a.to(),
        1 => {
            let l = Label::new_owned(owner.clone());
            match a.tag { Some(t) => l.with_tag(t), None => l }
        }
        2 => {
            let l = Label::new_computed(&owner);
            match a.tag { Some(t) => l.with_tag(t), None => l }
        }
        _ => a.to(),
    };
    let stat = la.as_static_str();
    let lb = b.to();
    let check = |l: &Label, how: &str| {
        assert!(l.as_str() == a.text, "{}: {:?} became {:?}", how, a.text, l.as_str());
        assert!(same_tag(l.tag(), a.tag), "{}: the tag of {:?} changed", how, a.text);
        assert!(l.as_static_str() == stat, "{}: {:?} vs {:?}", how, l.as_static_str(), stat);
        assert!(stat.map_or(true, |s| s == a.text));
    };
    check(&la, "new");
    check(&la.clone(), "clone");
    check(&la.clone().clone(), "clone twice");
    check(&la.to_owned(), "to_owned");
    check(&la.to_owned().clone(), "clone of to_owned");
    check(&la.try_to_owned().unwrap(), "try_to_owned");
    // ownership: copies don't depend on the original
    let copy = la.clone();
    let own = la.to_owned();
    check(&copy, "clone");
    assert!((la == lb) == (a.text == b.text), "labels {:?} and {:?} compare wrongly", a, b);
    assert!(hash_of(&la) == hash_of(&copy) && hash_of(&la) == hash_of(a.text), "equal labels must hash alike, and like their text");
    assert!(std::borrow::Borrow::<str>::borrow(&la) == a.text);
    drop(la);
    check(&own, "to_owned, with the original dropped");
    let o2 = own.clone();
    drop(own);
    check(&o2, "a clone of an owned label, with the original dropped");
}

// ---------------------------------------------------------------- C11

/// The tree a value streams as: wrappers removed, and fragments inside computed values computed.
pub fn plain(n: &Node, c: bool) -> Node {
    let b = |n: &Box<Node>| Box::new(plain(n, c));
    match n {
        Node::Text(f, h) => Node::Text(f.iter().map(|(t, d)| (*t, c || *d)).collect(), *h),
        Node::Binary(f, h) => Node::Binary(f.iter().map(|(t, d)| (*t, c || *d)).collect(), *h),
        Node::Seq(v, h) => Node::Seq(v.iter().map(|n| plain(n, c)).collect(), *h),
        Node::Map(v, h) => Node::Map(v.iter().map(|(k, v)| (plain(k, c), plain(v, c))).collect(), *h),
        Node::Tagged(m, n) => Node::Tagged(*m, n.as_ref().map(b)),
        Node::Enum(m, n) => Node::Enum(*m, n.as_ref().map(b)),
        Node::Record(m, f, h) => Node::Record(*m, f.iter().map(|(t, l, n)| (*t, *l, plain(n, c))).collect(), *h),
        Node::Tuple(m, f, h) => Node::Tuple(*m, f.iter().map(|(t, l, n)| (*t, *l, plain(n, c))).collect(), *h),
        Node::RecordTuple(m, f, h) => Node::RecordTuple(*m, f.iter().map(|(t, l, x, n)| (*t, *l, *x, plain(n, c))).collect(), *h),
        Node::Via(d, n) => plain(n, c || *d),
        Node::Hinted(_, n) => plain(n, c),
        n => n.clone(),
    }
}
pub fn hints_of(n: &Node, out: &mut Vec<&'static Tag>) {
    match n {
        Node::Seq(v, _) => v.iter().for_each(|n| hints_of(n, out)),
        Node::Map(v, _) => v.iter().for_each(|(k, n)| {
            hints_of(k, out);
            hints_of(n, out)
        }),
        Node::Tagged(_, Some(n)) | Node::Enum(_, Some(n)) | Node::Via(_, n) => hints_of(n, out),
        Node::Hinted(t, n) => {
            out.push(t);
            hints_of(n, out)
        }
        Node::Record(_, v, _) => v.iter().for_each(|(_, _, n)| hints_of(n, out)),
        Node::Tuple(_, v, _) => v.iter().for_each(|(_, _, n)| hints_of(n, out)),
        Node::RecordTuple(_, v, _) => v.iter().for_each(|(_, _, _, n)| hints_of(n, out)),
        _ => (),
    }
}

/// Stream through each adapter and compare with streaming directly.
fn adapters(n: &Node, k: usize, fail: Option<usize>) {
    let mut b = Builder::new();
    b.fail_at = fail;
    let mut bx: Option<Box<Builder>> = None;
    let mut computed = false;
    let bn = Box::new(n.clone());
    let rn = Ref::new(n);
    let r = match k {
        0 => n.stream(&mut &mut b),
        1 => n.stream(&mut &mut &mut b),
        2 => {
            let mut x = Box::new(b);
            let r = n.stream(&mut x);
            bx = Some(x);
            b = Builder::new();
            r
        }
        3 => {
            let s: &mut dyn sval_dynamic::Stream = &mut b;
            n.stream(s)
        }
        4 => {
            let mut s: Box<dyn sval_dynamic::Stream> = Box::new(&mut b);
            n.stream(&mut s)
        }
        5 => {
            let s: &mut (dyn sval_dynamic::Stream + Send + Sync) = &mut b;
            n.stream(s)
        }
        6 => (&&n).stream(&mut b),
        7 => bn.stream(&mut b),
        8 => {
            let v: &dyn sval_dynamic::Value = n;
            v.stream(&mut b)
        }
        9 => {
            let v: Box<dyn sval_dynamic::Value> = Box::new(n);
            let s: &mut dyn sval_dynamic::Stream = &mut b;
            v.stream(s)
        }
        10 => rn.stream(&mut b),
        11 => rn.stream_ref(&mut b),
        12 => sval_ref::stream_ref(&mut b, &rn),
        13 => sval::stream(&mut b, n),
        14 => {
            computed = true;
            sval::stream_computed(&mut b, n)
        }
        15 => {
            computed = true;
            b.value_computed(n)
        }
        16 => b.value(n),
        17 => {
            computed = true;
            let s: &mut dyn sval_dynamic::Stream = &mut b;
            s.value_computed(n)
        }
        18 => {
            computed = true;
            (&mut b).value_computed(&&n)
        }
        19 => {
            let s: &mut dyn sval_dynamic::Stream = &mut b;
            s.value(&n)
        }
        20 => sval_ref::Ref::new_borrowed(n).stream(&mut b),
        _ => {
            let v: &(dyn sval_dynamic::Value + Send + Sync) = &0u8;
            let _ = v;
            n.stream(&mut b)
        }
    };
    let b = match bx {
        Some(b) => *b,
        None => b,
    };
    if let Some(p) = &b.problem {
        panic!("adapter {}: {}", k, p);
    }
    if b.failed {
        assert!(r.is_err(), "adapter {}: an error was swallowed", k);
        return;
    }
    let want = plain(n, computed);
    let mut hints = vec![];
    hints_of(n, &mut hints);
    assert!(b.hints.len() == hints.len() && b.hints.iter().zip(&hints).all(|(a, b)| a == b), "adapter {}: hints changed", k);
    let got = b.finish(r);
    assert!(same_node(&got, &want, STRICT, true), "adapter {}: {:?} arrived as {:?}", k, want, got);
}
const N_ADAPTERS: usize = 21;

/// Every conversion of a value.
#[derive(PartialEq, Debug)]
struct Conv(Option<Tag>, Option<bool>, Option<u32>, Option<u64>, Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<i128>, Conv2);
#[derive(PartialEq, Debug)]
struct Conv2(Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>, Option<String>, Option<Vec<u8>>);
fn conv(v: &(impl Value + ?Sized)) -> Conv {
    Conv(
        v.tag(),
        v.to_bool(),
        v.to_f32().map(|v| v.to_bits()),
        v.to_f64().map(|v| v.to_bits()),
        v.to_i8(),
        v.to_i16(),
        v.to_i32(),
        v.to_i64(),
        v.to_i128(),
        Conv2(v.to_u8(), v.to_u16(), v.to_u32(), v.to_u64(), v.to_u128(), v.to_text().map(|s| s.to_string()), v.to_binary().map(|s| s.to_vec())),
    )
}
fn same_conv(v: &(impl Value + Clone)) {
    let want = conv(v);
    assert!(conv(&v) == want, "conversions change through a reference: {:?} {:?}", want, conv(&v));
    assert!(conv(&&v) == want, "conversions change through a reference");
    assert!(conv(&Box::new(v.clone())) == want, "conversions change through a box");
    let d: &dyn sval_dynamic::Value = v;
    assert!(conv(d) == want, "conversions change through a trait object: {:?} {:?}", want, conv(d));
    let d: &dyn sval_dynamic::Value = &v;
    assert!(conv(d) == want, "conversions change through a trait object");
    assert!(conv(&Ref::new(v.clone())) == want, "conversions change through a reference value");
    assert!(conv(&Ref::new(v)) == want, "conversions change through a reference value");
    let some = conv(&Some(v.clone()));
    assert!(Conv(want.0.clone(), some.1, some.2, some.3, some.4, some.5, some.6, some.7, some.8, some.9) == want, "conversions change inside an option: {:?}", want);
    assert!(some.0 == Some(sval::tags::RUST_OPTION_SOME));
}

// ---------------------------------------------------------------- C12

fn events(v: &(impl Value + ?Sized)) -> Node {
    rebuild(v)
}
fn is(v: &(impl Value + ?Sized), want: Node) {
    let got = events(v);
    assert!(same_node(&got, &want, STRICT, true), "streamed {:?} instead of {:?}", got, want);
}
fn off(i: usize) -> Ix {
    Ix { v: i as isize, tag: Some(&T_OFFSET) }
}
fn some_meta() -> Meta {
    Meta { tag: Some(&T_SOME), label: Some(Lab::ident("Some")), index: Some(off(1)) }
}
fn none_meta() -> Meta {
    Meta { tag: Some(&T_NONE), label: Some(Lab::ident("None")), index: Some(off(0)) }
}
fn tuple_of(v: Vec<Node>) -> Node {
    let n = v.len();
    Node::Tuple(META, v.into_iter().enumerate().map(|(i, n)| (None, off(i), n)).collect(), Some(n))
}

macro_rules! tuples {
    ($g:ident, $f:ident, $n:expr, [$($k:expr => ($($x:ident),+);)+]) => {
        match $n {
            $( $k => {
                $( let $x = small($g); )+
                let want = tuple_of(vec![$( plain(&$x, false) ),+]);
                $f!(($($x,)+), want);
            } )+
            _ => unreachable!(),
        }
    };
}

fn small(g: &mut Gen) -> Node {
    match g.choose(4) {
        0 => Node::Num(Ev::U8(g.choose(200) as u8)),
        1 => Node::text(LABELS[g.choose(LABELS.len())]),
        2 => Node::Bool(g.bool()),
        _ => Node::Seq(vec![Node::Num(Ev::I64(g.choose(9) as i64))], Some(1)),
    }
}

/// Displays in several writes, and may fail.
struct Shown(Vec<&'static str>, bool);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for s in &self.0 {
            f.write_str(s)?;
        }
        if self.1 { Err(fmt::Error) } else { Ok(()) }
    }
}

fn nodes(g: &mut Gen, max: usize) -> Vec<Node> {
    let n = g.choose(max + 1);
    (0..n).map(|_| gen_node(g, Shape { depth: 1, hinted: false, ..SHAPE })).collect()
}
fn seq_want(v: &[Node]) -> Node {
    Node::Seq(v.iter().map(|n| plain(n, false)).collect(), Some(v.len()))
}

// ---------------------------------------------------------------- C13

/// A reference to a node, as a value that holds a reference.
#[derive(Clone, Copy)]
struct NodeRef<'a>(&'a Node);
impl<'a> Value for NodeRef<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.0.stream(s)
    }
}
impl<'sval> ValueRef<'sval> for NodeRef<'sval> {
    fn stream_ref<S: Stream<'sval> + ?Sized>(&self, s: &mut S) -> sval::Result {
        self.0.stream(s)
    }
}

fn both<'a>(v: &(impl ValueRef<'a> + ?Sized), fails: bool) {
    let want = rebuild(v);
    let mut b = Builder::new();
    let r = v.stream_ref(&mut b);
    let got = b.finish(r);
    assert!(same_node(&got, &want, STRICT, true), "stream gives {:?}, stream_ref gives {:?}", want, got);
    if !fails {
        return;
    }
    for n in 0..60 {
        let mut b = Builder::failing(n);
        let r = v.stream_ref(&mut b);
        if !b.failed {
            break;
        }
        if let Some(p) = b.problem {
            panic!("failing call {}: {}", n, p);
        }
        assert!(r.is_err(), "an error returned by call {} was swallowed", n);
    }
}

/// A stream that insists its borrowed text outlives the value that was streamed.
struct Keep<'a>(Vec<&'a str>);
impl<'a> Stream<'a> for Keep<'a> {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn text_fragment(&mut self, t: &'a str) -> sval::Result { Ok(self.0.push(t)) }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
}

harnesses! {
    /// Numeric views of an index.
    ["C10", complete, unwind 8, random 40000, exhaustive false, "every constructor, boundary and random values"]
    fn index_views(g) {
        let (i, v) = gen_any_index(g);
        check_index(&i, v);
        check_index(&i.clone().with_tag(&T_OFFSET), v);
        assert!(same_tag(i.clone().with_tag(&T_OFFSET).tag(), Some(&T_OFFSET)) && i.tag().is_none());
        assert!(same_tag(i.clone().with_tag(&T_A).clone().tag(), Some(&T_A)));
    }
    /// Equality, ordering and hashing of indexes.
    ["C10", none, unwind 1, random 40000, exhaustive false, "pairs of indexes from every constructor"]
    fn index_order(g) {
        let (a, x) = gen_any_index(g);
        let (b, y) = if g.choose(3) == 0 { (Index::new_isize(x as i64 as isize), x as i64 as i128) } else { gen_any_index(g) };
        let b = if g.bool() { b.with_tag(&T_OFFSET) } else { b };
        assert!((a == b) == (x == y), "{} == {}", x, y);
        assert!(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)), "{} <=> {}", x, y);
        assert!(x != y || hash_of(&a) == hash_of(&b));
    }
    /// Labels keep their text and tag however they're built and copied.
    ["C10", none, unwind 1, random 20000, exhaustive false, "pairs of labels over 11 texts"]
    fn labels(g) { check_label(g) }
    /// Tags are equal exactly when their text is.
    ["C10", none, unwind 1, random 20000, exhaustive true, "pairs over 22 texts plus random ones"]
    fn tag_identity(g) {
        let text = |g: &mut Gen| {
            let k = g.choose(TAGNAMES.len() + 1);
            if k < TAGNAMES.len() { return TAGNAMES[k]; }
            let n = g.choose(20);
            let s: String = (0..n).map(|_| ['a', 'b', '\0'][g.choose(3)]).collect();
            intern(&s)
        };
        let a = text(g);
        let b = text(g);
        // same contents, different addresses
        let b2: &'static str = Box::leak(b.to_string().into_boxed_str());
        assert!((Tag::new(a) == Tag::new(b)) == (a == b), "tags {:?} and {:?} compare wrongly", a, b);
        assert!(Tag::new(b) == Tag::new(b2) && Tag::new(b).clone() == Tag::new(b2), "tags with the same text differ");
    }
    /// The built-in tags are distinct.
    ["C10", none, unwind 1, random 100, exhaustive true, "all pairs of built-in tags"]
    fn tag_builtin(g) {
        let t = [sval::tags::RUST_OPTION_SOME, sval::tags::RUST_OPTION_NONE, sval::tags::RUST_UNIT, sval::tags::NUMBER, sval::tags::CONSTANT_SIZE, sval::tags::VALUE_IDENT, sval::tags::VALUE_OFFSET,
            sval_json::tags::JSON_VALUE, sval_json::tags::JSON_TEXT, sval_json::tags::JSON_NUMBER];
        let i = g.choose(t.len());
        let j = g.choose(t.len());
        assert!((t[i] == t[j]) == (i == j), "built-in tags {:?} and {:?} compare wrongly", t[i], t[j]);
    }

    /// Whole values through every adapter.
    ["C11", none, unwind 1, random 60000, exhaustive false, "trees up to depth 3, 21 adapters"]
    fn adapt_tree(g) {
        let n = gen_node(g, SHAPE);
        let k = g.choose(N_ADAPTERS);
        adapters(&n, k, None);
    }
    /// The same, with the stream failing part way through.
    ["C11", none, unwind 1, random 60000, exhaustive false, "trees up to depth 3, 21 adapters, one failing call"]
    fn adapt_failing(g) {
        let n = gen_node(g, SHAPE);
        let k = g.choose(N_ADAPTERS);
        let f = g.choose(20);
        adapters(&n, k, Some(f));
    }
    /// Values that fail, through every adapter.
    ["C11", none, unwind 1, random 20000, exhaustive false, "trees up to depth 3 with one failing node"]
    fn adapt_failing_value(g) {
        let n = gen_node(g, SHAPE);
        let n = buffer_props::plant_failure(g, &n);
        let s = &mut buffer_props::Anything;
        let d: &dyn sval_dynamic::Value = &n;
        let r = match g.choose(6) {
            0 => (&&n).stream(s),
            1 => Box::new(n.clone()).stream(s),
            2 => d.stream(s),
            3 => Ref::new(&n).stream_ref(s),
            4 => sval::stream_computed(s, &n),
            _ => { let s: &mut dyn sval_dynamic::Stream = s; n.stream(s) }
        };
        assert!(r.is_err(), "a failed value streamed successfully");
    }
    /// Conversions give the same answer through every adapter.
    ["C11", none, unwind 1, random 20000, exhaustive false, "trees up to depth 2 and built-in types"]
    fn adapt_conversions(g) {
        match g.choose(10) {
            0 => same_conv(&g.u8()),
            1 => same_conv(&g.u64()),
            2 => same_conv(&g.u128()),
            3 => same_conv(&g.i16()),
            4 => same_conv(&g.i128()),
            5 => same_conv(&gen_str(g)),
            6 => same_conv(&g.bool()),
            7 => same_conv(&g.choose(9).to_string()),
            8 => { let b: Vec<u8> = (0..g.choose(4)).map(|_| g.u8()).collect(); let b: &'static [u8] = intern_bytes(&b); same_conv(&sval::BinarySlice::new(b)) }
            _ => { let n = gen_node(g, Shape { depth: 2, ..SHAPE }); same_conv(&n) }
        }
    }

    /// Numbers, booleans, text and characters.
    ["C12", none, unwind 1, random 40000, exhaustive false, "boundary and random values of every type"]
    fn std_scalars(g) {
        macro_rules! num { ($($k:expr => $f:ident $e:ident),*) => { match g.choose(18) {
            $( $k => { let v = g.$f(); is(&v, Node::Num(Ev::$e(v))) } )*
            12 => { let v = g.bool(); is(&v, Node::Bool(v)) }
            13 => { let s = gen_str(g); is(s, Node::text(s)); is(&s.to_string(), Node::text(s)); check_errors_propagate(&s, 5) }
            14 => {
                let s = gen_str(g);
                for c in s.chars() { let t = intern(&c.to_string()); is(&c, Node::Text(vec![(t, true)], Some(t.len()))); check_errors_propagate(&c, 5) }
            }
            15 => is(&(), Node::Tag(Meta::tag(&T_UNIT))),
            16 => is(&sval::Null, Node::Null),
            _ => {
                let k = g.choose(6);
                let b: Vec<u8> = (0..k).map(|_| g.u8()).collect();
                let bn = Node::Binary(vec![(intern_bytes(&b), false)], Some(b.len()));
                is(sval::BinarySlice::new(&b), bn);
                let a: [u8; 3] = [g.u8(), g.u8(), g.u8()];
                is(sval::BinaryArray::new(&a), Node::Tagged(Meta::tag(&T_CONST), Some(Node::Binary(vec![(intern_bytes(&a), false)], Some(3)).boxed())));
                assert!(sval::BinarySlice::new(&b).as_slice() == &*b && sval::BinaryArray::new(&a).as_slice() == &a);
                check_errors_propagate(&sval::BinaryArray::new(&a), 10);
                check_errors_propagate(&sval::BinarySlice::new(&b), 10);
            }
        } } }
        num!(0 => u8 U8, 1 => u16 U16, 2 => u32 U32, 3 => u64 U64, 4 => u128 U128, 5 => i8 I8, 6 => i16 I16, 7 => i32 I32, 8 => i64 I64, 9 => i128 I128, 10 => f32 F32, 11 => f64 F64);
    }
    /// Slices, vectors, arrays and options.
    ["C12", none, unwind 1, random 20000, exhaustive false, "up to 4 elements, each a tree of depth 1"]
    fn std_seq_option(g) {
        let v = nodes(g, 4);
        let want = seq_want(&v);
        match g.choose(6) {
            0 => { is(&*v, want); check_errors_propagate(&&*v, 60) }
            1 => { is(&v, want); check_errors_propagate(&v, 60) }
            2 => {
                let a: [Node; 2] = [small(g), small(g)];
                is(&a, Node::Tagged(Meta::tag(&T_CONST), Some(seq_want(&a).boxed())));
                check_errors_propagate(&a, 60);
                let a: [Node; 0] = [];
                is(&a, Node::Tagged(Meta::tag(&T_CONST), Some(seq_want(&a).boxed())));
            }
            3 => { is(&Some(&v), Node::Tagged(some_meta(), Some(want.boxed()))); check_errors_propagate(&Some(&v), 60) }
            4 => is(&None::<u8>, Node::Tag(none_meta())),
            _ => is(&vec![Some(&v), None], Node::Seq(vec![Node::Tagged(some_meta(), Some(want.boxed())), Node::Tag(none_meta())], Some(2))),
        }
    }
    /// Maps and slices of pairs.
    ["C12", none, unwind 1, random 20000, exhaustive false, "up to 4 entries"]
    fn std_map(g) {
        let vs = nodes(g, 4);
        let pairs: Vec<(Node, Node)> = vs.iter().map(|v| (gen_scalar(g), v.clone())).collect();
        let want = Node::Map(pairs.iter().map(|(k, v)| (plain(k, false), plain(v, false))).collect(), Some(pairs.len()));
        match g.choose(3) {
            0 => {
                let m = sval::MapSlice::new(&pairs);
                is(m, want);
                assert!(m.as_slice().len() == pairs.len() && AsRef::<[(Node, Node)]>::as_ref(m).len() == pairs.len());
                check_errors_propagate(&m, 60);
            }
            1 => {
                let m: BTreeMap<u8, Node> = vs.iter().map(|v| (g.u8(), v.clone())).collect();
                is(&m, Node::Map(m.iter().map(|(k, v)| (Node::Num(Ev::U8(*k)), plain(v, false))).collect(), Some(m.len())));
                check_errors_propagate(&m, 60);
            }
            _ => {
                let m: HashMap<u8, Node> = vs.iter().map(|v| (g.u8(), v.clone())).collect();
                is(&m, Node::Map(m.iter().map(|(k, v)| (Node::Num(Ev::U8(*k)), plain(v, false))).collect(), Some(m.len())));
                check_errors_propagate(&m, 60);
            }
        }
    }
    /// Tuples of every length.
    ["C12", none, unwind 1, random 20000, exhaustive false, "tuples of 1 to 16 elements"]
    fn std_tuple(g) {
        macro_rules! f { ($t:expr, $w:expr) => {{ let t = $t; is(&t, $w); check_errors_propagate(&t, 90) }} }
        let k = 1 + g.choose(16);
        tuples!(g, f, k, [1 => (a); 2 => (a, b); 3 => (a, b, c); 4 => (a, b, c, d); 5 => (a, b, c, d, e); 6 => (a, b, c, d, e, x6); 7 => (a, b, c, d, e, x6, x7);
            8 => (a, b, c, d, e, x6, x7, x8); 9 => (a, b, c, d, e, x6, x7, x8, x9); 10 => (a, b, c, d, e, x6, x7, x8, x9, x10); 11 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11);
            12 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12); 13 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13); 14 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13, x14);
            15 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15); 16 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16);]);
    }
    /// Displayed values.
    ["C12", none, unwind 1, random 10000, exhaustive false, "up to 3 writes, possibly failing"]
    fn std_display(g) {
        let k = g.choose(4);
        let s = Shown((0..k).map(|_| gen_str(g)).collect(), g.choose(4) == 0);
        let text: String = s.0.concat();
        let want = Node::text(&text);
        let d = sval::Display::new(&s);
        let frag = Lax { frag: true, ..STRICT };
        let mut b = Builder::new();
        let r = match g.choose(5) {
            0 => d.stream(&mut b),
            1 => sval::Display::new_borrowed(&&s).stream(&mut b),
            2 => sval::stream_display(&mut b, &s),
            3 => {
                b.text_begin(None).unwrap();
                let r = sval::stream_display_fragments(&mut b, &s);
                if r.is_ok() { b.text_end() } else { r }
            }
            _ => {
                let f = Some(g.choose(6));
                b.fail_at = f;
                let r = sval::Display::new(&s).stream(&mut b);
                if b.failed {
                    if let Some(p) = &b.problem { panic!("{}", p) }
                    assert!(r.is_err(), "an error was swallowed");
                    return;
                }
                r
            }
        };
        assert!(r.is_err() == s.1, "displaying {} but streaming {:?}", if s.1 { "failed" } else { "succeeded" }, r);
        if !s.1 {
            let got = b.finish(r);
            assert!(same_node(&got, &want, frag, false), "displayed {:?} but streamed {:?}", text, got);
        }
    }

    /// Streaming by internal reference is the same as streaming by reference.
    ["C13", none, unwind 1, random 30000, exhaustive false, "sequences up to 4 elements, each a tree of depth 2"]
    fn ref_values(g) {
        let v = nodes(g, 4);
        let r: Vec<NodeRef> = v.iter().map(NodeRef).collect();
        let fails = g.choose(4) == 0;
        match g.choose(8) {
            0 => both(&*r, fails),
            1 => both(&r, fails),
            2 => both(&Box::new(r), fails),
            3 => both(&&r, fails),
            4 => {
                let a: [Node; 3] = [small(g), small(g), small(g)];
                both(&[NodeRef(&a[0]), NodeRef(&a[1]), NodeRef(&a[2])], fails);
                let e: [NodeRef; 0] = [];
                both(&e, fails);
            }
            5 => {
                let n = gen_node(g, SHAPE);
                both(&NodeRef(&n), fails);
                both(&Ref::new(&n), fails);
                both(&sval_ref::to_ref(&n), fails);
                assert!(std::ptr::eq(*Ref::new(&n).inner(), &n) && std::ptr::eq(Ref::new(&n).into_inner(), &n));
            }
            6 => {
                let n = gen_node(g, SHAPE);
                let t = sval_buffer::ValueBuf::collect(&n).unwrap();
                let a = rebuild(&t);
                let mut b = Builder::new();
                let r = t.stream_ref(&mut b);
                assert!(same_node(&a, &b.finish(r), Lax { frag: true, ..STRICT }, true));
            }
            _ => {
                // what's borrowed outlives the value that held the reference
                let n = Node::Seq(v.clone(), None);
                let mut k = Keep(vec![]);
                let mut k2 = Keep(vec![]);
                {
                    let x = NodeRef(&n);
                    vec![x, x].stream_ref(&mut k).unwrap();
                    n.stream(&mut k2).unwrap();
                }
                assert!(k.0.len() == 2 * k2.0.len() && k.0.iter().zip(k2.0.iter().chain(&k2.0)).all(|(a, b)| a.as_ptr() == b.as_ptr() && a == b), "borrowed text was copied or reordered");
            }
        }
    }
    /// Tuples of every length.
    ["C13", none, unwind 1, random 20000, exhaustive false, "tuples of 1 to 16 elements"]
    fn ref_tuple(g) {
        let k = 1 + g.choose(16);
        macro_rules! rt { ([$($k:expr => ($($x:ident),+);)+]) => { match k { $( $k => {
            $( let $x = small(g); )+
            let want = tuple_of(vec![$( plain(&$x, false) ),+]);
            let t = ($(NodeRef(&$x),)+);
            both(&t, true);
            is(&t, want);
        } )+ _ => unreachable!() } } }
        rt!([1 => (a); 2 => (a, b); 3 => (a, b, c); 4 => (a, b, c, d); 5 => (a, b, c, d, e); 6 => (a, b, c, d, e, x6); 7 => (a, b, c, d, e, x6, x7);
            8 => (a, b, c, d, e, x6, x7, x8); 9 => (a, b, c, d, e, x6, x7, x8, x9); 10 => (a, b, c, d, e, x6, x7, x8, x9, x10); 11 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11);
            12 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12); 13 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13); 14 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13, x14);
            15 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15); 16 => (a, b, c, d, e, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16);]);
    }
}
