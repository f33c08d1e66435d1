//! sval_nested: the recursive stream sees the same value.
use crate::tree::*;
use crate::*;
use std::cell::Cell;
use sval::{Index, Label, Tag, Value};
use sval_nested::{Error, Result, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple, Unsupported, ValueRef};

/// Shared by all parts of one run: counts calls, fails one of them, and notices calls after a failure.
pub struct Ctl {
    calls: Cell<usize>,
    fail_at: Option<usize>,
    failed: Cell<bool>,
    late: Cell<bool>,
    /// Children are rebuilt from the flat stream rather than the nested one.
    flat: bool,
}
impl Ctl {
    fn new(flat: bool, fail_at: Option<usize>) -> Ctl {
        Ctl { calls: Cell::new(0), fail_at, failed: Cell::new(false), late: Cell::new(false), flat }
    }
    fn call(&self) -> Result {
        if self.failed.get() {
            self.late.set(true);
        }
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail_at == Some(n) {
            self.failed.set(true);
            return Err(Error::invalid_value("planned"));
        }
        Ok(())
    }
    fn child(&self, v: &impl Value) -> Result<Node> {
        if self.flat {
            let mut b = Builder::new();
            match v.stream(&mut b) {
                Ok(()) => Ok(b.finish(Ok(()))),
                Err(_) => {
                    if let Some(p) = b.problem {
                        panic!("malformed child: {}", p);
                    }
                    Err(Error::invalid_value("child"))
                }
            }
        } else {
            sval_nested::stream_computed(NB(self), v)
        }
    }
}
fn meta(t: &Option<Tag>, l: &Option<Label>, i: &Option<Index>) -> Meta {
    Meta::of(otag(t.as_ref()), &l.as_ref().map(|l| lab(l)), &i.as_ref().map(|i| ix(i)))
}

#[derive(Clone, Copy)]
pub struct NB<'c>(&'c Ctl);
pub struct NSeq<'c>(&'c Ctl, Vec<Node>, Hint);
pub struct NMap<'c>(&'c Ctl, Vec<(Node, Node)>, Hint, Option<Node>);
pub struct NTuple<'c>(&'c Ctl, Meta, Vec<(Tg, Ix, Node)>, Hint, Option<Meta>);
pub struct NRecord<'c>(&'c Ctl, Meta, Vec<(Tg, Lab<'static>, Node)>, Hint, Option<Meta>);
pub struct NEnum<'c>(&'c Ctl, Meta);

macro_rules! nums {
    ($($f:ident $t:ty, $e:ident);*) => { $( fn $f(self, v: $t) -> Result<Node> { self.0.call()?; Ok(Node::Num(Ev::$e(v))) } )* };
}
impl<'c, 'sval> sval_nested::Stream<'sval> for NB<'c> {
    type Ok = Node;
    type Seq = NSeq<'c>;
    type Map = NMap<'c>;
    type Tuple = NTuple<'c>;
    type Record = NRecord<'c>;
    type Enum = NEnum<'c>;
    fn null(self) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Null)
    }
    fn bool(self, v: bool) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Bool(v))
    }
    nums!(i8 i8, I8; i16 i16, I16; i32 i32, I32; i64 i64, I64; i128 i128, I128; u8 u8, U8; u16 u16, U16; u32 u32, U32; u64 u64, U64; u128 u128, U128; f32 f32, F32; f64 f64, F64);
    fn text(self, t: &'sval str) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Text(vec![(intern(t), false)], None))
    }
    fn text_computed(self, t: &str) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Text(vec![(intern(t), true)], None))
    }
    fn binary(self, t: &'sval [u8]) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Binary(vec![(intern_bytes(t), false)], None))
    }
    fn binary_computed(self, t: &[u8]) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Binary(vec![(intern_bytes(t), true)], None))
    }
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Tag(meta(&t, &l, &i)))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Node> {
        self.0.call()?;
        let n = if self.0.flat { self.0.child(&v)? } else { sval_nested::stream(NB(self.0), v)? };
        Ok(Node::Tagged(meta(&t, &l, &i), Some(n.boxed())))
    }
    fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Tagged(meta(&t, &l, &i), Some(self.0.child(&v)?.boxed())))
    }
    fn seq_begin(self, h: Hint) -> Result<NSeq<'c>> {
        self.0.call()?;
        Ok(NSeq(self.0, vec![], h))
    }
    fn map_begin(self, h: Hint) -> Result<NMap<'c>> {
        self.0.call()?;
        Ok(NMap(self.0, vec![], h, None))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, h: Hint) -> Result<NTuple<'c>> {
        self.0.call()?;
        Ok(NTuple(self.0, meta(&t, &l, &i), vec![], h, None))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, h: Hint) -> Result<NRecord<'c>> {
        self.0.call()?;
        Ok(NRecord(self.0, meta(&t, &l, &i), vec![], h, None))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<NEnum<'c>> {
        self.0.call()?;
        Ok(NEnum(self.0, meta(&t, &l, &i)))
    }
}
impl<'c, 'sval> StreamSeq<'sval> for NSeq<'c> {
    type Ok = Node;
    fn value_computed<V: Value>(&mut self, v: V) -> Result {
        self.0.call()?;
        self.1.push(self.0.child(&v)?);
        Ok(())
    }
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        self.0.call()?;
        let n = if self.0.flat { self.0.child(&v)? } else { sval_nested::stream(NB(self.0), v)? };
        self.1.push(n);
        Ok(())
    }
    fn end(self) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Seq(self.1, self.2))
    }
}
impl<'c, 'sval> StreamMap<'sval> for NMap<'c> {
    type Ok = Node;
    fn key_computed<V: Value>(&mut self, v: V) -> Result {
        self.0.call()?;
        assert!(self.3.is_none(), "a key follows a key");
        self.3 = Some(self.0.child(&v)?);
        Ok(())
    }
    fn value_computed<V: Value>(&mut self, v: V) -> Result {
        self.0.call()?;
        let k = self.3.take().expect("a value without its key");
        self.1.push((k, self.0.child(&v)?));
        Ok(())
    }
    fn end(self) -> Result<Node> {
        self.0.call()?;
        assert!(self.3.is_none(), "a key without its value");
        Ok(Node::Map(self.1, self.2))
    }
}
fn wrap(m: &Option<Meta>, n: Node) -> Node {
    match m {
        Some(m) => Node::Enum(*m, Some(n.boxed())),
        None => n,
    }
}
impl<'c, 'sval> StreamTuple<'sval> for NTuple<'c> {
    type Ok = Node;
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        self.0.call()?;
        self.2.push((otag(t.as_ref()), own_ix(&ix(&i)), self.0.child(&v)?));
        Ok(())
    }
    fn end(self) -> Result<Node> {
        self.0.call()?;
        Ok(wrap(&self.4, Node::Tuple(self.1, self.2, self.3)))
    }
}
impl<'c, 'sval> StreamRecord<'sval> for NRecord<'c> {
    type Ok = Node;
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        self.0.call()?;
        self.2.push((otag(t.as_ref()), own_lab(&lab(&l)), self.0.child(&v)?));
        Ok(())
    }
    fn end(self) -> Result<Node> {
        self.0.call()?;
        Ok(wrap(&self.4, Node::Record(self.1, self.2, self.3)))
    }
}
impl<'c, 'sval> StreamEnum<'sval> for NEnum<'c> {
    type Ok = Node;
    type Tuple = NTuple<'c>;
    type Record = NRecord<'c>;
    type Nested = NEnum<'c>;
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Enum(self.1, Some(Node::Tag(meta(&t, &l, &i)).boxed())))
    }
    fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Enum(self.1, Some(Node::Tagged(meta(&t, &l, &i), Some(self.0.child(&v)?.boxed())).boxed())))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, h: Hint) -> Result<NTuple<'c>> {
        self.0.call()?;
        Ok(NTuple(self.0, meta(&t, &l, &i), vec![], h, Some(self.1)))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, h: Hint) -> Result<NRecord<'c>> {
        self.0.call()?;
        Ok(NRecord(self.0, meta(&t, &l, &i), vec![], h, Some(self.1)))
    }
    fn nested<F: FnOnce(NEnum<'c>) -> Result<Node>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> Result<Node> {
        self.0.call()?;
        let n = f(NEnum(self.0, meta(&t, &l, &i)))?;
        Ok(Node::Enum(self.1, Some(n.boxed())))
    }
    fn empty(self) -> Result<Node> {
        self.0.call()?;
        Ok(Node::Enum(self.1, None))
    }
}

/// Only what the trait requires.
#[derive(Clone, Copy)]
struct Least;
impl<'sval> sval_nested::Stream<'sval> for Least {
    type Ok = Node;
    type Seq = NSeq<'static>;
    type Map = Unsupported<Node>;
    type Tuple = Unsupported<Node>;
    type Record = Unsupported<Node>;
    type Enum = Unsupported<Node>;
    fn null(self) -> Result<Node> {
        Ok(Node::Null)
    }
    fn bool(self, v: bool) -> Result<Node> {
        Ok(Node::Bool(v))
    }
    fn i64(self, v: i64) -> Result<Node> {
        Ok(Node::Num(Ev::I64(v)))
    }
    fn f64(self, v: f64) -> Result<Node> {
        Ok(Node::Num(Ev::F64(v)))
    }
    fn text_computed(self, t: &str) -> Result<Node> {
        Ok(Node::Text(vec![(intern(t), true)], None))
    }
    fn seq_begin(self, h: Hint) -> Result<NSeq<'static>> {
        let c: &'static Ctl = Box::leak(Box::new(Ctl::new(true, None)));
        Ok(NSeq(c, vec![], h))
    }
    fn map_begin(self, _: Hint) -> Result<Self::Map> {
        Err(Error::invalid_value("no"))
    }
    fn tuple_begin(self, _: Option<Tag>, _: Option<Label>, _: Option<Index>, _: Hint) -> Result<Self::Tuple> {
        Err(Error::invalid_value("no"))
    }
    fn record_begin(self, _: Option<Tag>, _: Option<Label>, _: Option<Index>, _: Hint) -> Result<Self::Record> {
        Err(Error::invalid_value("no"))
    }
    fn enum_begin(self, _: Option<Tag>, _: Option<Label>, _: Option<Index>) -> Result<Self::Enum> {
        Err(Error::invalid_value("no"))
    }
}

/// Documented losses: text and binary arrive whole and without a size hint, and positions of labeled fields aren't kept.
fn plain(n: &Node) -> Node {
    fn go(n: Node) -> Node {
        let b = |n: Option<Box<Node>>| n.map(|n| go(*n).boxed());
        match n {
            Node::Text(f, _) => Node::Text(f, None),
            Node::Binary(f, _) => Node::Binary(f, None),
            Node::Seq(v, h) => Node::Seq(v.into_iter().map(go).collect(), h),
            Node::Map(v, h) => Node::Map(v.into_iter().map(|(k, v)| (go(k), go(v))).collect(), h),
            Node::Tagged(m, n) => Node::Tagged(m, b(n)),
            Node::Enum(m, n) => Node::Enum(m, b(n)),
            Node::Record(m, f, h) => Node::Record(m, f.into_iter().map(|(t, l, n)| (t, l, go(n))).collect(), h),
            Node::Tuple(m, f, h) => Node::Tuple(m, f.into_iter().map(|(t, l, n)| (t, l, go(n))).collect(), h),
            Node::RecordTuple(m, f, h) => Node::Record(m, f.into_iter().map(|(t, l, _, n)| (t, l, go(n))).collect(), h),
            n => n,
        }
    }
    go(normal(n))
}
const LAX: Lax = Lax { frag: true, label_static: true, ..STRICT };

/// The recursive interface can't express these: structured variants of nested enums.
fn inexpressible(n: &Node) -> bool {
    n.any(&|n| {
        let mut n: &Node = n;
        let mut depth = 0;
        loop {
            match n {
                Node::Via(_, x) | Node::Hinted(_, x) if depth > 0 => n = x,
                Node::Enum(_, Some(x)) => {
                    depth += 1;
                    n = x
                }
                Node::Record(..) | Node::Tuple(..) | Node::RecordTuple(..) => break depth > 1,
                _ => break false,
            }
        }
    })
}
fn gen(g: &mut Gen) -> Node {
    let n = gen_node(g, NSHAPE);
    if n.any(&|n| matches!(n, Node::Tagged(_, None))) {
        return Node::Enum(gen_meta(g), None);
    }
    n
}
const NSHAPE: Shape = Shape { empty_tagged: true, ..SHAPE };
pub fn run(n: &Node, how: usize, c: &Ctl) -> Result<Node> {
    match how {
        0 => sval_nested::stream_ref(NB(c), n),
        1 => sval_nested::stream(NB(c), sval_ref::to_ref(n)),
        _ => sval_nested::stream_computed(NB(c), n),
    }
}
/// Put a failure somewhere in the tree.
pub fn plant(g: &mut Gen, n: &Node) -> Node {
    let after = g.bool();
    let here = |n: &Node| if after { Node::After(n.clone().boxed()) } else { Node::Fail };
    if g.choose(4) == 0 {
        return here(n);
    }
    let pick = |g: &mut Gen, k: usize| g.choose(k);
    match n {
        Node::Via(b, n) => Node::Via(*b, plant(g, n).boxed()),
        Node::Hinted(b, n) => Node::Hinted(b, plant(g, n).boxed()),
        Node::Seq(v, h) if !v.is_empty() => {
            let mut v = v.clone();
            let k = pick(g, v.len());
            v[k] = plant(g, &v[k]);
            Node::Seq(v, *h)
        }
        Node::Map(v, h) if !v.is_empty() => {
            let mut v = v.clone();
            let k = pick(g, v.len());
            if g.bool() { v[k].0 = plant(g, &v[k].0) } else { v[k].1 = plant(g, &v[k].1) }
            Node::Map(v, *h)
        }
        Node::Tagged(m, Some(n)) => Node::Tagged(*m, Some(plant(g, n).boxed())),
        Node::Enum(m, Some(n)) => Node::Enum(*m, Some(plant(g, n).boxed())),
        Node::Record(m, f, h) if !f.is_empty() => {
            let mut f = f.clone();
            let k = pick(g, f.len());
            f[k].2 = plant(g, &f[k].2);
            Node::Record(*m, f, *h)
        }
        Node::Tuple(m, f, h) if !f.is_empty() => {
            let mut f = f.clone();
            let k = pick(g, f.len());
            f[k].2 = plant(g, &f[k].2);
            Node::Tuple(*m, f, *h)
        }
        _ => here(n),
    }
}

harnesses! {
    /// The recursive stream rebuilds the value that was streamed.
    ["C18", none, unwind 1, random 60000, exhaustive false, "trees of depth 3 and width 3"]
    fn nested_same(g) {
        let n = gen(g);
        let c = Ctl::new(g.bool(), None);
        let r = run(&n, g.choose(3), &c);
        match r {
            Ok(got) => {
                let (want, got) = (plain(&n), plain(&got));
                assert!(same_node(&got, &want, LAX, true), "nested stream saw {:?} for {:?}", got, want);
            }
            Err(e) => assert!(inexpressible(&n), "{} for {:?}", e, n),
        }
    }
    /// A failing part of the recursive stream fails the whole, and isn't called again.
    ["C18", none, unwind 1, random 20000, exhaustive false, "trees of depth 3 and width 3, every failing call"]
    fn nested_faults(g) {
        let n = gen(g);
        let (flat, how) = (g.bool(), g.choose(3));
        if inexpressible(&n) { return }
        for at in 0..200 {
            let c = Ctl::new(flat, Some(at));
            let r = run(&n, how, &c);
            if !c.failed.get() {
                assert!(r.is_ok());
                break;
            }
            assert!(r.is_err(), "failing call {} went unnoticed for {:?}", at, n);
            assert!(!c.late.get(), "the stream was called after call {} failed for {:?}", at, n);
        }
    }
    /// A value that fails part way through, or after streaming everything, fails the whole.
    ["C18", none, unwind 1, random 40000, exhaustive false, "trees of depth 3 and width 3, a failure anywhere"]
    fn nested_value_faults(g) {
        let n = gen(g);
        let n = plant(g, &n);
        let c = Ctl::new(g.bool(), None);
        assert!(run(&n, g.choose(3), &c).is_err(), "the failure in {:?} went unnoticed", n);
    }
    /// A stream with only the required methods sees scalars of the same value.
    ["C18", none, unwind 1, random 20000, exhaustive false, "all scalars"]
    fn nested_least(g) {
        let n = match g.choose(3) {
            0 => Node::Binary(vec![(BINS[g.choose(BINS.len())], g.bool())], None),
            1 => Node::Tagged(gen_meta(g), Some(gen_scalar(g).boxed())),
            _ => gen_scalar(g),
        };
        let got = match g.choose(2) {
            0 => sval_nested::stream_ref(Least, &n),
            _ => sval_nested::stream_computed(Least, &n),
        }.expect("scalars can always be streamed");
        let n = match &n { Node::Tagged(_, Some(n)) => &**n, n => n };
        match (n, &got) {
            (Node::Num(a), b) if a.int().is_some() => {
                let (neg, abs) = a.int().unwrap();
                let want = format!("{}{}", if neg { "-" } else { "" }, abs);
                match b {
                    Node::Num(Ev::I64(b)) => assert_eq!(b.to_string(), want),
                    Node::Text(t, _) => {
                        assert!(want.parse::<i64>().is_err(), "{} fits but arrived as text", want);
                        assert_eq!(t[0].0, want);
                    }
                    b => panic!("{:?} for {}", b, want),
                }
            }
            (Node::Num(a), Node::Num(Ev::F64(b))) => assert_eq!(a.float().unwrap().to_bits(), b.to_bits()),
            (Node::Binary(f, _), Node::Seq(v, _)) => {
                let want: Vec<u8> = f.iter().flat_map(|f| f.0.iter().copied()).collect();
                assert_eq!(v.len(), want.len());
                for (a, b) in v.iter().zip(want) { assert!(matches!(a, Node::Num(Ev::U8(a)) if *a == b)); }
            }
            (a, b) => assert!(same_node(&plain(a), &plain(b), LAX, true), "{:?} for {:?}", b, a),
        }
    }
}
