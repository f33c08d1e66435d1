//! sval_serde, both ways, against a tree of serde's data model.
use crate::tree::*;
use crate::*;
use serde::ser::{self, Serialize, Serializer};
use std::cell::Cell;

type Str = &'static str;
/// serde's data model.
#[derive(Clone, Debug, PartialEq)]
pub enum SN {
    Bool(bool),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(u32), F64(u64),
    Char(char),
    Str(Str),
    /// Through `collect_str`.
    Display(Str, Str),
    Bytes(&'static [u8]),
    None,
    Some(Box<SN>),
    Unit,
    UnitStruct(Str),
    UnitVariant(Str, u32, Str),
    Newtype(Str, Box<SN>),
    NewtypeVariant(Str, u32, Str, Box<SN>),
    Seq(Vec<SN>, Option<usize>),
    Tuple(Vec<SN>, usize),
    TupleStruct(Str, Vec<SN>, usize),
    TupleVariant(Str, u32, Str, Vec<SN>, usize),
    Map(Vec<(SN, SN)>, Option<usize>),
    Struct(Str, Vec<(Str, SN)>, usize),
    StructVariant(Str, u32, Str, Vec<(Str, SN)>, usize),
    Fail,
}
struct Two(Str, Str);
impl std::fmt::Display for Two {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)
    }
}
impl Serialize for SN {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            SN::Bool(v) => s.serialize_bool(*v),
            SN::I8(v) => s.serialize_i8(*v),
            SN::I16(v) => s.serialize_i16(*v),
            SN::I32(v) => s.serialize_i32(*v),
            SN::I64(v) => s.serialize_i64(*v),
            SN::I128(v) => s.serialize_i128(*v),
            SN::U8(v) => s.serialize_u8(*v),
            SN::U16(v) => s.serialize_u16(*v),
            SN::U32(v) => s.serialize_u32(*v),
            SN::U64(v) => s.serialize_u64(*v),
            SN::U128(v) => s.serialize_u128(*v),
            SN::F32(v) => s.serialize_f32(f32::from_bits(*v)),
            SN::F64(v) => s.serialize_f64(f64::from_bits(*v)),
            SN::Char(v) => s.serialize_char(*v),
            SN::Str(v) => s.serialize_str(v),
            SN::Display(a, b) => s.collect_str(&Two(a, b)),
            SN::Bytes(v) => s.serialize_bytes(v),
            SN::None => s.serialize_none(),
            SN::Some(v) => s.serialize_some(v),
            SN::Unit => s.serialize_unit(),
            SN::UnitStruct(n) => s.serialize_unit_struct(n),
            SN::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            SN::Newtype(n, v) => s.serialize_newtype_struct(n, v),
            SN::NewtypeVariant(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, x),
            SN::Seq(v, h) => {
                use ser::SerializeSeq;
                let mut s = s.serialize_seq(*h)?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            SN::Tuple(v, h) => {
                use ser::SerializeTuple;
                let mut s = s.serialize_tuple(*h)?;
                for x in v {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            SN::TupleStruct(n, v, h) => {
                use ser::SerializeTupleStruct;
                let mut s = s.serialize_tuple_struct(n, *h)?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            SN::TupleVariant(n, i, m, v, h) => {
                use ser::SerializeTupleVariant;
                let mut s = s.serialize_tuple_variant(n, *i, m, *h)?;
                for x in v {
                    s.serialize_field(x)?;
                }
                s.end()
            }
            SN::Map(v, h) => {
                use ser::SerializeMap;
                let mut s = s.serialize_map(*h)?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_key(k)?;
                        s.serialize_value(x)?;
                    } else {
                        s.serialize_entry(k, x)?;
                    }
                }
                s.end()
            }
            SN::Struct(n, v, h) => {
                use ser::SerializeStruct;
                let mut s = s.serialize_struct(n, *h)?;
                for (k, x) in v {
                    s.serialize_field(k, x)?;
                }
                s.end()
            }
            SN::StructVariant(n, i, m, v, h) => {
                use ser::SerializeStructVariant;
                let mut s = s.serialize_struct_variant(n, *i, m, *h)?;
                for (k, x) in v {
                    s.serialize_field(k, x)?;
                }
                s.end()
            }
            SN::Fail => Err(ser::Error::custom("planned")),
        }
    }
}

// ---------------------------------------------------------------- a serializer that rebuilds the tree

#[derive(Debug)]
pub struct SErr;
impl std::fmt::Display for SErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl ser::Error for SErr {
    fn custom<T: std::fmt::Display>(_: T) -> SErr {
        SErr
    }
}
impl std::error::Error for SErr {}

pub struct SC {
    calls: Cell<usize>,
    fail_at: Option<usize>,
    failed: Cell<bool>,
    late: Cell<bool>,
}
impl SC {
    fn new(fail_at: Option<usize>) -> SC {
        SC { calls: Cell::new(0), fail_at, failed: Cell::new(false), late: Cell::new(false) }
    }
    fn call(&self) -> Result<(), SErr> {
        if self.failed.get() {
            self.late.set(true);
        }
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail_at == Some(n) {
            self.failed.set(true);
            return Err(SErr);
        }
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct SB<'c>(&'c SC);
pub struct SOpen<'c>(&'c SC, SN, Option<SN>);
macro_rules! sser {
    ($($f:ident $t:ty, $e:ident);*) => { $( fn $f(self, v: $t) -> Result<SN, SErr> { self.0.call()?; Ok(SN::$e(v)) } )* };
}
impl<'c> Serializer for SB<'c> {
    type Ok = SN;
    type Error = SErr;
    type SerializeSeq = SOpen<'c>;
    type SerializeTuple = SOpen<'c>;
    type SerializeTupleStruct = SOpen<'c>;
    type SerializeTupleVariant = SOpen<'c>;
    type SerializeMap = SOpen<'c>;
    type SerializeStruct = SOpen<'c>;
    type SerializeStructVariant = SOpen<'c>;
    sser!(serialize_bool bool, Bool; serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64; serialize_i128 i128, I128;
          serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64; serialize_u128 u128, U128; serialize_char char, Char);
    fn serialize_f32(self, v: f32) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::F64(v.to_bits()))
    }
    fn serialize_str(self, v: &str) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Str(intern(v)))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Bytes(intern_bytes(v)))
    }
    fn serialize_none(self) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Unit)
    }
    fn serialize_unit_struct(self, n: Str) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::UnitStruct(n))
    }
    fn serialize_unit_variant(self, n: Str, i: u32, v: Str) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: Str, v: &T) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Newtype(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: Str, i: u32, m: Str, v: &T) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::NewtypeVariant(n, i, m, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, h: Option<usize>) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::Seq(vec![], h), None))
    }
    fn serialize_tuple(self, h: usize) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::Tuple(vec![], h), None))
    }
    fn serialize_tuple_struct(self, n: Str, h: usize) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::TupleStruct(n, vec![], h), None))
    }
    fn serialize_tuple_variant(self, n: Str, i: u32, m: Str, h: usize) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::TupleVariant(n, i, m, vec![], h), None))
    }
    fn serialize_map(self, h: Option<usize>) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::Map(vec![], h), None))
    }
    fn serialize_struct(self, n: Str, h: usize) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::Struct(n, vec![], h), None))
    }
    fn serialize_struct_variant(self, n: Str, i: u32, m: Str, h: usize) -> Result<SOpen<'c>, SErr> {
        self.0.call()?;
        Ok(SOpen(self.0, SN::StructVariant(n, i, m, vec![], h), None))
    }
}
impl<'c> SOpen<'c> {
    fn elem<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> {
        self.0.call()?;
        let v = v.serialize(SB(self.0))?;
        match &mut self.1 {
            SN::Seq(x, _) | SN::Tuple(x, _) | SN::TupleStruct(_, x, _) | SN::TupleVariant(_, _, _, x, _) => x.push(v),
            _ => panic!("an element outside a sequence or tuple"),
        }
        Ok(())
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: Str, v: &T) -> Result<(), SErr> {
        self.0.call()?;
        let v = v.serialize(SB(self.0))?;
        match &mut self.1 {
            SN::Struct(_, x, _) | SN::StructVariant(_, _, _, x, _) => x.push((k, v)),
            _ => panic!("a field outside a struct"),
        }
        Ok(())
    }
    fn done(self) -> Result<SN, SErr> {
        self.0.call()?;
        assert!(self.2.is_none(), "a key without its value");
        Ok(self.1)
    }
}
macro_rules! elems {
    ($($t:ident $f:ident)*) => { $( impl<'c> ser::$t for SOpen<'c> {
        type Ok = SN;
        type Error = SErr;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> { self.elem(v) }
        fn end(self) -> Result<SN, SErr> { self.done() }
    } )* };
}
elems!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident)*) => { $( impl<'c> ser::$t for SOpen<'c> {
        type Ok = SN;
        type Error = SErr;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: Str, v: &T) -> Result<(), SErr> { self.field(k, v) }
        fn end(self) -> Result<SN, SErr> { self.done() }
    } )* };
}
fields!(SerializeStruct SerializeStructVariant);
impl<'c> ser::SerializeMap for SOpen<'c> {
    type Ok = SN;
    type Error = SErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> {
        self.0.call()?;
        assert!(self.2.is_none(), "a key follows a key");
        self.2 = Some(v.serialize(SB(self.0))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> {
        self.0.call()?;
        let k = self.2.take().expect("a value without its key");
        let v = v.serialize(SB(self.0))?;
        match &mut self.1 {
            SN::Map(x, _) => x.push((k, v)),
            _ => panic!("an entry outside a map"),
        }
        Ok(())
    }
    fn end(self) -> Result<SN, SErr> {
        self.done()
    }
}

// ---------------------------------------------------------------- oracles

fn named(n: Str) -> Meta {
    Meta { tag: None, label: Some(Lab { text: n, stat: Some(n), tag: None }), index: None }
}
fn variant(n: Str, i: u32) -> Meta {
    Meta { index: Some(Ix::n(i as isize)), ..named(n) }
}
/// The same value in sval's data model.
fn to_node(s: &SN) -> Node {
    let kids = |v: &Vec<SN>| v.iter().enumerate().map(|(i, x)| (None, Ix { v: i as isize, tag: None }, to_node(x))).collect::<Vec<_>>();
    let fields = |v: &Vec<(Str, SN)>| v.iter().map(|(k, x)| (None, Lab { text: *k, stat: Some(*k), tag: None }, to_node(x))).collect::<Vec<_>>();
    let en = |n: Str, x: Node| Node::Enum(named(n), Some(x.boxed()));
    match s {
        SN::Bool(v) => Node::Bool(*v),
        SN::I8(v) => Node::Num(Ev::I8(*v)),
        SN::I16(v) => Node::Num(Ev::I16(*v)),
        SN::I32(v) => Node::Num(Ev::I32(*v)),
        SN::I64(v) => Node::Num(Ev::I64(*v)),
        SN::I128(v) => Node::Num(Ev::I128(*v)),
        SN::U8(v) => Node::Num(Ev::U8(*v)),
        SN::U16(v) => Node::Num(Ev::U16(*v)),
        SN::U32(v) => Node::Num(Ev::U32(*v)),
        SN::U64(v) => Node::Num(Ev::U64(*v)),
        SN::U128(v) => Node::Num(Ev::U128(*v)),
        SN::F32(v) => Node::Num(Ev::F32(f32::from_bits(*v))),
        SN::F64(v) => Node::Num(Ev::F64(f64::from_bits(*v))),
        SN::Char(c) => Node::text(&c.to_string()),
        SN::Str(t) => Node::text(t),
        SN::Display(a, b) => Node::text(&format!("{}{}", a, b)),
        SN::Bytes(b) => Node::Binary(vec![(b, false)], None),
        SN::None => rebuild(&None::<()>),
        SN::Unit => rebuild(&()),
        SN::Some(x) => match rebuild(&Some(true)) {
            Node::Tagged(m, _) => Node::Tagged(m, Some(to_node(x).boxed())),
            n => panic!("{:?} is how Some streams", n),
        },
        SN::UnitStruct(n) => Node::Tag(named(n)),
        SN::UnitVariant(n, i, m) => en(n, Node::Tag(variant(m, *i))),
        SN::Newtype(n, x) => Node::Tagged(named(n), Some(to_node(x).boxed())),
        SN::NewtypeVariant(n, i, m, x) => en(n, Node::Tagged(variant(m, *i), Some(to_node(x).boxed()))),
        SN::Seq(v, h) => Node::Seq(v.iter().map(to_node).collect(), *h),
        SN::Map(v, h) => Node::Map(v.iter().map(|(k, v)| (to_node(k), to_node(v))).collect(), *h),
        SN::Tuple(v, h) => Node::Tuple(META, kids(v), Some(*h)),
        SN::TupleStruct(n, v, h) => Node::Tuple(named(n), kids(v), Some(*h)),
        SN::TupleVariant(n, i, m, v, h) => en(n, Node::Tuple(variant(m, *i), kids(v), Some(*h))),
        SN::Struct(n, v, h) => Node::Record(named(n), fields(v), Some(*h)),
        SN::StructVariant(n, i, m, v, h) => en(n, Node::Record(variant(m, *i), fields(v), Some(*h))),
        SN::Fail => Node::Fail,
    }
}
/// Text and binary carry no hint worth comparing: the size of displayed text isn't known.
fn unhint(n: &Node) -> Node {
    let b = |n: &Option<Box<Node>>| n.as_ref().map(|n| unhint(n).boxed());
    match n {
        Node::Text(f, _) => Node::Text(f.clone(), None),
        Node::Binary(f, _) => Node::Binary(f.clone(), None),
        Node::Seq(v, h) => Node::Seq(v.iter().map(unhint).collect(), *h),
        Node::Map(v, h) => Node::Map(v.iter().map(|(k, v)| (unhint(k), unhint(v))).collect(), *h),
        Node::Tagged(m, n) => Node::Tagged(*m, b(n)),
        Node::Enum(m, n) => Node::Enum(*m, b(n)),
        Node::Record(m, f, h) => Node::Record(*m, f.iter().map(|(t, l, n)| (*t, *l, unhint(n))).collect(), *h),
        Node::Tuple(m, f, h) => Node::Tuple(*m, f.iter().map(|(t, l, n)| (*t, *l, unhint(n))).collect(), *h),
        n => n.clone(),
    }
}
/// The same value in serde's data model, if it has one.
fn to_sn(n: &Node) -> Option<SN> {
    let name = |l: &OLab<'static>| l.as_ref().and_then(|l| l.stat);
    let var = |i: &OIx| i.as_ref().and_then(|i| u32::try_from(i.v).ok());
    Some(match n {
        Node::Null => SN::None,
        Node::Bool(b) => SN::Bool(*b),
        Node::Num(e) => match *e {
            Ev::I8(v) => SN::I8(v),
            Ev::I16(v) => SN::I16(v),
            Ev::I32(v) => SN::I32(v),
            Ev::I64(v) => SN::I64(v),
            Ev::I128(v) => SN::I128(v),
            Ev::U8(v) => SN::U8(v),
            Ev::U16(v) => SN::U16(v),
            Ev::U32(v) => SN::U32(v),
            Ev::U64(v) => SN::U64(v),
            Ev::U128(v) => SN::U128(v),
            Ev::F32(v) => SN::F32(v.to_bits()),
            Ev::F64(v) => SN::F64(v.to_bits()),
            _ => unreachable!(),
        },
        Node::Text(f, _) => SN::Str(intern(&f.iter().map(|f| f.0).collect::<String>())),
        Node::Binary(f, _) => SN::Bytes(intern_bytes(&f.iter().flat_map(|f| f.0.iter().copied()).collect::<Vec<u8>>())),
        Node::Seq(v, h) => SN::Seq(v.iter().map(to_sn).collect::<Option<_>>()?, *h),
        Node::Map(v, h) => SN::Map(v.iter().map(|(k, v)| Some((to_sn(k)?, to_sn(v)?))).collect::<Option<_>>()?, *h),
        Node::Tag(m) if same_tag(m.tag, Some(&T_NONE)) => SN::None,
        Node::Tag(m) if same_tag(m.tag, Some(&T_UNIT)) => SN::Unit,
        Node::Tag(m) => SN::UnitStruct(name(&m.label)?),
        Node::Tagged(m, Some(n)) if same_tag(m.tag, Some(&T_SOME)) => SN::Some(Box::new(to_sn(n)?)),
        Node::Tagged(m, Some(n)) => SN::Newtype(name(&m.label)?, Box::new(to_sn(n)?)),
        Node::Tagged(_, None) => return None,
        Node::Record(m, f, h) => to_struct(m, f.iter().map(|f| (&f.1, &f.2)), h)?,
        Node::RecordTuple(m, f, h) => to_struct(m, f.iter().map(|f| (&f.1, &f.3)), h)?,
        Node::Tuple(m, f, h) => {
            let v = f.iter().map(|f| to_sn(&f.2)).collect::<Option<_>>()?;
            match m.label {
                Some(_) => SN::TupleStruct(name(&m.label)?, v, (*h)?),
                None => SN::Tuple(v, (*h)?),
            }
        }
        Node::Enum(m, v) => {
            let n = name(&m.label)?;
            let v = match v {
                None => return Some(SN::UnitStruct(n)),
                Some(v) => {
                    let mut v = &**v;
                    while let Node::Via(_, x) | Node::Hinted(_, x) = v {
                        v = x;
                    }
                    v
                }
            };
            match v {
                Node::Tag(m) => SN::UnitVariant(n, var(&m.index)?, name(&m.label)?),
                Node::Tagged(m, Some(x)) => SN::NewtypeVariant(n, var(&m.index)?, name(&m.label)?, Box::new(to_sn(x)?)),
                Node::Tuple(m, f, h) => {
                    SN::TupleVariant(n, var(&m.index)?, name(&m.label)?, f.iter().map(|f| to_sn(&f.2)).collect::<Option<_>>()?, (*h)?)
                }
                Node::Record(m, f, h) => {
                    let f = f.iter().map(|f| Some((f.1.stat?, to_sn(&f.2)?))).collect::<Option<_>>()?;
                    SN::StructVariant(n, var(&m.index)?, name(&m.label)?, f, (*h)?)
                }
                Node::RecordTuple(m, f, h) => {
                    let f = f.iter().map(|f| Some((f.1.stat?, to_sn(&f.3)?))).collect::<Option<_>>()?;
                    SN::StructVariant(n, var(&m.index)?, name(&m.label)?, f, (*h)?)
                }
                _ => return None,
            }
        }
        Node::Via(_, n) | Node::Hinted(_, n) => to_sn(n)?,
        Node::Fail | Node::After(_) => return None,
    })
}
fn to_struct<'a>(m: &Meta, f: impl Iterator<Item = (&'a Lab<'static>, &'a Node)>, h: &Hint) -> Option<SN> {
    match m.label {
        Some(l) => Some(SN::Struct(l.stat?, f.map(|(l, n)| Some((l.stat?, to_sn(n)?))).collect::<Option<_>>()?, (*h)?)),
        None => Some(SN::Tuple(f.map(|(_, n)| to_sn(n)).collect::<Option<_>>()?, (*h)?)),
    }
}

// ---------------------------------------------------------------- generating

const NAMES: &[Str] = &["A", "b", "", "Some", "with \"quotes\"", "日本"];
fn gen_name(g: &mut Gen) -> Str {
    NAMES[g.choose(NAMES.len())]
}
fn gen_var(g: &mut Gen) -> u32 {
    if g.choose(4) == 0 { g.u32() } else { g.choose(5) as u32 }
}
fn gen_sn(g: &mut Gen, depth: usize, fail: bool) -> SN {
    let k = if depth == 0 { g.choose(17) } else { g.choose(30) };
    let kid = |g: &mut Gen| Box::new(gen_sn(g, depth - 1, fail));
    let kids = |g: &mut Gen| { let n = g.choose(4); (0..n).map(|_| gen_sn(g, depth - 1, fail)).collect::<Vec<_>>() };
    let fields = |g: &mut Gen| { let n = g.choose(4); (0..n).map(|_| (gen_name(g), gen_sn(g, depth - 1, fail))).collect::<Vec<_>>() };
    if fail && g.choose(12) == 0 {
        return SN::Fail;
    }
    match k {
        0 => SN::Bool(g.bool()),
        1 => match gen_num(g) { n => to_sn(&n).unwrap() },
        2 => match gen_num(g) { n => to_sn(&n).unwrap() },
        3 => SN::Char(gen_str(g).chars().next().unwrap_or('x')),
        4 | 5 => SN::Str(gen_str(g)),
        6 => SN::Display(gen_str(g), gen_str(g)),
        7 => SN::Bytes(BINS[g.choose(BINS.len())]),
        8 => SN::None,
        9 => SN::Unit,
        10 | 11 => SN::UnitStruct(gen_name(g)),
        12 | 13 => SN::UnitVariant(gen_name(g), gen_var(g), gen_name(g)),
        14..=16 => match gen_num(g) { n => to_sn(&n).unwrap() },
        17 => SN::Some(kid(g)),
        18 => SN::Newtype(gen_name(g), kid(g)),
        19 | 20 => SN::NewtypeVariant(gen_name(g), gen_var(g), gen_name(g), kid(g)),
        21 => { let v = kids(g); let h = gen_hint(g, v.len()); SN::Seq(v, h) }
        22 => { let v = kids(g); let h = v.len(); SN::Tuple(v, h) }
        23 => { let v = kids(g); let h = v.len(); SN::TupleStruct(gen_name(g), v, h) }
        24 | 25 => { let v = kids(g); let h = v.len(); SN::TupleVariant(gen_name(g), gen_var(g), gen_name(g), v, h) }
        26 => {
            let n = g.choose(4);
            let v: Vec<_> = (0..n).map(|_| (gen_sn(g, depth - 1, fail), gen_sn(g, depth - 1, fail))).collect();
            let h = gen_hint(g, v.len());
            SN::Map(v, h)
        }
        27 => { let v = fields(g); let h = v.len(); SN::Struct(gen_name(g), v, h) }
        _ => { let v = fields(g); let h = v.len(); SN::StructVariant(gen_name(g), gen_var(g), gen_name(g), v, h) }
    }
}
fn has_fail(s: &SN) -> bool {
    to_node(s).any(&|n| matches!(n, Node::Fail))
}
/// What a serde value comes back as: characters and displayed text are strings.
fn settle(s: &SN) -> SN {
    to_sn(&to_node(s)).expect("every serde value has a form in serde")
}
const SLAX: Lax = Lax { frag: true, index_tag: true, ..STRICT };

harnesses! {
    /// A serde value streams as the same value.
    ["C16", none, unwind 1, random 60000, exhaustive false, "trees of serde's data model of depth 3 and width 3"]
    fn serde_to_sval(g) {
        let s = gen_sn(g, 3, false);
        let want = normal(&unhint(&to_node(&s)));
        let got = match g.choose(3) {
            0 => rebuild(&sval_serde::ToValue::new(&s)),
            1 => rebuild(sval_serde::ToValue::new_borrowed(&s)),
            _ => {
                let mut b = Builder::new();
                let r = sval_serde::stream(&mut b, &s);
                b.finish(r)
            }
        };
        let got = normal(&unhint(&got));
        assert!(same_node(&got, &want, SLAX, true), "{:?} streamed as {:?}", s, got);
    }
    /// Size hints of text and binary, when given, are right.
    ["C16", none, unwind 1, random 10000, exhaustive false, "trees of serde's data model of depth 2"]
    fn serde_hints(g) {
        let s = gen_sn(g, 2, false);
        let got = rebuild(&sval_serde::ToValue::new(&s));
        assert!(!got.any(&|n| match n {
            Node::Text(f, Some(h)) => f.iter().map(|f| f.0.len()).sum::<usize>() != *h,
            Node::Binary(f, Some(h)) => f.iter().map(|f| f.0.len()).sum::<usize>() != *h,
            _ => false,
        }), "{:?}", got);
    }
    /// Whatever fails, the stream or the serde value, streaming fails.
    ["C16", none, unwind 1, random 15000, exhaustive false, "trees of serde's data model of depth 3, every failing call"]
    fn serde_to_sval_faults(g) {
        let s = gen_sn(g, 3, true);
        if has_fail(&s) {
            let mut b = Builder::new();
            let r = sval_serde::stream(&mut b, &s);
            assert!(r.is_err(), "the failure in {:?} went unnoticed", s);
            if let Some(p) = b.problem { panic!("{}", p); }
        } else {
            check_errors_propagate(&sval_serde::ToValue::new(&s), 200);
        }
    }
    /// A value serializes as the same value, or not at all if serde can't express it.
    ["C17", none, unwind 1, random 80000, exhaustive false, "trees of depth 3 and width 3"]
    fn sval_to_serde(g) {
        let n = gen_node(g, Shape { empty_tagged: true, ..SHAPE });
        let n = if g.bool() { static_labels(g, &n) } else { n };
        if n.any(&|n| matches!(n, Node::Tagged(_, None))) { return }
        let c = SC::new(None);
        let got = match g.choose(2) {
            0 => sval_serde::serialize(SB(&c), &n),
            _ => sval_serde::ToSerialize::new_borrowed(&n).serialize(SB(&c)),
        };
        match (to_sn(&n), got) {
            (Some(want), Ok(got)) => assert_eq!(got, want),
            (None, Err(_)) => (),
            (Some(w), Err(_)) => panic!("{:?} failed, should be {:?}", n, w),
            (None, Ok(got)) => panic!("{:?} serialized as {:?}", n, got),
        }
    }
    /// A serde value survives the way to sval and back.
    ["C17", none, unwind 1, random 40000, exhaustive false, "trees of serde's data model of depth 3 and width 3"]
    fn serde_round_trip(g) {
        let s = gen_sn(g, 3, false);
        let c = SC::new(None);
        let got = sval_serde::serialize(SB(&c), sval_serde::ToValue::new(&s)).expect("a serde value can be serialized");
        assert_eq!(got, settle(&s));
    }
    /// A failing serializer or value makes serializing fail.
    ["C17", none, unwind 1, random 20000, exhaustive false, "trees of depth 3 and width 3, every failing call"]
    fn sval_to_serde_faults(g) {
        let n = gen_node(g, SHAPE);
        let n = static_labels(g, &n);
        if g.choose(4) == 0 {
            let n = nested_props::plant(g, &n);
            assert!(sval_serde::serialize(SB(&SC::new(None)), &n).is_err(), "the failure in {:?} went unnoticed", n);
            return;
        }
        if to_sn(&n).is_none() { return }
        for at in 0..200 {
            let c = SC::new(Some(at));
            let r = sval_serde::serialize(SB(&c), &n);
            if !c.failed.get() { break }
            assert!(r.is_err(), "failing call {} went unnoticed for {:?}", at, n);
            assert!(!c.late.get(), "the serializer was called after call {} failed for {:?}", at, n);
        }
    }
}
/// Give the tree what serde needs most of the time: static labels, sizes, small indexes.
fn static_labels(g: &mut Gen, n: &Node) -> Node {
    let l = |l: &Lab<'static>| Lab { stat: Some(l.text), ..*l };
    fn m(g: &mut Gen, m: &Meta) -> Meta {
        let label = match m.label {
            Some(l) => Some(Lab { stat: Some(l.text), ..l }),
            None => if g.choose(8) == 0 { None } else { Some(Lab::st("x")) },
        };
        let index = match m.index {
            Some(i) if i.v >= 0 => Some(i),
            o => if g.choose(8) == 0 { o } else { Some(Ix::n(g.choose(4) as isize)) },
        };
        Meta { tag: m.tag, label, index }
    }
    match n {
        Node::Seq(v, h) => Node::Seq(v.iter().map(|n| static_labels(g, n)).collect(), *h),
        Node::Map(v, h) => Node::Map(v.iter().map(|(k, v)| (static_labels(g, k), static_labels(g, v))).collect(), *h),
        Node::Tag(x) => Node::Tag(m(g, x)),
        Node::Tagged(x, n) => Node::Tagged(m(g, x), n.as_ref().map(|n| static_labels(g, n).boxed())),
        Node::Enum(x, n) => Node::Enum(m(g, x), n.as_ref().map(|n| static_labels(g, n).boxed())),
        Node::Record(x, f, _) => Node::Record(m(g, x), f.iter().map(|(t, x, n)| (*t, l(x), static_labels(g, n))).collect(), Some(f.len())),
        Node::RecordTuple(x, f, _) => Node::RecordTuple(m(g, x), f.iter().map(|(t, x, i, n)| (*t, l(x), *i, static_labels(g, n))).collect(), Some(f.len())),
        Node::Tuple(x, f, _) => Node::Tuple(m(g, x), f.iter().map(|(t, x, n)| (*t, *x, static_labels(g, n))).collect(), Some(f.len())),
        Node::Via(b, n) => Node::Via(*b, static_labels(g, n).boxed()),
        Node::Hinted(b, n) => Node::Hinted(b, static_labels(g, n).boxed()),
        n => n.clone(),
    }
}
