//! Values as trees: generating them, streaming them, and rebuilding them from a stream.
use crate::*;
use std::cell::RefCell;
use std::collections::HashSet;
use sval::{Stream, Tag, Value};

pub fn intern(s: &str) -> &'static str {
    thread_local!(static T: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()));
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(x);
        x
    })
}
pub fn intern_bytes(s: &[u8]) -> &'static [u8] {
    thread_local!(static T: RefCell<HashSet<&'static [u8]>> = RefCell::new(HashSet::new()));
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let x: &'static [u8] = Box::leak(s.to_vec().into_boxed_slice());
        t.insert(x);
        x
    })
}
pub fn intern_tag(s: &Tag) -> &'static Tag {
    thread_local!(static T: RefCell<Vec<&'static Tag>> = RefCell::new(Vec::new()));
    T.with(|t| {
        let mut t = t.borrow_mut();
        for x in t.iter() {
            if **x == *s {
                return *x;
            }
        }
        let x: &'static Tag = Box::leak(Box::new(s.clone()));
        t.push(x);
        x
    })
}
pub fn otag(t: Option<&Tag>) -> Tg {
    t.map(intern_tag)
}
pub fn own_lab(l: &Lab<'_>) -> Lab<'static> {
    Lab { text: intern(l.text), stat: l.stat, tag: otag(l.tag) }
}
pub fn own_ix(l: &Ix) -> Ix {
    Ix { v: l.v, tag: otag(l.tag) }
}

#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub tag: Tg,
    pub label: OLab<'static>,
    pub index: OIx,
}
pub const META: Meta = Meta { tag: None, label: None, index: None };
impl Meta {
    pub fn of(t: Tg, l: &OLab<'_>, i: &OIx) -> Meta {
        Meta { tag: otag(t), label: l.as_ref().map(own_lab), index: i.as_ref().map(own_ix) }
    }
    pub fn same(&self, o: &Meta, lax: Lax) -> bool {
        same_tag(self.tag, o.tag) && same_olab(&self.label, &o.label, lax) && same_oix(&self.index, &o.index, lax)
    }
    pub fn tag(tag: &'static Tag) -> Meta {
        Meta { tag: Some(tag), ..META }
    }
    pub fn label(l: &'static str) -> Meta {
        Meta { label: Some(Lab::st(l)), ..META }
    }
}

#[derive(Clone, Debug)]
pub enum Node {
    Null,
    Bool(bool),
    /// Any of the integer and float events.
    Num(Ev<'static>),
    Text(Vec<(&'static str, bool)>, Hint),
    Binary(Vec<(&'static [u8], bool)>, Hint),
    Seq(Vec<Node>, Hint),
    Map(Vec<(Node, Node)>, Hint),
    Tag(Meta),
    Tagged(Meta, Option<Box<Node>>),
    Enum(Meta, Option<Box<Node>>),
    Record(Meta, Vec<(Tg, Lab<'static>, Node)>, Hint),
    Tuple(Meta, Vec<(Tg, Ix, Node)>, Hint),
    RecordTuple(Meta, Vec<(Tg, Lab<'static>, Ix, Node)>, Hint),
    /// The node, streamed through `value` (false) or `value_computed` (true).
    Via(bool, Box<Node>),
    /// A hint, then the node.
    Hinted(&'static Tag, Box<Node>),
    /// The value fails here.
    Fail,
    /// The node, after which the value fails.
    After(Box<Node>),
}

impl Node {
    pub fn text(s: &str) -> Node {
        let s = intern(s);
        Node::Text(vec![(s, false)], Some(s.len()))
    }
    pub fn boxed(self) -> Box<Node> {
        Box::new(self)
    }
}

impl Node {
    pub fn children(&self) -> Vec<&Node> {
        match self {
            Node::Via(_, n) | Node::Hinted(_, n) | Node::After(n) => vec![n],
            Node::Seq(v, _) => v.iter().collect(),
            Node::Map(v, _) => v.iter().flat_map(|(k, v)| [k, v]).collect(),
            Node::Tagged(_, n) | Node::Enum(_, n) => n.iter().map(|n| &**n).collect(),
            Node::Record(_, f, _) => f.iter().map(|f| &f.2).collect(),
            Node::Tuple(_, f, _) => f.iter().map(|f| &f.2).collect(),
            Node::RecordTuple(_, f, _) => f.iter().map(|f| &f.3).collect(),
            _ => vec![],
        }
    }
    /// Whether any node of the tree is so.
    pub fn any(&self, f: &dyn Fn(&Node) -> bool) -> bool {
        f(self) || self.children().iter().any(|n| n.any(f))
    }
}

impl Value for Node {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self {
            Node::Null => s.null(),
            Node::Bool(b) => s.bool(*b),
            Node::Num(e) => e.emit(s),
            Node::Text(f, h) => {
                s.text_begin(*h)?;
                for (t, c) in f {
                    if *c { s.text_fragment_computed(t)? } else { s.text_fragment(t)? }
                }
                s.text_end()
            }
            Node::Binary(f, h) => {
                s.binary_begin(*h)?;
                for (t, c) in f {
                    if *c { s.binary_fragment_computed(t)? } else { s.binary_fragment(t)? }
                }
                s.binary_end()
            }
            Node::Seq(v, h) => {
                s.seq_begin(*h)?;
                for n in v {
                    s.seq_value_begin()?;
                    n.stream(s)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Node::Map(v, h) => {
                s.map_begin(*h)?;
                for (k, n) in v {
                    s.map_key_begin()?;
                    k.stream(s)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    n.stream(s)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Node::Tag(m) => with3(&m.label, &m.index, |l, i| s.tag(m.tag, l, i)),
            Node::Tagged(m, n) => {
                with3(&m.label, &m.index, |l, i| s.tagged_begin(m.tag, l, i))?;
                if let Some(n) = n {
                    n.stream(s)?;
                }
                with3(&m.label, &m.index, |l, i| s.tagged_end(m.tag, l, i))
            }
            Node::Enum(m, n) => {
                with3(&m.label, &m.index, |l, i| s.enum_begin(m.tag, l, i))?;
                if let Some(n) = n {
                    n.stream(s)?;
                }
                with3(&m.label, &m.index, |l, i| s.enum_end(m.tag, l, i))
            }
            Node::Record(m, f, h) => {
                with3(&m.label, &m.index, |l, i| s.record_begin(m.tag, l, i, *h))?;
                for (t, l, n) in f {
                    let l = l.to();
                    s.record_value_begin(*t, &l)?;
                    n.stream(s)?;
                    s.record_value_end(*t, &l)?;
                }
                with3(&m.label, &m.index, |l, i| s.record_end(m.tag, l, i))
            }
            Node::Tuple(m, f, h) => {
                with3(&m.label, &m.index, |l, i| s.tuple_begin(m.tag, l, i, *h))?;
                for (t, x, n) in f {
                    let x = x.to();
                    s.tuple_value_begin(*t, &x)?;
                    n.stream(s)?;
                    s.tuple_value_end(*t, &x)?;
                }
                with3(&m.label, &m.index, |l, i| s.tuple_end(m.tag, l, i))
            }
            Node::RecordTuple(m, f, h) => {
                with3(&m.label, &m.index, |l, i| s.record_tuple_begin(m.tag, l, i, *h))?;
                for (t, l, x, n) in f {
                    let l = l.to();
                    let x = x.to();
                    s.record_tuple_value_begin(*t, &l, &x)?;
                    n.stream(s)?;
                    s.record_tuple_value_end(*t, &l, &x)?;
                }
                with3(&m.label, &m.index, |l, i| s.record_tuple_end(m.tag, l, i))
            }
            Node::Via(false, n) => s.value(&**n),
            Node::Via(true, n) => s.value_computed(&**n),
            Node::Hinted(t, n) => {
                s.tag_hint(t)?;
                n.stream(s)
            }
            Node::Fail => sval::error(),
            Node::After(n) => {
                n.stream(s)?;
                sval::error()
            }
        }
    }
}

// ---------------------------------------------------------------- comparing trees

/// How two trees may differ and still be the same value.
#[derive(Clone, Copy)]
pub struct TreeLax {
    pub ev: Lax,
    /// Size hints may be dropped or changed.
    pub hint: bool,
    /// A record tuple may arrive as a record.
    pub record_tuple: bool,
}

/// The same value with fragments joined and wrappers removed.
pub fn normal(n: &Node) -> Node {
    let b = |n: &Box<Node>| Box::new(normal(n));
    match n {
        Node::Text(f, h) => {
            let mut s = String::new();
            for (t, _) in f {
                s.push_str(t);
            }
            Node::Text(vec![(intern(&s), false)], *h)
        }
        Node::Binary(f, h) => {
            let mut s = Vec::new();
            for (t, _) in f {
                s.extend_from_slice(t);
            }
            Node::Binary(vec![(intern_bytes(&s), false)], *h)
        }
        Node::Seq(v, h) => Node::Seq(v.iter().map(normal).collect(), *h),
        Node::Map(v, h) => Node::Map(v.iter().map(|(k, v)| (normal(k), normal(v))).collect(), *h),
        Node::Tagged(m, n) => Node::Tagged(*m, n.as_ref().map(b)),
        Node::Enum(m, n) => Node::Enum(*m, n.as_ref().map(b)),
        Node::Record(m, f, h) => Node::Record(*m, f.iter().map(|(t, l, n)| (*t, *l, normal(n))).collect(), *h),
        Node::Tuple(m, f, h) => Node::Tuple(*m, f.iter().map(|(t, l, n)| (*t, *l, normal(n))).collect(), *h),
        Node::RecordTuple(m, f, h) => Node::RecordTuple(*m, f.iter().map(|(t, l, x, n)| (*t, *l, *x, normal(n))).collect(), *h),
        Node::Via(_, n) | Node::Hinted(_, n) => normal(n),
        n => n.clone(),
    }
}

pub fn same_node(a: &Node, b: &Node, x: Lax, hints: bool) -> bool {
    let h = |a: &Hint, b: &Hint| !hints || a == b;
    let ob = |a: &Option<Box<Node>>, b: &Option<Box<Node>>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_node(a, b, x, hints),
        _ => false,
    };
    match (a, b) {
        (Node::Null, Node::Null) => true,
        (Node::Bool(a), Node::Bool(b)) => a == b,
        (Node::Num(a), Node::Num(b)) => a.same(b, x),
        (Node::Text(a, i), Node::Text(b, j)) => {
            h(i, j)
                && (if x.frag { a.iter().map(|(t, _)| *t).collect::<String>() == b.iter().map(|(t, _)| *t).collect::<String>() } else { a == b })
        }
        (Node::Binary(a, i), Node::Binary(b, j)) => {
            h(i, j)
                && (if x.frag {
                    a.iter().flat_map(|(t, _)| t.iter()).collect::<Vec<_>>() == b.iter().flat_map(|(t, _)| t.iter()).collect::<Vec<_>>()
                } else {
                    a == b
                })
        }
        (Node::Seq(a, i), Node::Seq(b, j)) => h(i, j) && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_node(a, b, x, hints)),
        (Node::Map(a, i), Node::Map(b, j)) => {
            h(i, j)
                && a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| same_node(&a.0, &b.0, x, hints) && same_node(&a.1, &b.1, x, hints))
        }
        (Node::Tag(a), Node::Tag(b)) => a.same(b, x),
        (Node::Tagged(m, a), Node::Tagged(n, b)) | (Node::Enum(m, a), Node::Enum(n, b)) => m.same(n, x) && ob(a, b),
        (Node::Record(m, a, i), Node::Record(n, b, j)) => {
            m.same(n, x)
                && h(i, j)
                && a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| same_tag(a.0, b.0) && same_lab(&a.1, &b.1, x) && same_node(&a.2, &b.2, x, hints))
        }
        (Node::Tuple(m, a, i), Node::Tuple(n, b, j)) => {
            m.same(n, x)
                && h(i, j)
                && a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| same_tag(a.0, b.0) && same_ix(&a.1, &b.1, x) && same_node(&a.2, &b.2, x, hints))
        }
        (Node::RecordTuple(m, a, i), Node::RecordTuple(n, b, j)) => {
            m.same(n, x)
                && h(i, j)
                && a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| {
                    same_tag(a.0, b.0) && same_lab(&a.1, &b.1, x) && same_ix(&a.2, &b.2, x) && same_node(&a.3, &b.3, x, hints)
                })
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- rebuilding trees

enum Open {
    Text(Vec<(&'static str, bool)>, Hint),
    Binary(Vec<(&'static [u8], bool)>, Hint),
    Seq(Vec<Node>, Hint, bool),
    /// entries, the key of the entry that's open, what's open: 0 nothing, 1 key, 2 between, 3 value
    Map(Vec<(Node, Node)>, Hint, Option<Node>, u8),
    Tagged(Meta, Option<Node>),
    Enum(Meta, Option<Node>),
    Record(Meta, Vec<(Tg, Lab<'static>, Node)>, Hint, Option<(Tg, Lab<'static>)>),
    Tuple(Meta, Vec<(Tg, Ix, Node)>, Hint, Option<(Tg, Ix)>),
    RecordTuple(Meta, Vec<(Tg, Lab<'static>, Ix, Node)>, Hint, Option<(Tg, Lab<'static>, Ix)>),
}

/// A stream that rebuilds the tree it's given and insists on well-formedness: begins and ends pair up with
/// the same arguments, one value per slot, and nothing after the root.
pub struct Builder {
    stack: Vec<(Open, Option<Node>)>,
    pub root: Option<Node>,
    pub problem: Option<String>,
    /// Fail the n-th call.
    pub fail_at: Option<usize>,
    pub calls: usize,
    pub failed: bool,
    pub hints: Vec<&'static Tag>,
}

impl Builder {
    pub fn new() -> Builder {
        Builder { stack: Vec::new(), root: None, problem: None, fail_at: None, calls: 0, failed: false, hints: Vec::new() }
    }
    pub fn failing(n: usize) -> Builder {
        Builder { fail_at: Some(n), ..Builder::new() }
    }
    /// The single well-formed value that was streamed.
    pub fn finish(self, r: sval::Result) -> Node {
        if let Some(p) = self.problem {
            panic!("malformed stream: {}", p);
        }
        assert!(r.is_ok(), "streaming failed although the stream accepted every call");
        assert!(self.stack.is_empty(), "the stream ended with something still open");
        self.root.expect("nothing was streamed")
    }
    fn bad(&mut self, m: &str) -> sval::Result {
        if self.problem.is_none() {
            self.problem = Some(m.to_string());
        }
        Ok(())
    }
    /// Put a complete value where the next one belongs.
    fn put(&mut self, n: Node) -> sval::Result {
        let err = match self.stack.last_mut() {
            None => {
                if self.root.is_some() {
                    Some("a second root value")
                } else {
                    self.root = Some(n);
                    None
                }
            }
            Some((open, slot)) => {
                let ready = match open {
                    Open::Text(..) => Err("a value inside text"),
                    Open::Binary(..) => Err("a value inside binary"),
                    Open::Seq(_, _, open) if !*open => Err("a value outside any sequence element"),
                    Open::Map(_, _, _, st) if *st != 1 && *st != 3 => Err("a value outside any map key or value"),
                    Open::Record(_, _, _, f) if f.is_none() => Err("a value outside any record field"),
                    Open::Tuple(_, _, _, f) if f.is_none() => Err("a value outside any tuple field"),
                    Open::RecordTuple(_, _, _, f) if f.is_none() => Err("a value outside any record tuple field"),
                    Open::Tagged(_, inner) | Open::Enum(_, inner) => {
                        if inner.is_some() {
                            Err("two values inside a tagged value")
                        } else {
                            *inner = Some(n.clone());
                            Ok(true)
                        }
                    }
                    _ => Ok(false),
                };
                match ready {
                    Err(e) => Some(e),
                    Ok(true) => None,
                    Ok(false) => {
                        if slot.is_some() {
                            Some("two values in one slot")
                        } else {
                            *slot = Some(n);
                            None
                        }
                    }
                }
            }
        };
        match err {
            Some(e) => self.bad(e),
            None => Ok(()),
        }
    }
    fn push(&mut self, o: Open) -> sval::Result {
        self.stack.push((o, None));
        Ok(())
    }
}

impl Sink for Builder {
    fn ev(&mut self, e: Ev<'_>) -> sval::Result {
        if self.failed {
            return self.bad("the stream was called again after it returned an error");
        }
        self.calls += 1;
        if self.fail_at == Some(self.calls - 1) {
            self.failed = true;
            return sval::error();
        }
        if self.problem.is_some() {
            return Ok(());
        }
        macro_rules! top {
            ($p:pat => $b:expr) => {
                match self.stack.last_mut() {
                    Some($p) => $b,
                    _ => self.bad(&format!("{:?} doesn't belong here", e)),
                }
            };
        }
        macro_rules! pop {
            ($p:pat => $b:expr) => {
                match self.stack.pop() {
                    Some($p) => $b,
                    _ => self.bad(&format!("{:?} doesn't belong here", e)),
                }
            };
        }
        match e {
            Ev::Null => self.put(Node::Null),
            Ev::Bool(b) => self.put(Node::Bool(b)),
            Ev::U8(v) => self.put(Node::Num(Ev::U8(v))),
            Ev::U16(v) => self.put(Node::Num(Ev::U16(v))),
            Ev::U32(v) => self.put(Node::Num(Ev::U32(v))),
            Ev::U64(v) => self.put(Node::Num(Ev::U64(v))),
            Ev::U128(v) => self.put(Node::Num(Ev::U128(v))),
            Ev::I8(v) => self.put(Node::Num(Ev::I8(v))),
            Ev::I16(v) => self.put(Node::Num(Ev::I16(v))),
            Ev::I32(v) => self.put(Node::Num(Ev::I32(v))),
            Ev::I64(v) => self.put(Node::Num(Ev::I64(v))),
            Ev::I128(v) => self.put(Node::Num(Ev::I128(v))),
            Ev::F32(v) => self.put(Node::Num(Ev::F32(v))),
            Ev::F64(v) => self.put(Node::Num(Ev::F64(v))),
            Ev::TextBegin(h) => self.push(Open::Text(vec![], h)),
            Ev::Text(t) => top!((Open::Text(f, _), _) => { f.push((intern(t), false)); Ok(()) }),
            Ev::TextComputed(t) => top!((Open::Text(f, _), _) => { f.push((intern(t), true)); Ok(()) }),
            Ev::TextEnd => pop!((Open::Text(f, h), _) => self.put(Node::Text(f, h))),
            Ev::BinaryBegin(h) => self.push(Open::Binary(vec![], h)),
            Ev::Binary(t) => top!((Open::Binary(f, _), _) => { f.push((intern_bytes(t), false)); Ok(()) }),
            Ev::BinaryComputed(t) => top!((Open::Binary(f, _), _) => { f.push((intern_bytes(t), true)); Ok(()) }),
            Ev::BinaryEnd => pop!((Open::Binary(f, h), _) => self.put(Node::Binary(f, h))),
            Ev::SeqBegin(h) => self.push(Open::Seq(vec![], h, false)),
            Ev::SeqValueBegin => top!((Open::Seq(_, _, open @ false), None) => { *open = true; Ok(()) }),
            Ev::SeqValueEnd => top!((Open::Seq(v, _, open @ true), n @ Some(_)) => { *open = false; v.push(n.take().unwrap()); Ok(()) }),
            Ev::SeqEnd => pop!((Open::Seq(v, h, false), None) => self.put(Node::Seq(v, h))),
            Ev::MapBegin(h) => self.push(Open::Map(vec![], h, None, 0)),
            Ev::MapKeyBegin => top!((Open::Map(_, _, _, st @ 0), None) => { *st = 1; Ok(()) }),
            Ev::MapKeyEnd => top!((Open::Map(_, _, k, st @ 1), n @ Some(_)) => { *st = 2; *k = n.take(); Ok(()) }),
            Ev::MapValueBegin => top!((Open::Map(_, _, _, st @ 2), None) => { *st = 3; Ok(()) }),
            Ev::MapValueEnd => top!((Open::Map(v, _, k, st @ 3), n @ Some(_)) => { *st = 0; v.push((k.take().unwrap(), n.take().unwrap())); Ok(()) }),
            Ev::MapEnd => pop!((Open::Map(v, h, _, 0), None) => self.put(Node::Map(v, h))),
            Ev::EnumBegin(t, l, i) => self.push(Open::Enum(Meta::of(t, &l, &i), None)),
            Ev::EnumEnd(t, l, i) => pop!((Open::Enum(m, n), _) => {
                if !m.same(&Meta::of(t, &l, &i), STRICT) { return self.bad("enum begin and end disagree") }
                self.put(Node::Enum(m, n.map(Box::new)))
            }),
            Ev::TaggedBegin(t, l, i) => self.push(Open::Tagged(Meta::of(t, &l, &i), None)),
            Ev::TaggedEnd(t, l, i) => pop!((Open::Tagged(m, n), _) => {
                if !m.same(&Meta::of(t, &l, &i), STRICT) { return self.bad("tagged begin and end disagree") }
                self.put(Node::Tagged(m, n.map(Box::new)))
            }),
            Ev::Tag(t, l, i) => self.put(Node::Tag(Meta::of(t, &l, &i))),
            Ev::TagHint(t) => {
                self.hints.push(intern_tag(t));
                Ok(())
            }
            Ev::RecordBegin(t, l, i, h) => self.push(Open::Record(Meta::of(t, &l, &i), vec![], h, None)),
            Ev::RecordValueBegin(t, l) => top!((Open::Record(_, _, _, f @ None), None) => { *f = Some((otag(t), own_lab(&l))); Ok(()) }),
            Ev::RecordValueEnd(t, l) => top!((Open::Record(_, v, _, f @ Some(_)), n @ Some(_)) => {
                let (t2, l2) = f.take().unwrap();
                if !same_tag(t, t2) || !same_lab(&l, &l2, STRICT) { return self.bad("record field begin and end disagree") }
                v.push((t2, l2, n.take().unwrap()));
                Ok(())
            }),
            Ev::RecordEnd(t, l, i) => pop!((Open::Record(m, v, h, None), None) => {
                if !m.same(&Meta::of(t, &l, &i), STRICT) { return self.bad("record begin and end disagree") }
                self.put(Node::Record(m, v, h))
            }),
            Ev::TupleBegin(t, l, i, h) => self.push(Open::Tuple(Meta::of(t, &l, &i), vec![], h, None)),
            Ev::TupleValueBegin(t, x) => top!((Open::Tuple(_, _, _, f @ None), None) => { *f = Some((otag(t), own_ix(&x))); Ok(()) }),
            Ev::TupleValueEnd(t, x) => top!((Open::Tuple(_, v, _, f @ Some(_)), n @ Some(_)) => {
                let (t2, x2) = f.take().unwrap();
                if !same_tag(t, t2) || !same_ix(&x, &x2, STRICT) { return self.bad("tuple field begin and end disagree") }
                v.push((t2, x2, n.take().unwrap()));
                Ok(())
            }),
            Ev::TupleEnd(t, l, i) => pop!((Open::Tuple(m, v, h, None), None) => {
                if !m.same(&Meta::of(t, &l, &i), STRICT) { return self.bad("tuple begin and end disagree") }
                self.put(Node::Tuple(m, v, h))
            }),
            Ev::RecordTupleBegin(t, l, i, h) => self.push(Open::RecordTuple(Meta::of(t, &l, &i), vec![], h, None)),
            Ev::RecordTupleValueBegin(t, l, x) => top!((Open::RecordTuple(_, _, _, f @ None), None) => { *f = Some((otag(t), own_lab(&l), own_ix(&x))); Ok(()) }),
            Ev::RecordTupleValueEnd(t, l, x) => top!((Open::RecordTuple(_, v, _, f @ Some(_)), n @ Some(_)) => {
                let (t2, l2, x2) = f.take().unwrap();
                if !same_tag(t, t2) || !same_lab(&l, &l2, STRICT) || !same_ix(&x, &x2, STRICT) { return self.bad("record tuple field begin and end disagree") }
                v.push((t2, l2, x2, n.take().unwrap()));
                Ok(())
            }),
            Ev::RecordTupleEnd(t, l, i) => pop!((Open::RecordTuple(m, v, h, None), None) => {
                if !m.same(&Meta::of(t, &l, &i), STRICT) { return self.bad("record tuple begin and end disagree") }
                self.put(Node::RecordTuple(m, v, h))
            }),
            Ev::Sub(_) | Ev::SubComputed(_) | Ev::Fail => self.bad("not an event"),
        }
    }
}
stream_via_ev!([] Builder);

/// Stream any value and rebuild it.
pub fn rebuild(v: &(impl Value + ?Sized)) -> Node {
    let mut b = Builder::new();
    let r = v.stream(&mut b);
    b.finish(r)
}

/// Stream into a sink that fails at its `n`-th call, for every `n` the value reaches: the failure must come back
/// and the sink must not be called again.
pub fn check_errors_propagate(v: &impl Value, limit: usize) {
    for n in 0..limit {
        let mut b = Builder::failing(n);
        let r = v.stream(&mut b);
        if !b.failed {
            return;
        }
        if let Some(p) = b.problem {
            panic!("failing call {}: {}", n, p);
        }
        assert!(r.is_err(), "an error returned by call {} was swallowed", n);
    }
}

// ---------------------------------------------------------------- generating trees

#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    pub width: usize,
    /// Which families may appear.
    pub tags: bool,
    pub binary: bool,
    pub numbers: bool,
    pub via: bool,
    pub hinted: bool,
    /// Allow an empty tagged or enum value.
    pub empty_tagged: bool,
    /// Keys are restricted to scalars.
    pub scalar_keys: bool,
}
pub const SHAPE: Shape =
    Shape { depth: 3, width: 3, tags: true, binary: true, numbers: true, via: true, hinted: true, empty_tagged: false, scalar_keys: false };

pub const TEXTS: &[&str] = &[
    "", "a", "key", "\"", "\\", "/", "\n", "\r", "\t", "\u{8}", "\u{c}", "\0", "\u{1}", "\u{1f}", "\u{7f}", "é", "日本", "\u{1F600}", "\u{2028}", "a\"b\\c\nd",
    "\u{80}", "{\"a\":1}", "null", "1", "\u{1b}[0m", "a b", "\u{ffff}", "__x", "'", "&<>",
];
pub const BINS: &[&[u8]] = &[b"", b"a", b"\x00", b"\xff\xfe", b"abc", b"\x80\x81\x82"];
pub const LABELS: &[&str] = &["a", "b", "label", "x_y", ""];
pub const ODD_LABELS: &[&str] = &["\"", "a\\b", "\n", "日本", "\u{1}", "with space"];
pub const NUMBERS: &[&str] = &[
    "0", "1", "-1", "+1", "001", "-001", "0.5", "00.50", "-0.5", "+0.0", "1e5", "1E5", "1e+5", "1.5e-5", "123456789012345678901234567890", "-0", "0e5", "00e1", "-0E3",
    "10", "100", "1.0", "10.01e10", "9.99E+99", "0.1e1", "+00", "1e0", "20000000000000000000000000000000000000000",
];

pub fn gen_text(g: &mut Gen) -> Vec<(&'static str, bool)> {
    let n = g.choose(4);
    (0..n).map(|_| (gen_str(g), g.bool())).collect()
}
pub fn gen_str(g: &mut Gen) -> &'static str {
    let k = g.choose(TEXTS.len() + 4);
    if k < TEXTS.len() {
        return TEXTS[k];
    }
    // an arbitrary string
    let n = g.choose(6);
    let mut s = String::new();
    for _ in 0..n {
        let c = match g.choose(4) {
            0 => g.choose(0x80) as u32,
            1 => 0x80 + g.choose(0x780) as u32,
            2 => 0x800 + g.choose(0xd000) as u32,
            _ => 0x10000 + g.choose(0x1000) as u32,
        };
        s.push(char::from_u32(c).unwrap_or('x'));
    }
    intern(&s)
}
pub fn gen_label(g: &mut Gen) -> Lab<'static> {
    let odd = g.choose(3) == 0;
    let text = if odd { ODD_LABELS[g.choose(ODD_LABELS.len())] } else { LABELS[g.choose(LABELS.len())] };
    let ident = !odd && !text.is_empty();
    Lab {
        text,
        stat: if g.bool() { Some(text) } else { None },
        tag: match g.choose(3) {
            1 if ident => Some(&T_IDENT),
            2 => Some(&T_B),
            _ => None,
        },
    }
}
pub fn gen_index(g: &mut Gen) -> Ix {
    let v = match g.choose(4) {
        0 => g.isize(),
        _ => g.choose(5) as isize,
    };
    Ix { v, tag: if v >= 0 && g.bool() { Some(&T_OFFSET) } else { None } }
}
pub fn gen_meta(g: &mut Gen) -> Meta {
    let tag: Tg = match g.choose(5) {
        0 => Some(&T_A),
        1 => Some(&T_SOME),
        2 => Some(&T_CONST),
        _ => None,
    };
    Meta { tag, label: if g.choose(3) < 2 { Some(gen_label(g)) } else { None }, index: if g.bool() { Some(gen_index(g)) } else { None } }
}
pub fn gen_hint(g: &mut Gen, n: usize) -> Hint {
    if g.bool() { Some(n) } else { None }
}
pub fn gen_num(g: &mut Gen) -> Node {
    let k = 2 + g.choose(12);
    Node::Num(core_props::event_k(g, k))
}
pub fn gen_scalar(g: &mut Gen) -> Node {
    match g.choose(6) {
        0 => Node::Null,
        1 => Node::Bool(g.bool()),
        2 => gen_num(g),
        _ => {
            let f = gen_text(g);
            let n = f.iter().map(|t| t.0.len()).sum();
            Node::Text(f, gen_hint(g, n))
        }
    }
}
pub fn gen_number_text(g: &mut Gen) -> &'static str {
    let k = g.choose(NUMBERS.len() + 6);
    if k < NUMBERS.len() {
        return NUMBERS[k];
    }
    // anything the grammar allows
    let mut s = String::new();
    s.push_str(["", "+", "-"][g.choose(3)]);
    let dig = ["0", "0", "1", "9", "5"];
    for _ in 0..1 + g.choose(4) {
        s.push_str(dig[g.choose(5)]);
    }
    if g.bool() {
        s.push('.');
        for _ in 0..1 + g.choose(4) {
            s.push_str(dig[g.choose(5)]);
        }
    }
    if g.bool() {
        s.push_str(["e", "E"][g.choose(2)]);
        s.push_str(["", "+", "-"][g.choose(3)]);
        for _ in 0..1 + g.choose(3) {
            s.push_str(dig[g.choose(5)]);
        }
    }
    intern(&s)
}
/// Split text into fragments at arbitrary character boundaries.
pub fn split(g: &mut Gen, s: &'static str) -> Vec<(&'static str, bool)> {
    let mut out = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        let mut n = 1 + g.choose(rest.len().min(8));
        while !rest.is_char_boundary(n) {
            n += 1;
        }
        if g.choose(3) == 0 {
            n = rest.len();
        }
        out.push((&rest[..n], g.bool()));
        rest = &rest[n..];
    }
    out
}

pub fn gen_node(g: &mut Gen, sh: Shape) -> Node {
    if sh.depth == 0 {
        return gen_scalar(g);
    }
    let d = Shape { depth: sh.depth - 1, ..sh };
    let n = |g: &mut Gen| g.choose(sh.width + 1);
    match g.choose(16) {
        0 | 1 => gen_scalar(g),
        2 if sh.binary => {
            let c = g.choose(4);
            let f: Vec<_> = (0..c).map(|_| (BINS[g.choose(BINS.len())], g.bool())).collect();
            let n = f.iter().map(|t| t.0.len()).sum();
            Node::Binary(f, gen_hint(g, n))
        }
        3 => {
            let v: Vec<_> = (0..n(g)).map(|_| gen_node(g, d)).collect();
            let h = gen_hint(g, v.len());
            Node::Seq(v, h)
        }
        4 | 5 => {
            let v: Vec<_> = (0..n(g)).map(|_| (gen_key(g, d), gen_node(g, d))).collect();
            let h = gen_hint(g, v.len());
            Node::Map(v, h)
        }
        6 if sh.numbers => {
            let t = gen_number_text(g);
            let f = split(g, t);
            Node::Tagged(Meta { tag: Some(&T_NUMBER), ..gen_meta(g) }, Some(Node::Text(f, gen_hint(g, t.len())).boxed()))
        }
        7 | 8 if sh.tags => Node::Enum(gen_meta(g), gen_variant(g, d).map(Box::new)),
        9 | 10 | 11 | 12 if sh.tags => {
            loop {
                let v = gen_variant(g, d);
                if let Some(v) = v {
                    return v;
                }
                return Node::Tag(gen_meta(g));
            }
        }
        13 if sh.via => Node::Via(g.bool(), gen_node(g, d).boxed()),
        14 if sh.hinted => Node::Hinted(&T_B, gen_node(g, d).boxed()),
        _ => gen_scalar(g),
    }
}
pub fn gen_key(g: &mut Gen, sh: Shape) -> Node {
    if sh.scalar_keys {
        return gen_scalar(g);
    }
    match g.choose(8) {
        0 => gen_node(g, sh),
        1 => Node::Tagged(gen_meta(g), Some(gen_scalar(g).boxed())),
        2 => Node::Enum(gen_meta(g), Some(Node::Tag(gen_meta(g)).boxed())),
        3 => Node::Via(g.bool(), gen_scalar(g).boxed()),
        _ => gen_scalar(g),
    }
}
/// What may appear directly inside an enum.
pub fn gen_variant(g: &mut Gen, sh: Shape) -> Option<Node> {
    let n = |g: &mut Gen| g.choose(sh.width + 1);
    if sh.via && sh.depth > 0 && g.choose(8) == 7 {
        return gen_variant(g, Shape { depth: sh.depth - 1, ..sh }).map(|n| Node::Via(g.bool(), n.boxed()));
    }
    Some(match g.choose(8) {
        0 | 1 => {
            let mut m = gen_meta(g);
            if g.choose(4) == 0 {
                m.tag = Some([&T_NONE, &T_UNIT][g.choose(2)]);
            }
            Node::Tag(m)
        }
        2 | 3 => {
            let inner = if sh.empty_tagged && g.choose(6) == 0 { None } else { Some(gen_node(g, sh).boxed()) };
            Node::Tagged(gen_meta(g), inner)
        }
        4 => {
            let v: Vec<_> = (0..n(g)).map(|_| (gen_ftag(g), gen_label(g), gen_node(g, sh))).collect();
            let h = gen_hint(g, v.len());
            Node::Record(gen_meta(g), v, h)
        }
        5 => {
            let v: Vec<_> = (0..n(g)).map(|i| (gen_ftag(g), Ix { v: i as isize, tag: if g.bool() { Some(&T_OFFSET) } else { None } }, gen_node(g, sh))).collect();
            let h = gen_hint(g, v.len());
            Node::Tuple(gen_meta(g), v, h)
        }
        6 => {
            let v: Vec<_> = (0..n(g)).map(|i| (gen_ftag(g), gen_label(g), Ix::n(i as isize), gen_node(g, sh))).collect();
            let h = gen_hint(g, v.len());
            Node::RecordTuple(gen_meta(g), v, h)
        }
        _ => {
            if sh.depth == 0 {
                return if sh.empty_tagged { None } else { Some(Node::Tag(gen_meta(g))) };
            }
            let d = Shape { depth: sh.depth - 1, ..sh };
            Node::Enum(gen_meta(g), gen_variant(g, d).map(Box::new))
        }
    })
}
fn gen_ftag(g: &mut Gen) -> Tg {
    if g.choose(4) == 0 { Some(&T_B) } else { None }
}
