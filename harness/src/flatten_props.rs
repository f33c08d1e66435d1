//! sval_flatten: what lands on the parent, from the child's tree alone.
use crate::tree::*;
use crate::*;
use sval::{Stream, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    Map,
    Seq,
    Record,
    Tuple,
    RecordTuple,
}
const ALL: [To; 5] = [To::Map, To::Seq, To::Record, To::Tuple, To::RecordTuple];

/// A parent with plain fields around one or two flattened children.
struct Parent<'a> {
    to: To,
    before: usize,
    kids: &'a [Node],
    after: usize,
}

impl<'a> Value for Parent<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self.to {
            To::Map => s.map_begin(None)?,
            To::Seq => s.seq_begin(None)?,
            To::Record => s.record_begin(None, None, None, None)?,
            To::Tuple => s.tuple_begin(None, None, None, None)?,
            To::RecordTuple => s.record_tuple_begin(None, None, None, None)?,
        }
        let mut at = 0isize;
        for _ in 0..self.before {
            plain(self.to, s, at)?;
            at += 1;
        }
        for k in self.kids {
            at = match self.to {
                To::Map => sval_flatten::flatten_to_map(s, k, at)?,
                To::Seq => { sval_flatten::flatten_to_seq(s, k)?; at }
                To::Record => sval_flatten::flatten_to_record(s, k, at)?,
                To::Tuple => sval_flatten::flatten_to_tuple(s, k, at)?,
                To::RecordTuple => sval_flatten::flatten_to_record_tuple(s, k, at)?,
            };
        }
        for _ in 0..self.after {
            plain(self.to, s, at)?;
            at += 1;
        }
        match self.to {
            To::Map => s.map_end(),
            To::Seq => s.seq_end(),
            To::Record => s.record_end(None, None, None),
            To::Tuple => s.tuple_end(None, None, None),
            To::RecordTuple => s.record_tuple_end(None, None, None),
        }
    }
}
const P: Lab<'static> = Lab::st("plain");
fn plain<'s, S: Stream<'s> + ?Sized>(to: To, s: &mut S, at: isize) -> sval::Result {
    let l = P.to();
    let i = Ix::off(at).to();
    match to {
        To::Map => {
            s.map_key_begin()?;
            s.i64(at as i64)?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.bool(true)?;
            s.map_value_end()
        }
        To::Seq => {
            s.seq_value_begin()?;
            s.bool(true)?;
            s.seq_value_end()
        }
        To::Record => {
            s.record_value_begin(None, &l)?;
            s.bool(true)?;
            s.record_value_end(None, &l)
        }
        To::Tuple => {
            s.tuple_value_begin(None, &i)?;
            s.bool(true)?;
            s.tuple_value_end(None, &i)
        }
        To::RecordTuple => {
            s.record_tuple_value_begin(None, &l, &i)?;
            s.bool(true)?;
            s.record_tuple_value_end(None, &l, &i)
        }
    }
}

/// One value of the child, with everything any parent may need of it.
struct Item {
    tag: Tg,
    key: Option<Node>,
    lab: Lab<'static>,
    ix: Ix,
    node: Node,
}

/// The label a key turns into.
fn stringify(n: &Node, o: &mut String) {
    let meta = |m: &Meta, o: &mut String| match (&m.label, &m.index) {
        (Some(l), _) => o.push_str(l.text),
        (None, Some(i)) => o.push_str(&i.v.to_string()),
        (None, None) => o.push_str("null"),
    };
    match n {
        Node::Null => o.push_str("null"),
        Node::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Node::Num(e) => match (e.int(), e) {
            (Some((neg, v)), _) => {
                if neg {
                    o.push('-');
                }
                o.push_str(&v.to_string())
            }
            (None, Ev::F32(v)) => o.push_str(ryu::Buffer::new().format(*v as f64)),
            (None, Ev::F64(v)) => o.push_str(ryu::Buffer::new().format(*v)),
            _ => unreachable!(),
        },
        Node::Text(f, _) => f.iter().for_each(|t| o.push_str(t.0)),
        Node::Binary(f, _) => f.iter().flat_map(|t| t.0).for_each(|b| o.push_str(&b.to_string())),
        Node::Seq(v, _) => v.iter().for_each(|n| stringify(n, o)),
        Node::Map(v, _) => v.iter().for_each(|(k, n)| {
            stringify(k, o);
            stringify(n, o)
        }),
        Node::Tag(m) => meta(m, o),
        Node::Tagged(_, n) => {
            if let Some(n) = n {
                stringify(n, o)
            }
        }
        Node::Enum(_, Some(n)) => stringify(n, o),
        Node::Enum(m, None) => meta(m, o),
        Node::Record(_, f, _) => f.iter().for_each(|(_, l, n)| {
            o.push_str(l.text);
            stringify(n, o)
        }),
        Node::RecordTuple(_, f, _) => f.iter().for_each(|(_, l, _, n)| {
            o.push_str(l.text);
            stringify(n, o)
        }),
        Node::Tuple(_, f, _) => f.iter().for_each(|(_, _, n)| stringify(n, o)),
        Node::Via(_, n) | Node::Hinted(_, n) => stringify(n, o),
        Node::Fail | Node::After(_) => unreachable!(),
    }
}

struct Alloc {
    init: isize,
    cur: isize,
}
impl Alloc {
    fn next(&mut self, i: Option<&Ix>) -> Ix {
        let ix = match i {
            Some(i) if i.tag == Some(&sval::tags::VALUE_OFFSET) => Ix { v: i.v + self.init, tag: i.tag },
            Some(i) => *i,
            None => Ix::off(self.cur),
        };
        self.cur = ix.v + 1;
        ix
    }
}
fn name(ix: &Ix) -> Lab<'static> {
    Lab::comp(intern(&ix.v.to_string()))
}
fn items(n: &Node, in_enum: bool, a: &mut Alloc, o: &mut Vec<Item>) {
    match n {
        Node::Via(_, n) | Node::Hinted(_, n) => items(n, in_enum, a, o),
        Node::Tagged(m, Some(n)) if in_enum => {
            let ix = a.next(m.index.as_ref());
            let lab = m.label.map_or_else(|| name(&ix), |l| l);
            o.push(Item { tag: None, key: None, lab, ix, node: (**n).clone() });
        }
        Node::Tagged(_, Some(n)) => items(n, false, a, o),
        Node::Enum(_, Some(n)) => items(n, true, a, o),
        Node::Map(v, _) => {
            for (k, n) in v {
                let ix = a.next(None);
                let mut s = String::new();
                stringify(k, &mut s);
                o.push(Item { tag: None, key: Some(k.clone()), lab: Lab::comp(intern(&s)), ix, node: n.clone() });
            }
        }
        Node::Seq(v, _) => {
            for n in v {
                let ix = a.next(None);
                o.push(Item { tag: None, key: None, lab: name(&ix), ix, node: n.clone() });
            }
        }
        Node::Record(_, f, _) => {
            for (t, l, n) in f {
                let ix = a.next(None);
                o.push(Item { tag: *t, key: None, lab: *l, ix, node: n.clone() });
            }
        }
        Node::Tuple(_, f, _) => {
            for (t, i, n) in f {
                let ix = a.next(Some(i));
                o.push(Item { tag: *t, key: None, lab: name(&ix), ix, node: n.clone() });
            }
        }
        Node::RecordTuple(_, f, _) => {
            for (t, l, i, n) in f {
                let ix = a.next(Some(i));
                o.push(Item { tag: *t, key: None, lab: *l, ix, node: n.clone() });
            }
        }
        _ => {}
    }
}
fn expected(p: &Parent<'_>) -> Node {
    let mut at = 0isize;
    let mut all: Vec<Item> = Vec::new();
    let plain = |at: isize| Item { tag: None, key: Some(Node::Num(Ev::I64(at as i64))), lab: P, ix: Ix::off(at), node: Node::Bool(true) };
    for _ in 0..p.before {
        all.push(plain(at));
        at += 1;
    }
    for k in p.kids {
        let mut a = Alloc { init: at, cur: at };
        items(k, false, &mut a, &mut all);
        at = a.cur;
    }
    for _ in 0..p.after {
        all.push(plain(at));
        at += 1;
    }
    let m = Meta { tag: None, label: None, index: None };
    match p.to {
        To::Map => Node::Map(all.into_iter().map(|i| (i.key.unwrap_or_else(|| Node::text(i.lab.text)), i.node)).collect(), None),
        To::Seq => Node::Seq(all.into_iter().map(|i| i.node).collect(), None),
        To::Record => Node::Record(m, all.into_iter().map(|i| (i.tag, i.lab, i.node)).collect(), None),
        To::Tuple => Node::Tuple(m, all.into_iter().map(|i| (i.tag, i.ix, i.node)).collect(), None),
        To::RecordTuple => Node::RecordTuple(m, all.into_iter().map(|i| (i.tag, i.lab, i.ix, i.node)).collect(), None),
    }
}

/// Indexes so large that moving them by an offset overflows are out of scope.
pub(crate) fn tame(n: &Node) -> bool {
    let ok = |i: &Ix| i.v.unsigned_abs() < 1 << 40;
    match n {
        Node::Via(_, n) | Node::Hinted(_, n) => tame(n),
        Node::Tagged(m, n) | Node::Enum(m, n) => m.index.as_ref().map_or(true, ok) && n.as_ref().map_or(true, |n| tame(n)),
        _ => true,
    }
}

harnesses! {
    ["C14", none, unwind 1, random 60000, exhaustive true, "up to two children of depth 3, width 3, onto all five parents"]
    fn flatten_all(g) {
        let to = ALL[g.choose(5)];
        let n = 1 + g.choose(2);
        let kids: Vec<Node> = (0..n).map(|_| gen_node(g, SHAPE)).collect();
        if !kids.iter().all(tame) {
            return;
        }
        let p = Parent { to, before: g.choose(3), kids: &kids, after: g.choose(2) };
        let got = normal(&rebuild(&p));
        let want = normal(&expected(&p));
        assert!(same_node(&got, &want, Lax { frag: true, ..STRICT }, true), "flattening {:?} onto {:?} gave {:?}, not {:?}", kids, to, got, want);
    }
    ["C14", none, unwind 1, random 20000, exhaustive true, "every failing call, one child of depth 2"]
    fn flatten_faults(g) {
        let to = ALL[g.choose(5)];
        let kids = [gen_node(g, Shape { depth: 2, ..SHAPE })];
        if !kids.iter().all(tame) {
            return;
        }
        check_errors_propagate(&Parent { to, before: g.choose(2), kids: &kids, after: 1 }, 200);
    }
    ["C14", none, unwind 1, random 20000, exhaustive true, "containers that fail in the middle"]
    fn flatten_value_faults(g) {
        let to = ALL[g.choose(5)];
        let mut v: Vec<(Node, Node)> = (0..g.choose(3)).map(|_| (gen_key(g, Shape { depth: 1, ..SHAPE }), gen_node(g, Shape { depth: 1, ..SHAPE }))).collect();
        v.push(if g.bool() { (Node::Fail, Node::Null) } else { (Node::Null, Node::Fail) });
        let kids = [Node::Map(v, None)];
        let p = Parent { to, before: 0, kids: &kids, after: 0 };
        assert!(p.stream(&mut Builder::new()).is_err(), "the child's failure was swallowed");
    }
}
