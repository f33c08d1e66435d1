//! #[derive(Value)]: a battery of types, with any content, against what the attributes' documentation says.
use crate::tree::*;
use crate::*;
use sval::{Stream, Value as _};
use sval_derive::Value;

pub const TAG_A: sval::Tag = sval::Tag::new("derive a");
pub const TAG_B: sval::Tag = sval::Tag::new("derive b");
pub const LABEL_C: sval::Label<'static> = sval::Label::new("constant label");
pub const INDEX_C: isize = 40;
static S_A: sval::Tag = TAG_A;
static S_B: sval::Tag = TAG_B;

fn st(t: &'static str) -> Lab<'static> {
    Lab { text: t, stat: Some(t), tag: None }
}
fn id(t: &'static str) -> Lab<'static> {
    Lab { text: t, stat: Some(t), tag: Some(&T_IDENT) }
}
fn by_name(t: &'static str) -> Meta {
    Meta { label: Some(id(t)), ..META }
}
fn variant(t: &'static str, i: isize) -> Meta {
    Meta { label: Some(id(t)), index: Some(Ix::off(i)), tag: None }
}
type V = Node;

#[derive(Value)]
struct Plain { a: V, b: V, c: V }
#[derive(Value)]
struct r#Raw { r#type: V, r#match: V }
#[derive(Value)]
struct Empty {}
#[derive(Value)]
#[sval(tag = "TAG_A", label = "renamed", index = 3)]
struct Attrs { a: V, b: V }
#[derive(Value)]
#[sval(tag = TAG_A, label = LABEL_C, index = INDEX_C)]
struct Consts { a: V }
#[derive(Value)]
struct FieldAttrs {
    #[sval(tag = "TAG_A", label = "first", index = -4)]
    a: V,
    #[sval(data_tag = "TAG_B")]
    b: V,
    #[sval(skip)]
    #[allow(dead_code)]
    c: V,
    #[sval(label = LABEL_C, index = 70)]
    d: V,
}
#[derive(Value)]
struct Skips { #[sval(skip)] #[allow(dead_code)] a: V, b: V, #[sval(skip)] #[allow(dead_code)] c: V, d: V }
#[derive(Value)]
#[sval(unlabeled_fields)]
struct Unlabeled { a: V, #[sval(skip)] #[allow(dead_code)] b: V, #[sval(data_tag = "TAG_B")] c: V }
#[derive(Value)]
#[sval(unindexed_fields)]
struct Unindexed { a: V, #[sval(tag = "TAG_A")] b: V }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields, tag = "TAG_A", index = 2)]
struct Bare { a: V, b: V }
#[derive(Value)]
struct Tup(V, V, V);
#[derive(Value)]
#[sval(tag = "TAG_A", label = "tup", index = 1)]
struct TupAttrs(#[sval(index = 5)] V, #[sval(tag = "TAG_B")] V);
#[derive(Value)]
struct TupLabeled(#[sval(label = "x")] V, #[sval(label = "y")] V);
#[derive(Value)]
#[sval(unindexed_fields)]
struct TupSeq(V, #[sval(skip)] #[allow(dead_code)] V, V);
#[derive(Value)]
struct New(V);
#[derive(Value)]
#[sval(tag = "TAG_A", label = "new", index = -1)]
struct NewAttrs(V);
#[derive(Value)]
#[sval(transparent)]
struct Clear(V);
#[derive(Value)]
struct Unit;
#[derive(Value)]
#[sval(tag = "TAG_A", label = "unit", index = 9)]
struct UnitAttrs;
#[derive(Value)]
struct Gener<'a, T: Clone, const N: usize> where T: Copy { t: T, r: &'a V, n: [V; N] }

#[derive(Value)]
enum En { Tag, New(V), Tup(V, V), Rec { a: V, b: V }, Last }
#[derive(Value)]
#[allow(dead_code)]
#[sval(tag = "TAG_A", label = "en", index = 6)]
enum EnAttrs {
    #[sval(tag = "TAG_B", label = "u", index = 11)]
    Tag,
    #[sval(tag = "TAG_B", label = "n", index = 12)]
    New(V),
    #[sval(tag = "TAG_B", label = "t", index = 13)]
    Tup(V, V),
    #[sval(tag = "TAG_B", label = "r", index = 14, unindexed_fields)]
    Rec { a: V, #[sval(skip)] b: V },
    #[sval(label = "s", index = 15, unlabeled_fields, unindexed_fields)]
    Seq { a: V, b: V },
}
#[derive(Value, Clone, Copy)]
enum Discr { A = 5, B, C = -3, D }
#[derive(Value)]
#[sval(unlabeled_variants)]
enum NoLabels { Tag, New(V), Tup(V, V), Rec { a: V } }
#[derive(Value)]
#[sval(unindexed_variants)]
enum NoIndexes { Tag, New(V), Tup(V, V), Rec { a: V } }
#[derive(Value)]
#[sval(dynamic)]
enum Dyn { Tag, New(V), Tup(V, V), Rec { a: V, b: V } }

// flattening
#[derive(Value)]
struct FlatRec { a: V, #[sval(flatten)] b: V, c: V, #[sval(flatten)] d: V, e: V }
#[derive(Value)]
struct FlatTup(V, #[sval(flatten)] V, V);
#[derive(Value)]
#[sval(unindexed_fields)]
struct FlatNamed { a: V, #[sval(flatten)] b: V, c: V, #[sval(flatten)] d: V }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)]
struct FlatSeq { a: V, #[sval(flatten)] b: V, c: V }
#[derive(Value)]
enum FlatEnum { Rec { #[sval(flatten)] a: V, b: V } }

fn flat_expected(kind: usize, m: Meta, fields: &[(Option<&'static str>, &V)]) -> Node {
    struct P<'a>(usize, Meta, &'a [(Option<&'static str>, &'a V)]);
    impl<'a> sval::Value for P<'a> {
        fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
            let P(kind, m, f) = self;
            with3(&m.label, &m.index, |l, i| match kind {
                0 => s.record_tuple_begin(m.tag, l, i, None),
                1 => s.tuple_begin(m.tag, l, i, None),
                2 => s.record_begin(m.tag, l, i, None),
                _ => { s.tagged_begin(m.tag, l, i)?; s.seq_begin(None) }
            })?;
            let mut at = 0;
            for (n, v) in *f {
                let v: &'sval V = v;
                match n {
                    None => at = match kind {
                        0 => sval_flatten::flatten_to_record_tuple(&mut *s, v, at)?,
                        1 => sval_flatten::flatten_to_tuple(&mut *s, v, at)?,
                        2 => sval_flatten::flatten_to_record(&mut *s, v, at)?,
                        _ => { sval_flatten::flatten_to_seq(&mut *s, v)?; at }
                    },
                    Some(n) => {
                        let (l, i) = (id(n).to(), Ix::off(at).to());
                        match kind {
                            0 => { s.record_tuple_value_begin(None, &l, &i)?; v.stream(s)?; s.record_tuple_value_end(None, &l, &i)?; at += 1 }
                            1 => { s.tuple_value_begin(None, &i)?; v.stream(s)?; s.tuple_value_end(None, &i)?; at += 1 }
                            2 => { s.record_value_begin(None, &l)?; v.stream(s)?; s.record_value_end(None, &l)? }
                            _ => { s.seq_value_begin()?; v.stream(s)?; s.seq_value_end()? }
                        }
                    }
                }
            }
            with3(&m.label, &m.index, |l, i| match kind {
                0 => s.record_tuple_end(m.tag, l, i),
                1 => s.tuple_end(m.tag, l, i),
                2 => s.record_end(m.tag, l, i),
                _ => { s.seq_end()?; s.tagged_end(m.tag, l, i) }
            })
        }
    }
    rebuild(&P(kind, m, fields))
}

fn rt(m: Meta, f: &[(Tg, Lab<'static>, Ix, &V)]) -> Node {
    Node::RecordTuple(m, f.iter().map(|(t, l, i, n)| (*t, *l, *i, (*n).clone())).collect(), Some(f.len()))
}
fn tu(m: Meta, f: &[(Tg, Ix, &V)]) -> Node {
    Node::Tuple(m, f.iter().map(|(t, i, n)| (*t, *i, (*n).clone())).collect(), Some(f.len()))
}
fn re(m: Meta, f: &[(Tg, Lab<'static>, &V)]) -> Node {
    Node::Record(m, f.iter().map(|(t, l, n)| (*t, *l, (*n).clone())).collect(), Some(f.len()))
}
fn bare(m: Meta, f: &[&V]) -> Node {
    Node::Tagged(m, Some(Node::Seq(f.iter().map(|n| (*n).clone()).collect(), Some(f.len())).boxed()))
}
fn data(n: &V) -> Node {
    Node::Tagged(Meta::tag(&S_B), Some(n.clone().boxed()))
}
fn en(m: Meta, n: Node) -> Node {
    Node::Enum(m, Some(n.boxed()))
}
fn o(i: isize) -> Ix {
    Ix::off(i)
}
fn ex(v: isize) -> Ix {
    Ix { v, tag: None }
}

/// What a derived value may be asked to do.
fn check(v: &impl sval::Value, want: Node, tag: Tg, faults: bool) {
    let (got, want) = (normal(&rebuild(v)), normal(&want));
    assert!(same_node(&got, &want, STRICT, true), "{:?} instead of {:?}", got, want);
    assert!(same_tag(v.tag().as_ref(), tag), "tag {:?} instead of {:?}", v.tag(), tag);
    if faults {
        check_errors_propagate(v, 60);
    }
}
const DSHAPE: Shape = Shape { depth: 1, width: 2, ..SHAPE };

/// One type of the catalogue against what lib/mkderive.py says of it.
pub fn one(case: usize, flat: bool, v: &impl sval::Value, f: &[V], tag: Option<Option<sval::Tag>>, faults: bool) {
    if flat && !f.iter().all(flatten_props::tame) { return }
    let (got, want) = (normal(&rebuild(v)), normal(&rebuild(&derive_catalogue::Expected(case, f))));
    assert!(same_node(&got, &want, STRICT, true), "case {}: {:?} instead of {:?}", case, got, want);
    if let Some(tag) = tag {
        assert!(same_tag(v.tag().as_ref(), tag.as_ref()), "case {}: tag {:?} instead of {:?}", case, v.tag(), tag);
    }
    if faults {
        check_errors_propagate(v, 60);
    }
}

harnesses! {
    /// The catalogue of derived types, with any fields.
    ["C19", none, unwind 1, random 20000, exhaustive false, "every struct and variant of the catalogue in derive_types, fields of depth 1"]
    fn derive_catalogue_runs(g) {
        let n = |g: &mut Gen| gen_node(g, DSHAPE);
        let f = [n(g), n(g), n(g), n(g), n(g)];
        let case = g.choose(derive_catalogue::CASES);
        let faults = g.choose(4) == 0;
        derive_catalogue::run(case, &f, faults);
    }

    /// Every kind of type and attribute, with any fields.
    ["C19", none, unwind 1, random 60000, exhaustive false, "26 derived types and enums, fields of depth 1"]
    fn derived(g) {
        let n = |g: &mut Gen| gen_node(g, DSHAPE);
        let (a, b, c, d) = (n(g), n(g), n(g), n(g));
        let k = g.choose(40);
        let f = g.choose(8) == 0;
        if k >= 34 && ![&a, &b, &c, &d].iter().all(|n| flatten_props::tame(n)) { return }
        let ta = Meta { tag: Some(&S_A), ..META };
        let tb = |l: &'static str, i: isize| Meta { tag: Some(&S_B), label: Some(st(l)), index: Some(ex(i)) };
        let ea = Meta { tag: Some(&S_A), label: Some(st("en")), index: Some(ex(6)) };
        let noidx = |l: &'static str| by_name(l);
        let nolab = |i: isize| Meta { index: Some(o(i)), ..META };
        let (a2, b2, c2, d2) = (a.clone(), b.clone(), c.clone(), d.clone());
        match k {
            0 => check(&Plain { a, b, c }, rt(by_name("Plain"), &[(None, id("a"), o(0), &a2), (None, id("b"), o(1), &b2), (None, id("c"), o(2), &c2)]), None, f),
            1 => check(&Raw { r#type: a, r#match: b }, rt(by_name("Raw"), &[(None, id("type"), o(0), &a2), (None, id("match"), o(1), &b2)]), None, f),
            2 => check(&Empty {}, rt(by_name("Empty"), &[]), None, f),
            3 => check(&Attrs { a, b }, rt(Meta { label: Some(st("renamed")), index: Some(ex(3)), ..ta }, &[(None, id("a"), o(0), &a2), (None, id("b"), o(1), &b2)]), Some(&S_A), f),
            4 => check(&Consts { a }, rt(Meta { label: Some(st("constant label")), index: Some(ex(40)), ..ta }, &[(None, id("a"), o(0), &a2)]), Some(&S_A), f),
            5 => check(&FieldAttrs { a, b, c, d }, rt(by_name("FieldAttrs"), &[(Some(&S_A), st("first"), ex(-4), &a2), (None, id("b"), ex(-3), &data(&b2)), (None, st("constant label"), ex(70), &d2)]), None, f),
            6 => check(&Skips { a, b, c, d }, rt(by_name("Skips"), &[(None, id("b"), o(0), &b2), (None, id("d"), o(1), &d2)]), None, f),
            7 => check(&Unlabeled { a, b, c }, tu(by_name("Unlabeled"), &[(None, o(0), &a2), (None, o(1), &data(&c2))]), None, f),
            8 => check(&Unindexed { a, b }, re(by_name("Unindexed"), &[(None, id("a"), &a2), (Some(&S_A), id("b"), &b2)]), None, f),
            9 => check(&Bare { a, b }, bare(Meta { label: Some(id("Bare")), index: Some(ex(2)), ..ta }, &[&a2, &b2]), Some(&S_A), f),
            10 => check(&Tup(a, b, c), tu(by_name("Tup"), &[(None, o(0), &a2), (None, o(1), &b2), (None, o(2), &c2)]), None, f),
            11 => check(&TupAttrs(a, b), tu(Meta { label: Some(st("tup")), index: Some(ex(1)), ..ta }, &[(None, ex(5), &a2), (Some(&S_B), ex(6), &b2)]), Some(&S_A), f),
            12 => check(&TupLabeled(a, b), rt(by_name("TupLabeled"), &[(None, st("x"), o(0), &a2), (None, st("y"), o(1), &b2)]), None, f),
            13 => check(&TupSeq(a, b, c), bare(by_name("TupSeq"), &[&a2, &c2]), None, f),
            14 => check(&New(a), Node::Tagged(by_name("New"), Some(a2.boxed())), None, f),
            15 => check(&NewAttrs(a), Node::Tagged(Meta { label: Some(st("new")), index: Some(ex(-1)), ..ta }, Some(a2.boxed())), Some(&S_A), f),
            16 => { let t = otag(Clear(a.clone()).tag().as_ref()); check(&Clear(a), a2, t, f) },
            17 => check(&Unit, Node::Tag(by_name("Unit")), None, f),
            18 => check(&UnitAttrs, Node::Tag(Meta { label: Some(st("unit")), index: Some(ex(9)), ..ta }), Some(&S_A), f),
            19 => check(&Gener::<'_, i32, 2> { t: 7, r: &a2, n: [b, c] }, rt(by_name("Gener"), &[(None, id("t"), o(0), &Node::Num(Ev::I32(7))), (None, id("r"), o(1), &a2),
                (None, id("n"), o(2), &rebuild(&[b2, c2]))]), None, f),
            20 => check(&En::Tag, en(by_name("En"), Node::Tag(variant("Tag", 0))), None, f),
            21 => check(&En::New(a), en(by_name("En"), Node::Tagged(variant("New", 1), Some(a2.boxed()))), None, f),
            22 => check(&En::Tup(a, b), en(by_name("En"), tu(variant("Tup", 2), &[(None, o(0), &a2), (None, o(1), &b2)])), None, f),
            23 => check(&En::Rec { a, b }, en(by_name("En"), rt(variant("Rec", 3), &[(None, id("a"), o(0), &a2), (None, id("b"), o(1), &b2)])), None, f),
            24 => check(&En::Last, en(by_name("En"), Node::Tag(variant("Last", 4))), None, f),
            25 => check(&EnAttrs::Tag, en(ea, Node::Tag(tb("u", 11))), Some(&S_A), f),
            26 => check(&EnAttrs::New(a), en(ea, Node::Tagged(tb("n", 12), Some(a2.boxed()))), Some(&S_A), f),
            27 => check(&EnAttrs::Tup(a, b), en(ea, tu(tb("t", 13), &[(None, o(0), &a2), (None, o(1), &b2)])), Some(&S_A), f),
            28 => check(&EnAttrs::Rec { a, b }, en(ea, re(tb("r", 14), &[(None, id("a"), &a2)])), Some(&S_A), f),
            29 => check(&EnAttrs::Seq { a, b }, en(ea, bare(Meta { label: Some(st("s")), index: Some(ex(15)), ..META }, &[&a2, &b2])), Some(&S_A), f),
            30 => {
                let (v, l, i) = [(Discr::A, "A", 5), (Discr::B, "B", 6), (Discr::C, "C", -3), (Discr::D, "D", -2)][g.choose(4)];
                check(&v, en(by_name("Discr"), Node::Tag(Meta { label: Some(id(l)), index: Some(ex(i)), ..META })), None, f)
            }
            31 => {
                let (v, w) = match g.choose(4) {
                    0 => (NoLabels::Tag, Node::Tag(nolab(0))),
                    1 => (NoLabels::New(a), Node::Tagged(nolab(1), Some(a2.boxed()))),
                    2 => (NoLabels::Tup(a, b), tu(nolab(2), &[(None, o(0), &a2), (None, o(1), &b2)])),
                    _ => (NoLabels::Rec { a }, rt(nolab(3), &[(None, id("a"), o(0), &a2)])),
                };
                check(&v, en(by_name("NoLabels"), w), None, f)
            }
            32 => {
                let (v, w) = match g.choose(4) {
                    0 => (NoIndexes::Tag, Node::Tag(noidx("Tag"))),
                    1 => (NoIndexes::New(a), Node::Tagged(noidx("New"), Some(a2.boxed()))),
                    2 => (NoIndexes::Tup(a, b), tu(noidx("Tup"), &[(None, o(0), &a2), (None, o(1), &b2)])),
                    _ => (NoIndexes::Rec { a }, rt(noidx("Rec"), &[(None, id("a"), o(0), &a2)])),
                };
                check(&v, en(by_name("NoIndexes"), w), None, f)
            }
            33 => {
                let (v, w) = match g.choose(4) {
                    0 => (Dyn::Tag, Node::Tag(by_name("Tag"))),
                    1 => (Dyn::New(a), a2),
                    2 => (Dyn::Tup(a, b), tu(META, &[(None, o(0), &a2), (None, o(1), &b2)])),
                    _ => (Dyn::Rec { a, b }, rt(META, &[(None, id("a"), o(0), &a2), (None, id("b"), o(1), &b2)])),
                };
                check(&v, w, otag(v.tag().as_ref()), f)
            }
            34 => check(&FlatRec { a, b, c, d: b2.clone(), e: d }, flat_expected(0, by_name("FlatRec"), &[(Some("a"), &a2), (None, &b2), (Some("c"), &c2), (None, &b2), (Some("e"), &d2)]), None, f),
            35 => check(&FlatTup(a, b, c), flat_expected(1, by_name("FlatTup"), &[(Some("a"), &a2), (None, &b2), (Some("c"), &c2)]), None, f),
            36 => check(&FlatNamed { a, b, c, d }, flat_expected(2, by_name("FlatNamed"), &[(Some("a"), &a2), (None, &b2), (Some("c"), &c2), (None, &d2)]), None, f),
            37 => check(&FlatSeq { a, b, c }, flat_expected(3, by_name("FlatSeq"), &[(Some("a"), &a2), (None, &b2), (Some("c"), &c2)]), None, f),
            38 => check(&FlatEnum::Rec { a, b }, en(by_name("FlatEnum"), flat_expected(0, variant("Rec", 0), &[(None, &a2), (Some("b"), &b2)])), None, f),
            _ => check(&vec![En::Tag, En::New(a)], Node::Seq(vec![en(by_name("En"), Node::Tag(variant("Tag", 0))), en(by_name("En"), Node::Tagged(variant("New", 1), Some(a2.boxed())))], Some(2)), None, f),
        }
    }
}
