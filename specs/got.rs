// What a value buffer has been told, as the contracts of specs/buffer.rs (which prove it of the
// real buffer) and of its users see it.
pub open spec fn end_of(e: Ev) -> Option<Ev> {
    match e {
        Ev::MapBegin(_) => Some(Ev::MapEnd), Ev::MapKeyBegin => Some(Ev::MapKeyEnd), Ev::MapValueBegin => Some(Ev::MapValueEnd),
        Ev::SeqBegin(_) => Some(Ev::SeqEnd), Ev::SeqValueBegin => Some(Ev::SeqValueEnd),
        Ev::EnumBegin(t, l, i) => Some(Ev::EnumEnd(t, l, i)), Ev::TaggedBegin(t, l, i) => Some(Ev::TaggedEnd(t, l, i)),
        Ev::RecordBegin(t, l, i, _) => Some(Ev::RecordEnd(t, l, i)), Ev::RecordValueBegin(t, l) => Some(Ev::RecordValueEnd(t, l)),
        Ev::TupleBegin(t, l, i, _) => Some(Ev::TupleEnd(t, l, i)), Ev::TupleValueBegin(t, i) => Some(Ev::TupleValueEnd(t, i)),
        Ev::RecordTupleBegin(t, l, i, _) => Some(Ev::RecordTupleEnd(t, l, i)), Ev::RecordTupleValueBegin(t, l, i) => Some(Ev::RecordTupleValueEnd(t, l, i)),
        _ => None,
    }
}
pub open spec fn is_end(e: Ev) -> bool {
    match e {
        Ev::MapEnd | Ev::MapKeyEnd | Ev::MapValueEnd | Ev::SeqEnd | Ev::SeqValueEnd | Ev::EnumEnd(..) | Ev::TaggedEnd(..) | Ev::RecordEnd(..)
        | Ev::RecordValueEnd(..) | Ev::TupleEnd(..) | Ev::TupleValueEnd(..) | Ev::RecordTupleEnd(..) | Ev::RecordTupleValueEnd(..) => true,
        _ => false,
    }
}
// What a buffer has been told so far: the events of everything finished, with text and
// binary content whole, the containers still open, and the text or binary being received.
pub ghost struct Got { pub evs: Seq<Ev>, pub open: Seq<Ev>, pub text: Option<Seq<char>>, pub binary: Option<Seq<u8>> }
pub open spec fn idle(g: Got) -> bool { g.text is None && g.binary is None }
pub open spec fn plain(e: Ev) -> Ev { lend1(e, false) }
pub open spec fn fits(g: Got, e: Ev) -> bool {
    match e {
        Ev::TextFragment(..) | Ev::TextEnd => g.text is Some,
        Ev::BinaryFragment(..) | Ev::BinaryEnd => g.binary is Some,
        _ => idle(g) && (is_end(e) ==> g.open.len() > 0 && end_of(g.open.last()) == Some(e)),
    }
}
pub open spec fn feed(g: Got, e: Ev) -> Got {
    match e {
        Ev::TextBegin(_) => Got { text: Some(seq![]), ..g },
        Ev::TextFragment(s, _) => Got { text: Some(g.text.unwrap() + s), ..g },
        Ev::TextEnd => Got { evs: g.evs + computed_text_evs(g.text.unwrap()), text: None, ..g },
        Ev::BinaryBegin(_) => Got { binary: Some(seq![]), ..g },
        Ev::BinaryFragment(s, _) => Got { binary: Some(g.binary.unwrap() + s), ..g },
        Ev::BinaryEnd => Got { evs: g.evs + lend(binary_evs(g.binary.unwrap()), false), binary: None, ..g },
        _ => Got {
            evs: g.evs.push(e),
            open: if end_of(e) is Some { g.open.push(e) } else if is_end(e) { g.open.drop_last() } else { g.open },
            ..g
        },
    }
}
// C06: how many containers are open, whatever the calls
pub open spec fn depth(n: int, e: Ev) -> int { if end_of(e) is Some { n + 1 } else if is_end(e) { n - 1 } else { n } }
pub open spec fn run(g: Got, e: Seq<Ev>) -> Got
    decreases e.len(),
{ if e.len() == 0 { g } else { feed(run(g, e.drop_last()), e.last()) } }
pub open spec fn all_fit(g: Got, e: Seq<Ev>) -> bool
    decreases e.len(),
{ e.len() == 0 || (all_fit(g, e.drop_last()) && fits(run(g, e.drop_last()), e.last())) }
