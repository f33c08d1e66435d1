// C02: JSON strings.  The meaning of the inside of a JSON string, from RFC 8259 (the
// reader, not the writer): `None` when it is not one.  Escapes of non-ASCII characters
// are not read here, because UTF-8 may carry them as they are.
pub open spec fn hexv(b: u8) -> Option<int> {
    if 48 <= b <= 57 { Some(b - 48) }
    else if 97 <= b <= 102 { Some(b - 97 + 10) }
    else if 65 <= b <= 70 { Some(b - 65 + 10) }
    else { None }
}
pub open spec fn hex4(a: u8, b: u8, c: u8, d: u8) -> Option<int> {
    match (hexv(a), hexv(b), hexv(c), hexv(d)) {
        (Some(a), Some(b), Some(c), Some(d)) => Some(a * 4096 + b * 256 + c * 16 + d),
        _ => None,
    }
}
pub open spec fn simple(b: u8) -> Option<u8> {
    if b == 0x22 || b == 0x5c || b == 0x2f { Some(b) }
    else if b == 0x62 { Some(8u8) }
    else if b == 0x66 { Some(12u8) }
    else if b == 0x6e { Some(10u8) }
    else if b == 0x72 { Some(13u8) }
    else if b == 0x74 { Some(9u8) }
    else { None }
}
pub open spec fn cons(b: u8, r: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match r { Some(r) => Some(seq![b] + r), None => None }
}
pub open spec fn unesc(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == 0x5c {
        if s.len() < 2 { None }
        else if s[1] == 0x75 {
            if s.len() < 6 { None }
            else {
                match hex4(s[2], s[3], s[4], s[5]) {
                    Some(c) => if c < 0x80 { cons(c as u8, unesc(s.skip(6))) } else { None },
                    None => None,
                }
            }
        } else {
            match simple(s[1]) { Some(b) => cons(b, unesc(s.skip(2))), None => None }
        }
    } else if s[0] < 0x20 || s[0] == 0x22 { None }
    else { cons(s[0], unesc(s.skip(1))) }
}
// a byte that stands for itself
pub open spec fn plain(b: u8) -> bool { b >= 0x20 && b != 0x22 && b != 0x5c }

pub proof fn unesc_append(a: Seq<u8>, b: Seq<u8>)
    requires unesc(a).is_some(), unesc(b).is_some(),
    ensures unesc(a + b) == Some(unesc(a).unwrap() + unesc(b).unwrap()),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(unesc(a).unwrap() + unesc(b).unwrap() =~= unesc(b).unwrap());
    } else {
        let n: int = if a[0] != 0x5c { 1 } else if a[1] == 0x75 { 6 } else { 2 };
        unesc_append(a.skip(n), b);
        assert((a + b).skip(n) =~= a.skip(n) + b);
        let c = unesc(a).unwrap()[0];
        let r = unesc(a.skip(n)).unwrap();
        assert(unesc(a).unwrap() =~= seq![c] + r);
        assert((seq![c] + r) + unesc(b).unwrap() =~= seq![c] + (r + unesc(b).unwrap()));
    }
}
pub proof fn unesc_plain(a: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> plain(a[i]),
    ensures unesc(a) == Some(a),
    decreases a.len(),
{
    if a.len() > 0 {
        unesc_plain(a.skip(1));
        assert(seq![a[0]] + a.skip(1) =~= a);
    }
}
// one escape
pub open spec fn escape_of(c: Seq<u8>, b: u8) -> bool {
    ||| c.len() == 2 && c[0] == 0x5c && c[1] != 0x75 && simple(c[1]) == Some(b)
    ||| c.len() == 6 && c[0] == 0x5c && c[1] == 0x75 && hex4(c[2], c[3], c[4], c[5]) == Some(b as int) && b < 0x80
    ||| c == seq![b] && plain(b)
}
pub proof fn unesc_one(c: Seq<u8>, b: u8)
    requires escape_of(c, b),
    ensures unesc(c) == Some(seq![b]),
{
    reveal_with_fuel(unesc, 2);
    if c.len() == 2 { assert(c.skip(2) =~= Seq::empty()); }
    else if c.len() == 6 { assert(c.skip(6) =~= Seq::empty()); }
    else { assert(c.skip(1) =~= Seq::empty()); }
    assert(seq![b] + Seq::empty() =~= seq![b]);
}

// What writing a piece of text as (part of) a JSON string did: everything that was
// there before is untouched, and what was added reads back as the text.
pub open spec fn quoted(before: Seq<u8>, after: Seq<u8>, text: Seq<u8>) -> bool {
    before.len() <= after.len() && after.take(before.len() as int) == before
    && unesc(after.skip(before.len() as int)) == Some(text)
}
// Fragments: quoting a text piece by piece quotes the text.
pub proof fn quoted_fragments(o0: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires quoted(o0, o1, a), quoted(o1, o2, b),
    ensures quoted(o0, o2, a + b),
{
    let n0 = o0.len() as int;
    let n1 = o1.len() as int;
    assert(o2.take(n0) =~= o1.take(n0)) by {
        assert forall|i: int| 0 <= i < n0 implies o2[i] == o1[i] by { assert(o2.take(n1)[i] == o1[i]); }
    }
    assert(o2.skip(n0) =~= o1.skip(n0) + o2.skip(n1)) by {
        assert forall|i: int| n0 <= i < n1 implies o2[i] == o1[i] by { assert(o2.take(n1)[i] == o1[i]); }
    }
    unesc_append(o1.skip(n0), o2.skip(n1));
}
pub proof fn quoted_chunk(o: Seq<u8>, chunk: Seq<u8>, text: Seq<u8>)
    requires unesc(chunk) == Some(text),
    ensures quoted(o, o + chunk, text),
{
    assert((o + chunk).take(o.len() as int) =~= o);
    assert((o + chunk).skip(o.len() as int) =~= chunk);
}

pub proof fn hex_digits(byte: u8)
    requires byte < 0x20,
    ensures (byte >> 4) < 16, (byte & 0xF) < 16, (byte >> 4) * 16 + (byte & 0xF) == byte,
{
    assert((byte >> 4) < 16 && (byte & 0xF) < 16 && (byte >> 4) * 16 + (byte & 0xF) == byte) by (bit_vector)
        requires byte < 0x20u8;
}

//@use sval_json | to_fmt::BB
//@use sval_json | to_fmt::TT
//@use sval_json | to_fmt::NN
//@use sval_json | to_fmt::FF
//@use sval_json | to_fmt::RR
//@use sval_json | to_fmt::QU
//@use sval_json | to_fmt::BS
//@use sval_json | to_fmt::U

// The table: a byte without an entry stands for itself; the entry of any other byte is
// the letter of its escape.
spec fn entry(b: int, e: u8) -> bool {
    if e == 0 { plain(b as u8) }
    else if e == U { b < 0x20 }
    else { (e == BB || e == TT || e == NN || e == FF || e == RR || e == QU || e == BS) && b < 0x80
        && simple(e) == Some(b as u8) }
}
//@static sval_json | to_fmt::ESCAPE
//@spec
    ensures forall|b: int| 0 <= b < 256 ==> entry(b, #[trigger] ESCAPE@[b]),
//@end

//@fn sval_json | to_fmt::escape_str
//@literals
//@sub mut\s+out: impl Write => out: &mut (impl Write)
//@sub for \((\w+), &(\w+)\) in (?:it:)?\s*(\w+)\.iter\(\)\.enumerate\(\)(?s:(.*?invariant.*?))\{ => let mut nx: usize = 0; while nx < \3.len() \4 { let \1 = nx; nx = nx + 1; let \2 = \3[\1];
//@sub &value\[(\w+)\.\.(\w+)\] => str_sub(value, \1, \2)
//@sub &value\[(\w+)\.\.\] => str_from(value, \1)
//@spec
    requires !(*old(out)).dead(),
    ensures
        r.is_err() == (*final(out)).dead(),
        r.is_ok() ==> quoted((*old(out)).out(), (*final(out)).out(), value.spec_bytes()),
//@head
    proof { str_ends(value); }
    let ghost all = value.spec_bytes();
    let ghost o0 = out.out();
    proof { quoted_chunk(o0, Seq::empty(), Seq::empty()); assert(o0 + Seq::<u8>::empty() =~= o0); assert(all.take(0) =~= Seq::empty()); assert(all.take(all.len() as int) =~= all);
        assert(all.subrange(0, 0) =~= Seq::empty()); }
//@loop 0
        invariant
            bytes@ == all, all == value.spec_bytes(), valid_utf8(all),
            is_char_boundary(all, all.len() as int),
            o0 == (*old(out)).out(),
            start <= nx <= all.len(),
            !out.dead(),
            quoted(o0, out.out(), all.take(start as int)),
            quoted(o0, out.out() + all.subrange(start as int, nx as int), all.take(nx as int)),
            all.take(all.len() as int) == all,
            is_char_boundary(all, start as int),
            forall|j: int| start <= j < nx ==> plain(#[trigger] all[j]),
        decreases all.len() - nx,
//@loophead 0
        let ghost before = out.out();
        let ghost start0 = start;
        proof {
            broadcast use ascii_char;
            if plain(byte) {
                unesc_plain(all.subrange(start as int, nx as int));
                quoted_chunk(before, all.subrange(start as int, nx as int), all.subrange(start as int, nx as int));
                quoted_fragments(o0, before, before + all.subrange(start as int, nx as int), all.take(start as int), all.subrange(start as int, nx as int));
                assert(all.take(start as int) + all.subrange(start as int, nx as int) =~= all.take(nx as int));
            }
            if all[nx - 1] < 0x80 { ascii_boundary(all, nx - 1); }
            if byte < 0x20 { hex_digits(byte); }
        }
//@looptail 0
        proof {
            broadcast use ascii_char;
            let i = nx - 1;
            let piece = all.subrange(start0 as int, i);
            let flushed = before + piece;
            assert(before + Seq::<u8>::empty() =~= before);
            let chunk = out.out().skip(flushed.len() as int);
            assert(out.out() =~= flushed + chunk);
            assert(chunk.len() == 2 || chunk.len() == 6);
            assert(escape_of(chunk, byte));
            unesc_one(chunk, byte);
            unesc_plain(piece);
            quoted_chunk(before, piece, piece);
            quoted_chunk(flushed, chunk, seq![byte]);
            quoted_fragments(o0, before, flushed, all.take(start0 as int), piece);
            assert(all.take(start0 as int) + piece =~= all.take(i));
            quoted_fragments(o0, flushed, out.out(), all.take(i), seq![byte]);
            assert(all.take(i) + seq![byte] =~= all.take(i + 1));
            assert(out.out() + all.subrange(start as int, nx as int) =~= out.out());
        }
//@end
