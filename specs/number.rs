// C03: text tagged as a number.
//
// The reader of decimal numbers (of the tag's grammar and of JSON's): what has been read
// so far.  Phases: 0 start, 1 after a sign, 2 integral digits, 3 after the point,
// 4 fractional digits, 5 after `e`, 6 after the exponent's sign, 7 exponent digits,
// 9 not a number.
pub ghost struct Num {
    pub phase: int, pub plus: bool, pub neg: bool, pub mant: int, pub scale: int, pub eneg: bool, pub exp: int,
    pub ilen: int, pub izero: bool,
}
pub open spec fn num0() -> Num {
    Num { phase: 0, plus: false, neg: false, mant: 0, scale: 0, eneg: false, exp: 0, ilen: 0, izero: false }
}
pub open spec fn digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn read(n: Num, b: u8) -> Num {
    let p = n.phase;
    if digit(b) {
        let d = b - 48;
        if p <= 2 { Num { phase: 2, mant: n.mant * 10 + d, ilen: n.ilen + 1, izero: if n.ilen == 0 { d == 0 } else { n.izero }, ..n } }
        else if p <= 4 { Num { phase: 4, mant: n.mant * 10 + d, scale: n.scale + 1, ..n } }
        else if p <= 7 { Num { phase: 7, exp: n.exp * 10 + d, ..n } }
        else { Num { phase: 9, ..n } }
    }
    else if (b == 43 || b == 45) && p == 0 { Num { phase: 1, plus: b == 43, neg: b == 45, ..n } }
    else if (b == 43 || b == 45) && p == 5 { Num { phase: 6, eneg: b == 45, ..n } }
    else if b == 46 && p == 2 { Num { phase: 3, ..n } }
    else if (b == 101 || b == 69) && (p == 2 || p == 4) { Num { phase: 5, ..n } }
    else { Num { phase: 9, ..n } }
}
pub open spec fn read_all(s: Seq<u8>) -> Num
    decreases s.len(),
{ if s.len() == 0 { num0() } else { read(read_all(s.drop_last()), s.last()) } }
pub open spec fn complete(n: Num) -> bool { n.phase == 2 || n.phase == 4 || n.phase == 7 }
// the grammar of the tag
pub open spec fn is_number(s: Seq<u8>) -> bool { complete(read_all(s)) }
// the grammar of JSON: no plus sign and no superfluous leading zeroes
pub open spec fn is_json_number(s: Seq<u8>) -> bool {
    complete(read_all(s)) && !read_all(s).plus && !(read_all(s).izero && read_all(s).ilen > 1)
}
pub open spec fn same_number(a: Num, b: Num) -> bool {
    a.mant == b.mant && a.scale == b.scale && a.eneg == b.eneg && a.exp == b.exp && (a.neg == b.neg || a.mant == 0)
}

// What the handler of number text does with one byte.
pub ghost struct Nh { pub at_start: bool, pub neg: bool }
pub open spec fn nonfinite(b: u8) -> bool {
    b == 115 || b == 110 || b == 105 || b == 83 || b == 78 || b == 73
}
pub open spec fn sign(s: Nh) -> Seq<u8> { if s.neg { seq![45u8] } else { Seq::empty() } }
pub open spec fn nstep(s: Nh, b: u8) -> (Nh, Seq<u8>) {
    if s.at_start && b == 48 { (s, Seq::empty()) }
    else if digit(b) { (Nh { at_start: false, ..s }, (if s.at_start { sign(s) } else { Seq::empty() }) + seq![b]) }
    else if b == 46 || b == 101 || b == 69 {
        (Nh { at_start: false, ..s }, (if s.at_start { sign(s) + seq![48u8] } else { Seq::empty() }) + seq![b])
    }
    else if s.at_start && b == 45 { (Nh { neg: true, ..s }, Seq::empty()) }
    else if s.at_start && b == 43 { (s, Seq::empty()) }
    else { (Nh { at_start: false, ..s }, seq![b]) }
}
pub open spec fn nfold(s: Nh, v: Seq<u8>) -> (Nh, Seq<u8>)
    decreases v.len(),
{
    if v.len() == 0 { (s, Seq::empty()) }
    else {
        let (s1, o1) = nfold(s, v.drop_last());
        let (s2, o2) = nstep(s1, v.last());
        (s2, o1 + o2)
    }
}
pub open spec fn nstart() -> Nh { Nh { at_start: true, neg: false } }
pub open spec fn all_finite(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> !nonfinite(#[trigger] v[i]) }

// The fragments of a text are handled as the whole text would be.
pub proof fn nfold_fragments(s: Nh, a: Seq<u8>, b: Seq<u8>)
    ensures
        nfold(s, a + b).0 == nfold(nfold(s, a).0, b).0,
        nfold(s, a + b).1 == nfold(s, a).1 + nfold(nfold(s, a).0, b).1,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(nfold(s, a).1 + Seq::<u8>::empty() =~= nfold(s, a).1);
    } else {
        nfold_fragments(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let x = nfold(s, a).1;
        let y = nfold(nfold(s, a).0, b.drop_last());
        let z = nstep(y.0, b.last()).1;
        assert((x + y.1) + z =~= x + (y.1 + z));
    }
}

pub proof fn read_append(a: Seq<u8>, b: u8)
    ensures read_all(a + seq![b]) == read(read_all(a), b),
{ assert((a + seq![b]).drop_last() =~= a); }

// Everything that conforms to the grammar so far: either nothing has been written (only a
// sign and zeroes were read), or what has been written reads as the same number.
pub open spec fn tracks(t: Seq<u8>) -> bool {
    let r = read_all(t);
    let (s, o) = nfold(nstart(), t);
    let w = read_all(o);
    &&& s.neg == r.neg
    &&& s.at_start ==> o.len() == 0 && r.phase <= 2 && r.mant == 0 && r.scale == 0 && r.exp == 0 && !r.eneg
    &&& !s.at_start ==> w == (Num { plus: false, ilen: w.ilen, izero: w.izero, ..r }) && r.phase >= 2 && w.ilen >= 1
        && !(w.izero && w.ilen > 1) && (w.izero ==> r.phase > 2) && (r.phase == 2 ==> r.ilen >= 1)
    &&& r.phase < 2 ==> r.ilen == 0
    &&& r.phase >= 2 ==> r.ilen >= 1
    &&& 0 <= r.phase <= 7
}
pub proof fn number_tracks(t: Seq<u8>)
    requires read_all(t).phase != 9,
    ensures tracks(t),
    decreases t.len(),
{
    if t.len() > 0 {
        let u = t.drop_last();
        let b = t.last();
        number_tracks(u);
        let r = read_all(u);
        let (s, o) = nfold(nstart(), u);
        let (s2, o2) = nstep(s, b);
        reveal_with_fuel(read_all, 3);
        if s.at_start {
            assert(o =~= Seq::empty());
            if s2.at_start { assert(o + o2 =~= Seq::empty()); }
            else if digit(b) {
                assert(o + o2 =~= sign(s) + seq![b]);
                read_append(sign(s), b);
                assert(sign(s).len() == 1 ==> sign(s).drop_last() =~= Seq::empty());
            } else {
                assert(o + o2 =~= sign(s) + seq![48u8] + seq![b]);
                read_append(sign(s), 48);
                read_append(sign(s) + seq![48u8], b);
                assert(sign(s).len() == 1 ==> sign(s).drop_last() =~= Seq::empty());
            }
        } else {
            assert(o + o2 =~= o + seq![b]);
            read_append(o, b);
        }
    }
}
// C03 for number text: what is written for text of the tag's grammar is a JSON number of
// the same value.
pub open spec fn nwritten(t: Seq<u8>) -> Seq<u8> {
    nfold(nstart(), t).1 + (if nfold(nstart(), t).0.at_start { seq![48u8] } else { Seq::empty() })
}
pub proof fn number_text_is_exact(t: Seq<u8>)
    requires is_number(t),
    ensures
        is_json_number(nwritten(t)),
        same_number(read_all(nwritten(t)), read_all(t)),
{
    number_tracks(t);
    let (s, o) = nfold(nstart(), t);
    if s.at_start {
        assert(nwritten(t) =~= seq![48u8]);
        assert(seq![48u8].drop_last() =~= Seq::empty());
        reveal_with_fuel(read_all, 2);
    } else {
        assert(nwritten(t) =~= o);
    }
}

pub proof fn null_bytes()
    ensures "null".spec_bytes() == seq![110u8, 117u8, 108u8, 108u8],
{
    reveal_strlit("null");
    lit_bytes("null"@);
    assert("null".spec_bytes() =~= seq![110u8, 117u8, 108u8, 108u8]);
}

//@use sval_json | to_fmt::TextHandler
//@use sval_json | to_fmt::NumberTextHandler

impl NumberTextHandler {
    spec fn nh(&self) -> Nh { Nh { at_start: self.at_start, neg: self.sign_negative } }
}

// What one fragment does.
pub open spec fn number_piece(s: Nh, nan: bool, s2: Nh, nan2: bool, v: Seq<u8>, before: Seq<u8>, after: Seq<u8>) -> bool {
    if nan { s2 == s && nan2 && after == before }
    else if all_finite(v) { !nan2 && s2 == nfold(s, v).0 && after == before + nfold(s, v).1 }
    else {
        nan2 && !s2.at_start
        // the sign and leading zeroes of a non-finite number are not written
        && forall|k: int| 0 <= k < v.len() && all_finite(v.take(k)) && #[trigger] nonfinite(v[k]) && nfold(s, v.take(k)).0.at_start
            && nfold(s, v.take(k)).1.len() == 0
            ==> after == before + seq![110u8, 117u8, 108u8, 108u8]
    }
}
spec fn number_fragment(h: NumberTextHandler, h2: NumberTextHandler, v: Seq<u8>, before: Seq<u8>, after: Seq<u8>) -> bool {
    number_piece(h.nh(), h.is_nan_or_infinity, h2.nh(), h2.is_nan_or_infinity, v, before, after)
}

//@impl sval_json | to_fmt::{impl NumberTextHandler}
//@literals
//@sub mut\s+out: impl Write => out: &mut (impl Write)
//@sub for b in (?:it:)?\s*v\.as_bytes\(\)(?s:(.*?invariant.*?))\{ => let bytes = v.as_bytes(); let mut nx: usize = 0; while nx < bytes.len() \1 { let b = bytes[nx]; nx = nx + 1;
//@sub &v\[range\] => str_sub(v, range.start, range.end)
//@spec text_fragment
    requires !(*old(out)).dead(), (*old(self)).leading_zeroes + v.spec_bytes().len() <= usize::MAX,
    ensures
        r.is_err() == (*final(out)).dead(),
        r.is_ok() ==> number_fragment(*old(self), *final(self), v.spec_bytes(), (*old(out)).out(), (*final(out)).out()),
        (*final(self)).leading_zeroes <= (*old(self)).leading_zeroes + v.spec_bytes().len(),
//@head text_fragment
    proof { str_ends(v); }
    let ghost all = v.spec_bytes();
    let ghost o0 = out.out();
    let ghost h0 = *self;
    proof { assert(all.take(0) =~= Seq::empty()); assert(o0 + Seq::<u8>::empty() =~= o0); assert(all.take(all.len() as int) =~= all); }
//@loop 0 text_fragment
        invariant_except_break
            !self.is_nan_or_infinity,
            all_finite(all.take(nx as int)),
            range.end == nx,
            self.nh() == nfold(h0.nh(), all.take(nx as int)).0,
            out.out() + all.subrange(range.start as int, range.end as int) == o0 + nfold(h0.nh(), all.take(nx as int)).1,
            self.at_start ==> range.start == range.end,
            is_char_boundary(all, range.start as int),
        invariant
            bytes@ == all, all == v.spec_bytes(), valid_utf8(all), all.take(all.len() as int) == all,
            is_char_boundary(all, 0), is_char_boundary(all, all.len() as int),
            o0 == (*old(out)).out(), h0 == *old(self), !h0.is_nan_or_infinity,
            !out.dead(),
            0 <= nx <= all.len(),
            range.start <= range.end <= nx,
            self.leading_zeroes <= h0.leading_zeroes + nx,
            h0.leading_zeroes + all.len() <= usize::MAX,
        ensures
            nx == all.len() ==> true,
            self.is_nan_or_infinity ==> range.start == 0 && range.end == 0 && number_fragment(h0, *self, all, o0, out.out()),
            !self.is_nan_or_infinity ==> nx == all.len() && all_finite(all) && range.end == nx && is_char_boundary(all, range.start as int)
                && self.nh() == nfold(h0.nh(), all).0
                && out.out() + all.subrange(range.start as int, range.end as int) == o0 + nfold(h0.nh(), all).1,
        decreases all.len() - nx,
//@loophead 0 text_fragment
        let ghost before = out.out();
        let ghost s1 = self.nh();
        let ghost start0 = range.start;
        proof {
            broadcast use ascii_char;
            assert(all.take(nx as int).drop_last() =~= all.take(nx - 1));
            if b < 0x80 { ascii_boundary(all, nx - 1); }
            null_bytes();
            if nonfinite(b) {
                assert(!all_finite(all)) by { assert(nonfinite(all[nx - 1])); }
                assert forall|k: int| 0 <= k < all.len() && all_finite(all.take(k)) && #[trigger] nonfinite(all[k]) implies k == nx - 1 by {
                    if k < nx - 1 { assert(nonfinite(all.take(nx - 1)[k])); }
                    if k > nx - 1 { assert(nonfinite(all.take(k)[nx - 1])); }
                }
                if s1.at_start {
                    assert(before + all.subrange(start0 as int, nx - 1) =~= before);
                    if nfold(h0.nh(), all.take(nx - 1)).1.len() == 0 { assert(o0 + nfold(h0.nh(), all.take(nx - 1)).1 =~= o0); }
                }
            }
        }
//@looptail 0 text_fragment
        proof {
            broadcast use ascii_char;
            let (s2, o2) = nstep(s1, b);
            let x = nfold(h0.nh(), all.take(nx - 1)).1;
            let pend = all.subrange(start0 as int, nx - 1);
            assert(s1.at_start ==> pend =~= Seq::empty());
            assert(out.out() + all.subrange(range.start as int, range.end as int) =~= (before + pend) + o2);
            assert(o0 + (x + o2) =~= (o0 + x) + o2);
            assert forall|i: int| 0 <= i < all.take(nx as int).len() implies !nonfinite(#[trigger] all.take(nx as int)[i]) by {
                if i < nx - 1 { assert(!nonfinite(all.take(nx - 1)[i])); }
            }
        }
//@spec end
    requires !(*old(out)).dead(),
    ensures
        r.is_err() == (*final(out)).dead(),
        r.is_ok() ==> (*final(out)).out() == (if (*old(self)).at_start { (*old(out)).out() + seq![48u8] } else { (*old(out)).out() }),
//@head end
    proof { broadcast use ascii_char; assert(out.out() + Seq::<u8>::empty() =~= out.out()); assert(encode_utf8(seq!['0']) == seq![48u8]); }
//@end
