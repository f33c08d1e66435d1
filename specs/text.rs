// Text: UTF-8 facts about `str`, and the contract of `core::fmt::Write`.

pub mod fmt {
    use vstd::prelude::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
}

#[verifier::external_body]
pub fn unreached() -> !
    requires false,
{ unreachable!() }

pub proof fn lit_bytes(s: Seq<char>)
    ensures is_ascii_chars(s) ==> encode_utf8(s) =~= s.map_values(|c: char| c as u8),
{
    if is_ascii_chars(s) { is_ascii_chars_encode_utf8(s); }
}

// `&v[a..b]` of a `str` (vstd gives the precondition and no postcondition)
#[verifier::external_body]
pub fn str_sub<'a>(v: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires
        a <= b <= v.spec_bytes().len(),
        is_char_boundary(v.spec_bytes(), a as int),
        is_char_boundary(v.spec_bytes(), b as int),
    ensures r.spec_bytes() == v.spec_bytes().subrange(a as int, b as int),
{ &v[a..b] }
#[verifier::external_body]
pub fn str_from<'a>(v: &'a str, a: usize) -> (r: &'a str)
    requires
        a <= v.spec_bytes().len(),
        is_char_boundary(v.spec_bytes(), a as int),
    ensures r.spec_bytes() == v.spec_bytes().subrange(a as int, v.spec_bytes().len() as int),
{ &v[a..] }

pub proof fn str_ends(v: &str)
    ensures
        valid_utf8(v.spec_bytes()),
        is_char_boundary(v.spec_bytes(), 0),
        is_char_boundary(v.spec_bytes(), v.spec_bytes().len() as int),
{
    encode_utf8_valid_utf8(v@);
    is_char_boundary_start_end_of_seq(v.spec_bytes());
}

// An ASCII byte of valid UTF-8 is a character of its own.
pub proof fn ascii_boundary(bs: Seq<u8>, i: int)
    requires valid_utf8(bs), 0 <= i < bs.len(), bs[i] < 0x80,
    ensures is_char_boundary(bs, i), is_char_boundary(bs, i + 1),
    decreases bs.len(),
{
    is_char_boundary_iff_is_leading_byte(bs, i);
    if i + 1 == bs.len() {
        is_char_boundary_start_end_of_seq(bs);
    } else if i == 0 {
        assert(length_of_first_scalar(bs) == 1);
        let p = pop_first_scalar(bs);
        assert(is_char_boundary(p, 0));
        reveal_with_fuel(is_char_boundary, 2);
    } else {
        let n = length_of_first_scalar(bs);
        let p = pop_first_scalar(bs);
        assert(is_char_boundary(p, i - n));
        if i - n < 0 { assert(!is_char_boundary(p, i - n)); }
        assert(p.len() == bs.len() - n);
        assert(p[i - n] == bs[i]);
        ascii_boundary(p, i - n);
        assert(is_char_boundary(p, i - n + 1));
    }
}

#[verifier::external_body]
fn char_str(c: char) -> (r: &'static str)
    ensures r.spec_bytes() == encode_utf8(seq![c]),
{ unimplemented!() }

pub broadcast proof fn ascii_char(c: char)
    ensures (c as u32) < 0x80 ==> #[trigger] encode_utf8(seq![c]) == seq![c as u8],
{
    if (c as u32) < 0x80 {
        is_ascii_chars_encode_utf8(seq![c]);
        assert(encode_utf8(seq![c]) =~= seq![c as u8]);
    }
}
