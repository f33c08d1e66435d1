use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;

verus! {
//@include text.rs
//@include write_ref.rs

//@include io.rs
//@include io_fmt.rs
fn main() {}
}
