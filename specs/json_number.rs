use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;

verus! {
//@include text.rs
//@include write.rs
//@include number.rs
fn main() {}
}
