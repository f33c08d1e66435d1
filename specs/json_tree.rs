use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;

verus! {
//@include data.rs
//@include events.rs
//@include io.rs
pub mod sval { pub use crate::*; }

pub mod json {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::sval;
use crate::io;
pub mod tags {
    use super::*;
    pub const JSON_VALUE: sval::Tag = sval::Tag { id: 101 };
    pub const JSON_TEXT: sval::Tag = sval::Tag { id: 102 };
    pub const JSON_NUMBER: sval::Tag = sval::Tag { id: 103 };
}
//@include text.rs
//@include write_ref.rs
//@include escape.rs stub
//@include number.rs stub
//@include json_steps.rs
//@include json_doc.rs
//@include json_entry.rs
}
fn main() {}
}
