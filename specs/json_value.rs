// C01: text that is JSON already streams as exactly that text, tagged as JSON.
use vstd::prelude::*;
verus! {
//@include stream.rs
pub mod sval { pub use crate::*; }
pub mod jtags { use super::*; pub const JSON_VALUE: Tag = Tag { id: 101 }; pub const JSON_TEXT: Tag = Tag { id: 102 }; pub const JSON_NUMBER: Tag = Tag { id: 103 }; }

pub struct JsonStr(pub str);
impl Value for JsonStr {
    open spec fn evs(&self) -> Seq<Ev> {
        seq![Ev::TaggedBegin(Some(jtags::JSON_VALUE), None, None)] + text_evs(self.0@) + seq![Ev::TaggedEnd(Some(jtags::JSON_VALUE), None, None)]
    }
}
pub mod json_value {
use super::*;
broadcast use {lend_push, append_empty, append_assoc, lend_concat};
//@impl sval_json | value::{impl sval::Value for JsonStr}
//@header impl ValueStream for JsonStr
//@only stream
//@sub crate::tags:: => jtags::
//@end
impl JsonStr {
//@fn sval_json | value::{impl JsonStr}::as_str
//@spec
    ensures r@ == self.0@,
//@end
}
}
fn main() {}
}
