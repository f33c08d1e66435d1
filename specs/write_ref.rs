// As write.rs, and: a writer behind a reference stays the same one.
// `core::fmt::Write`: the sink has a ghost output and a ghost flag that says it failed.
//   * it may only be written to while it has not failed;
//   * a write reports an error exactly when the sink fails, and what it accepted of that
//     write is a prefix of it.
pub open spec fn accepted(before: Seq<u8>, after: Seq<u8>, w: Seq<u8>) -> bool {
    exists|k: int| 0 <= k <= w.len() && after == before + #[trigger] w.take(k)
}
pub trait Write {
    type End;
    spec fn out(&self) -> Seq<u8>;
    spec fn dead(&self) -> bool;
    spec fn wf(&self) -> bool;
    // (of a writer behind a reference: the writer its owner will find there)
    #[verifier::prophetic]
    spec fn end(&self) -> Self::End;
    fn write_str(&mut self, s: &str) -> (r: fmt::Result)
        requires !(*old(self)).dead(),
        ensures
            r.is_err() == (*final(self)).dead(),
            (*final(self)).end() == (*old(self)).end(),
            (*old(self)).wf() ==> (*final(self)).wf(),
            r.is_ok() ==> (*final(self)).out() == (*old(self)).out() + s.spec_bytes(),
            r.is_err() ==> accepted((*old(self)).out(), (*final(self)).out(), s.spec_bytes()),
    ;
    fn write_char(&mut self, c: char) -> (r: fmt::Result)
        requires !(*old(self)).dead(),
        ensures
            r.is_err() == (*final(self)).dead(),
            (*final(self)).end() == (*old(self)).end(),
            (*old(self)).wf() ==> (*final(self)).wf(),
            r.is_ok() ==> (*final(self)).out() == (*old(self)).out() + encode_utf8(seq![c]),
            r.is_err() ==> accepted((*old(self)).out(), (*final(self)).out(), encode_utf8(seq![c])),
    {
        // (core: encodes the character and writes it as text)
        let s = char_str(c);
        self.write_str(s)
    }
}
