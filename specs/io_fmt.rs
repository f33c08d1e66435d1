pub mod to_io {
use super::*;
pub struct IoToFmt<W> {
    pub io: W,
    pub err: Option<io::Error>,
}

//@impl sval_json | to_io::stream_to_io_write::{body}::{impl<W: Write> fmt::Write for IoToFmt<W>}
//@header impl<W: io::Write> Write for IoToFmt<W>
//@ghost
    type End = W::End;
    open spec fn out(&self) -> Seq<u8> { self.io.out() }
    open spec fn dead(&self) -> bool { self.err.is_some() }
    open spec fn wf(&self) -> bool {
        match self.err {
            None => self.io.failure() is None,
            Some(e) => self.io.failure() == Some(e) || (self.io.failure() is None && e.k == io::ErrorKind::WriteZero),
        }
    }
    #[verifier::prophetic]
    open spec fn end(&self) -> W::End { self.io.end() }
//@loop 0 write_str
            invariant
                old(self).err.is_none(),
                self.err.is_none(),
                old(self).wf() ==> self.wf(),
                self.io.end() == old(self).io.end(),
                buf@.len() <= v.spec_bytes().len(),
                buf@ == v.spec_bytes().skip(v.spec_bytes().len() - buf@.len()),
                self.io.out() =~= old(self).io.out() + v.spec_bytes().take(v.spec_bytes().len() - buf@.len()),
            decreases buf@.len(), self.io.interrupts_left(),
//@end
}
