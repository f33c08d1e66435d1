#[derive(PartialEq, Eq, Structural, Copy, Clone)]
pub enum IoErrorKind {
    Interrupted, WriteZero, Other, WouldBlock, TimedOut, BrokenPipe, UnexpectedEof, ConnectionReset, NotFound, PermissionDenied,
    InvalidData, InvalidInput, AlreadyExists, ConnectionAborted, ConnectionRefused, NotConnected, AddrInUse, AddrNotAvailable,
    OutOfMemory, Unsupported, HostUnreachable, NetworkUnreachable, NetworkDown, NotADirectory, IsADirectory, DirectoryNotEmpty,
    ReadOnlyFilesystem, StaleNetworkFileHandle, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy,
    ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong,
}
// `std::io::Write`, as documented: a write accepts a prefix of what it is given, or fails and
// accepts nothing. The number of times a sink interrupts is finite (else nothing can end).
pub mod io {
    use super::*;
    pub use crate::IoErrorKind as ErrorKind;
    pub struct Error { pub k: ErrorKind }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind)
            ensures r == self.k,
        { self.k }
    }
    impl IoErrorKind {
        pub fn into(self) -> (r: Error)
            ensures r.k == self,
        { Error { k: self } }
    }
    pub trait Write {
        type End;
        spec fn out(&self) -> Seq<u8>;
        spec fn interrupts_left(&self) -> nat;
        // the error it last reported, but for interruptions
        spec fn failure(&self) -> Option<Error>;
        // (of a sink behind a reference: the sink its owner will find there)
        #[verifier::prophetic]
        spec fn end(&self) -> Self::End;
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, Error>)
            ensures
                (*final(self)).end() == (*old(self)).end(),
                match r {
                    Ok(n) => n <= buf.len() && (*final(self)).failure() == (*old(self)).failure() && (*final(self)).out() == (*old(self)).out() + buf@.take(n as int)
                        && (*final(self)).interrupts_left() <= (*old(self)).interrupts_left(),
                    Err(e) => (*final(self)).out() == (*old(self)).out()
                        && (*final(self)).failure() == (if e.k == ErrorKind::Interrupted { (*old(self)).failure() } else { Some(e) })
                        && (e.k == ErrorKind::Interrupted ==> (*final(self)).interrupts_left() < (*old(self)).interrupts_left()),
                },
        ;
        fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), Error>)
            ensures
                (*final(self)).end() == (*old(self)).end(),
                r.is_err() ==> (*final(self)).failure() == Some(r->Err_0),
                r.is_ok() ==> (*final(self)).failure() == (*old(self)).failure(),
                r.is_ok() ==> (*final(self)).out() == (*old(self)).out() + buf@,
                r.is_err() ==> exists|k: int| 0 <= k <= buf@.len() && (*final(self)).out() == (*old(self)).out() + #[trigger] buf@.take(k),
        ;
    }
    impl<'a, W: Write> Write for &'a mut W {
        type End = W;
        open spec fn out(&self) -> Seq<u8> { (**self).out() }
        open spec fn interrupts_left(&self) -> nat { (**self).interrupts_left() }
        open spec fn failure(&self) -> Option<Error> { (**self).failure() }
        #[verifier::prophetic]
        open spec fn end(&self) -> W { *final(*self) }
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, Error>) { (**self).write(buf) }
        fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), Error>) { (**self).write_all(buf) }
    }
}
