//! Randomness of the simulated process, drawn from the run's PRNG (simrt intercepts libc's call).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(core::num::NonZeroU32);
impl Error {
    pub const fn code(self) -> core::num::NonZeroU32 {
        self.0
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "getrandom: {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::other(e)
    }
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    unsafe { libc::getrandom(dest.as_mut_ptr() as *mut libc::c_void, dest.len(), 0) };
    Ok(())
}
