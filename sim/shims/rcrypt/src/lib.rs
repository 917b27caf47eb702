//! Stand-in for the password hash: same shape (40 bytes, salted, constant verify), none of the cost.
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug, PartialEq)]
pub enum RcryptError {
    CorruptedHash(String),
    BadPassword,
}
impl std::fmt::Display for RcryptError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for RcryptError {}
pub type RcryptResult<T> = Result<T, RcryptError>;
fn digest(pw: &[u8], salt: u64) -> [u8; 32] {
    // bcrypt looks at the first 72 bytes only
    let pw = &pw[..pw.len().min(72)];
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15));
        for b in pw {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h = (h ^ pw.len() as u64).wrapping_mul(0x94D049BB133111EB);
        h ^= h >> 32;
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}
fn check(password: &[u8]) -> RcryptResult<()> {
    // (as the real one does)
    if password.contains(&0) || password.is_empty() {
        return Err(RcryptError::BadPassword);
    }
    Ok(())
}
pub fn hash<T: AsRef<[u8]>>(password: T, _cost: u32) -> RcryptResult<Vec<u8>> {
    check(password.as_ref())?;
    use std::hash::{BuildHasher, Hasher};
    let salt = std::collections::hash_map::RandomState::new()
        .build_hasher()
        .finish();
    let mut v = salt.to_le_bytes().to_vec();
    v.extend(digest(password.as_ref(), salt));
    Ok(v)
}
pub fn verify<T: AsRef<[u8]>>(password: T, hash: &[u8]) -> RcryptResult<bool> {
    if hash.len() != 40 {
        return Err(RcryptError::CorruptedHash("bad length".into()));
    }
    check(password.as_ref())?;
    let salt = u64::from_le_bytes(hash[..8].try_into().unwrap());
    Ok(digest(password.as_ref(), salt)[..] == hash[8..])
}
