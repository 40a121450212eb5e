//! Stand-in for the part of uuid that the Ficus backend uses.
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Uuid(u128);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bad uuid") } }
impl std::error::Error for Error {}
impl Uuid {
    pub fn new_v4() -> Self {
        use std::hash::{BuildHasher, Hasher};
        let half = || std::collections::hash_map::RandomState::new().build_hasher().finish() as u128;
        let v = (half() << 64) | half();
        Uuid((v & !(0xf << 76) & !(0x3 << 62)) | (4 << 76) | (2 << 62))
    }
    pub const fn nil() -> Self { Uuid(0) }
    pub const fn from_u128(v: u128) -> Self { Uuid(v) }
    pub const fn as_u128(&self) -> u128 { self.0 }
    pub fn parse_str(s: &str) -> Result<Self, Error> {
        let s = s.strip_prefix("urn:uuid:").unwrap_or(s);
        let s = match s.strip_prefix('{') { Some(r) => r.strip_suffix('}').ok_or(Error)?, None => s };
        let hex: String = if s.len() == 36 {
            if [8, 13, 18, 23].iter().any(|i| s.as_bytes()[*i] != b'-') { return Err(Error); }
            s.chars().filter(|c| *c != '-').collect()
        } else { s.to_owned() };
        if hex.len() != 32 || !hex.bytes().all(|c| c.is_ascii_hexdigit()) { return Err(Error); }
        u128::from_str_radix(&hex, 16).map(Uuid).map_err(|_| Error)
    }
}
impl std::str::FromStr for Uuid { type Err = Error; fn from_str(s: &str) -> Result<Self, Error> { Self::parse_str(s) } }
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let h = format!("{:032x}", self.0);
        write!(f, "{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
    }
}
impl fmt::Debug for Uuid { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl Uuid {
    pub fn is_nil(&self) -> bool { self.0 == 0 }
    pub fn as_bytes(&self) -> [u8; 16] { self.0.to_be_bytes() }
    pub fn into_bytes(self) -> [u8; 16] { self.0.to_be_bytes() }
    pub fn from_bytes(b: [u8; 16]) -> Self { Uuid(u128::from_be_bytes(b)) }
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> { b.try_into().map(Self::from_bytes).map_err(|_| Error) }
    pub fn to_u128_le(&self) -> u128 { self.0.swap_bytes() }
    pub fn hyphenated(&self) -> String { self.to_string() }
    pub fn simple(&self) -> String { format!("{:032x}", self.0) }
    pub fn try_parse(s: &str) -> Result<Self, Error> { Self::parse_str(s) }
}
