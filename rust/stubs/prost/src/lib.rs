//! Stand-in for prost: the protobuf wire format, driven by code that verif/ficusmon/protorust.py generates from the .proto files.
#[derive(Debug, Clone, PartialEq)]
pub struct DecodeError(pub String);
impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for DecodeError {}

pub enum Raw<'a> { Varint(u64), Fixed64(u64), Fixed32(u32), Bytes(&'a [u8]) }

pub fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 { out.push((v as u8) | 0x80); v >>= 7; }
    out.push(v as u8);
}
fn short<T>() -> Result<T, DecodeError> { Err(DecodeError("truncated message".to_owned())) }
pub fn varint(buf: &mut &[u8]) -> Result<u64, DecodeError> {
    let (mut v, mut shift) = (0u64, 0);
    loop {
        let Some((b, rest)) = buf.split_first() else { return short() };
        *buf = rest;
        if shift < 64 { v |= ((b & 0x7f) as u64) << shift; }
        if b & 0x80 == 0 { return Ok(v); }
        shift += 7;
        if shift > 63 + 7 { return Err(DecodeError("long varint".to_owned())); }
    }
}
fn take<'a>(buf: &mut &'a [u8], n: usize) -> Result<&'a [u8], DecodeError> {
    if buf.len() < n { return short(); }
    let (a, b) = buf.split_at(n);
    *buf = b;
    Ok(a)
}
pub trait Message: Default + Clone + Sized {
    fn write(&self, out: &mut Vec<u8>);
    fn field(&mut self, tag: u32, raw: Raw) -> Result<(), DecodeError>;
    fn encode_to_vec(&self) -> Vec<u8> { let mut out = vec![]; self.write(&mut out); out }
    fn merge(&mut self, mut buf: &[u8]) -> Result<(), DecodeError> {
        while !buf.is_empty() {
            let key = varint(&mut buf)?;
            let raw = match key & 7 {
                0 => Raw::Varint(varint(&mut buf)?),
                1 => Raw::Fixed64(u64::from_le_bytes(take(&mut buf, 8)?.try_into().unwrap())),
                2 => { let n = varint(&mut buf)? as usize; Raw::Bytes(take(&mut buf, n)?) }
                5 => Raw::Fixed32(u32::from_le_bytes(take(&mut buf, 4)?.try_into().unwrap())),
                w => return Err(DecodeError(format!("wire type {}", w))),
            };
            self.field((key >> 3) as u32, raw)?;
        }
        Ok(())
    }
    fn decode(buf: &[u8]) -> Result<Self, DecodeError> { let mut m = Self::default(); m.merge(buf)?; Ok(m) }
}
impl Message for () {
    fn write(&self, _: &mut Vec<u8>) {}
    fn field(&mut self, _: u32, _: Raw) -> Result<(), DecodeError> { Ok(()) }
}
pub trait Scalar: Sized + Clone {
    const WIRE: u8;
    fn zero(&self) -> bool;
    fn put(&self, out: &mut Vec<u8>);
    fn get(raw: &Raw) -> Result<Self, DecodeError>;
    fn take(buf: &mut &[u8]) -> Result<Self, DecodeError>;
}
fn wrong<T>() -> Result<T, DecodeError> { Err(DecodeError("wrong wire type".to_owned())) }
macro_rules! varints { ($($t:ty),*) => { $(impl Scalar for $t {
    const WIRE: u8 = 0;
    fn zero(&self) -> bool { *self == 0 }
    fn put(&self, out: &mut Vec<u8>) { put_varint(*self as i128 as u64, out) }
    fn get(raw: &Raw) -> Result<Self, DecodeError> { match raw { Raw::Varint(v) => Ok(*v as $t), _ => wrong() } }
    fn take(buf: &mut &[u8]) -> Result<Self, DecodeError> { Ok(varint(buf)? as $t) }
})* } }
varints!(u32, u64, i32, i64);
impl Scalar for bool {
    const WIRE: u8 = 0;
    fn zero(&self) -> bool { !*self }
    fn put(&self, out: &mut Vec<u8>) { put_varint(*self as u64, out) }
    fn get(raw: &Raw) -> Result<Self, DecodeError> { match raw { Raw::Varint(v) => Ok(*v != 0), _ => wrong() } }
    fn take(buf: &mut &[u8]) -> Result<Self, DecodeError> { Ok(varint(buf)? != 0) }
}
impl Scalar for f32 {
    const WIRE: u8 = 5;
    fn zero(&self) -> bool { self.to_bits() == 0 }
    fn put(&self, out: &mut Vec<u8>) { out.extend(self.to_le_bytes()) }
    fn get(raw: &Raw) -> Result<Self, DecodeError> { match raw { Raw::Fixed32(v) => Ok(f32::from_bits(*v)), _ => wrong() } }
    fn take(buf: &mut &[u8]) -> Result<Self, DecodeError> { Ok(f32::from_le_bytes(take(buf, 4)?.try_into().unwrap())) }
}
impl Scalar for f64 {
    const WIRE: u8 = 1;
    fn zero(&self) -> bool { self.to_bits() == 0 }
    fn put(&self, out: &mut Vec<u8>) { out.extend(self.to_le_bytes()) }
    fn get(raw: &Raw) -> Result<Self, DecodeError> { match raw { Raw::Fixed64(v) => Ok(f64::from_bits(*v)), _ => wrong() } }
    fn take(buf: &mut &[u8]) -> Result<Self, DecodeError> { Ok(f64::from_le_bytes(take(buf, 8)?.try_into().unwrap())) }
}
impl Scalar for String {
    const WIRE: u8 = 2;
    fn zero(&self) -> bool { self.is_empty() }
    fn put(&self, out: &mut Vec<u8>) { put_varint(self.len() as u64, out); out.extend(self.as_bytes()) }
    fn get(raw: &Raw) -> Result<Self, DecodeError> {
        match raw { Raw::Bytes(b) => String::from_utf8(b.to_vec()).map_err(|_| DecodeError("not UTF-8".to_owned())), _ => wrong() }
    }
    fn take(_: &mut &[u8]) -> Result<Self, DecodeError> { wrong() }
}
pub fn put_key(tag: u32, wire: u8, out: &mut Vec<u8>) { put_varint(((tag as u64) << 3) | wire as u64, out) }
pub fn put_scalar<T: Scalar>(tag: u32, v: &T, out: &mut Vec<u8>) { put_key(tag, T::WIRE, out); v.put(out) }
pub fn put_default<T: Scalar>(tag: u32, v: &T, out: &mut Vec<u8>) { if !v.zero() { put_scalar(tag, v, out) } }
pub fn put_scalars<T: Scalar>(tag: u32, vs: &[T], out: &mut Vec<u8>) {
    if T::WIRE == 2 { for v in vs { put_scalar(tag, v, out) } return; }
    if vs.is_empty() { return; }
    let mut packed = vec![];
    for v in vs { v.put(&mut packed) }
    put_key(tag, 2, out);
    put_varint(packed.len() as u64, out);
    out.extend(packed);
}
pub fn get_scalars<T: Scalar>(raw: Raw, vs: &mut Vec<T>) -> Result<(), DecodeError> {
    match raw {
        Raw::Bytes(mut b) if T::WIRE != 2 => { while !b.is_empty() { vs.push(T::take(&mut b)?) } }
        raw => vs.push(T::get(&raw)?),
    }
    Ok(())
}
pub fn put_message<M: Message>(tag: u32, m: &M, out: &mut Vec<u8>) {
    let inner = m.encode_to_vec();
    put_key(tag, 2, out);
    put_varint(inner.len() as u64, out);
    out.extend(inner);
}
pub fn get_message<M: Message>(raw: Raw, m: &mut M) -> Result<(), DecodeError> { match raw { Raw::Bytes(b) => m.merge(b), _ => wrong() } }
