//! Stand-in for the well-known types of protobuf that the Ficus messages use.
use prost::{DecodeError, Message, Raw, Scalar};
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Timestamp { pub seconds: i64, pub nanos: i32 }
impl Message for Timestamp {
    fn write(&self, out: &mut Vec<u8>) { prost::put_default(1, &self.seconds, out); prost::put_default(2, &self.nanos, out) }
    fn field(&mut self, tag: u32, raw: Raw) -> Result<(), DecodeError> {
        match tag { 1 => self.seconds = i64::get(&raw)?, 2 => self.nanos = i32::get(&raw)?, _ => {} }
        Ok(())
    }
}
