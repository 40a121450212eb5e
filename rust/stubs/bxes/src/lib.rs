//! Stand-in for the bxes crate: its model of an event log, written to and read from one file (as JSON, not in the BXES format).
pub mod models {
    use std::rc::Rc;
    use uuid::Uuid;
    pub type BxesPair = (Rc<Box<BxesValue>>, Rc<Box<BxesValue>>);
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesEventLog { pub version: u32, pub metadata: BxesEventLogMetadata, pub variants: Vec<BxesTraceVariant> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesEventLogMetadata {
        pub extensions: Option<Vec<BxesExtension>>, pub classifiers: Option<Vec<BxesClassifier>>,
        pub properties: Option<Vec<BxesPair>>, pub globals: Option<Vec<BxesGlobal>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesExtension { pub name: Rc<Box<BxesValue>>, pub prefix: Rc<Box<BxesValue>>, pub uri: Rc<Box<BxesValue>> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesClassifier { pub name: Rc<Box<BxesValue>>, pub keys: Vec<Rc<Box<BxesValue>>> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesGlobal { pub entity_kind: BxesGlobalKind, pub globals: Vec<BxesPair> }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum BxesGlobalKind { Event, Trace, Log }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesTraceVariant { pub traces_count: u32, pub metadata: Vec<BxesPair>, pub events: Vec<BxesEvent> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesEvent { pub name: Rc<Box<BxesValue>>, pub timestamp: i64, pub attributes: Option<Vec<BxesPair>> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesArtifact { pub items: Vec<String> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BxesDrivers { pub drivers: Vec<String> }
    #[derive(Debug, Clone, PartialEq)]
    pub enum SoftwareEventType { Unspecified, Call, Return, Throws, Handle, Calling, Returning }
    #[derive(Debug, Clone, PartialEq)]
    pub enum BxesValue {
        Int32(i32), Int64(i64), Uint32(u32), Uint64(u64), Float32(f32), Float64(f64), String(Rc<Box<String>>), Bool(bool), Timestamp(i64),
        BrafLifecycle(BrafLifecycle), StandardLifecycle(StandardLifecycle), Artifact(BxesArtifact), Drivers(BxesDrivers), Guid(Uuid),
        SoftwareEventType(SoftwareEventType),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Lifecycle { Braf(BrafLifecycle), Standard(StandardLifecycle) }
    macro_rules! names { ($t:ident: $($v:ident),*) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum $t { $($v),* }
        impl $t { pub(crate) fn parse(s: &str) -> Option<Self> { match s { $(stringify!($v) => Some($t::$v),)* _ => None } } }
    } }
    names!(BrafLifecycle: Unspecified, Closed, ClosedCancelled, ClosedCancelledAborted, ClosedCancelledError, ClosedCancelledExited,
        ClosedCancelledObsolete, ClosedCancelledTerminated, Completed, CompletedFailed, CompletedSuccess, Open, OpenNotRunning,
        OpenNotRunningAssigned, OpenNotRunningReserved, OpenNotRunningSuspendedAssigned, OpenNotRunningSuspendedReserved, OpenRunning,
        OpenRunningInProgress, OpenRunningSuspended);
    names!(StandardLifecycle: Unspecified, Assign, AteAbort, Autoskip, Complete, ManualSkip, PiAbort, ReAssign, Resume, Schedule, Start,
        Suspend, Unknown, Withdraw);
}
macro_rules! error { ($t:ident) => {
    #[derive(Debug, Clone)]
    pub struct $t(pub String);
    impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for $t {}
} }
pub mod writer {
    pub mod errors { error!(BxesWriteError); }
    pub mod single_file_bxes_writer {
        use super::errors::BxesWriteError;
        pub fn write_bxes(path: &str, log: &crate::models::BxesEventLog) -> Result<(), BxesWriteError> {
            std::fs::write(path, crate::text::dump(log).map_err(BxesWriteError)?).map_err(|e| BxesWriteError(e.to_string()))
        }
    }
}
pub mod read {
    pub mod errors { error!(BxesReadError); }
    pub mod single_file_bxes_reader {
        use super::errors::BxesReadError;
        pub fn read_bxes(path: &str) -> Result<crate::models::BxesEventLog, BxesReadError> {
            let text = std::fs::read_to_string(path).map_err(|e| BxesReadError(e.to_string()))?;
            crate::text::parse(&text).ok_or_else(|| BxesReadError("not a log".to_owned()))
        }
    }
}
mod text {
    use crate::models::*;
    use serde_json::{json, Value};
    use std::rc::Rc;
    fn value(v: &BxesValue) -> Result<Value, String> {
        Ok(match v {
            BxesValue::Int32(x) => json!(["i32", x.to_string()]),
            BxesValue::Int64(x) => json!(["i64", x.to_string()]),
            BxesValue::Uint32(x) => json!(["u32", x.to_string()]),
            BxesValue::Uint64(x) => json!(["u64", x.to_string()]),
            BxesValue::Float32(x) => json!(["f32", x.to_bits().to_string()]),
            BxesValue::Float64(x) => json!(["f64", x.to_bits().to_string()]),
            BxesValue::String(x) => json!(["s", x.as_str()]),
            BxesValue::Bool(x) => json!(["b", x.to_string()]),
            BxesValue::Timestamp(x) => json!(["t", x.to_string()]),
            BxesValue::BrafLifecycle(x) => json!(["braf", format!("{:?}", x)]),
            BxesValue::StandardLifecycle(x) => json!(["std", format!("{:?}", x)]),
            BxesValue::Guid(x) => json!(["g", x.to_string()]),
            other => return Err(format!("cannot write {:?}", other)),
        })
    }
    fn pair(p: &BxesPair) -> Result<Value, String> { Ok(json!([value(&p.0)?, value(&p.1)?])) }
    fn all<T>(v: &[T], f: impl Fn(&T) -> Result<Value, String>) -> Result<Value, String> { Ok(Value::Array(v.iter().map(f).collect::<Result<_, _>>()?)) }
    fn opt<T>(v: &Option<Vec<T>>, f: impl Fn(&T) -> Result<Value, String>) -> Result<Value, String> {
        match v { None => Ok(Value::Null), Some(v) => all(v, f) }
    }
    pub fn dump(log: &BxesEventLog) -> Result<String, String> {
        let m = &log.metadata;
        Ok(json!({
            "version": log.version,
            "extensions": opt(&m.extensions, |e| Ok(json!([value(&e.name)?, value(&e.prefix)?, value(&e.uri)?])))?,
            "classifiers": opt(&m.classifiers, |c| Ok(json!([value(&c.name)?, all(&c.keys, |k| value(k))?])))?,
            "properties": opt(&m.properties, pair)?,
            "globals": opt(&m.globals, |g| Ok(json!([format!("{:?}", g.entity_kind), all(&g.globals, pair)?])))?,
            "variants": all(&log.variants, |v| Ok(json!([v.traces_count, all(&v.metadata, pair)?, all(&v.events, |e| {
                Ok(json!([value(&e.name)?, e.timestamp.to_string(), opt(&e.attributes, pair)?]))
            })?])))?,
        }).to_string())
    }
    fn un(v: &Value) -> Option<Rc<Box<BxesValue>>> {
        let (kind, s) = (v.get(0)?.as_str()?, v.get(1)?.as_str()?);
        Some(Rc::new(Box::new(match kind {
            "i32" => BxesValue::Int32(s.parse().ok()?),
            "i64" => BxesValue::Int64(s.parse().ok()?),
            "u32" => BxesValue::Uint32(s.parse().ok()?),
            "u64" => BxesValue::Uint64(s.parse().ok()?),
            "f32" => BxesValue::Float32(f32::from_bits(s.parse().ok()?)),
            "f64" => BxesValue::Float64(f64::from_bits(s.parse().ok()?)),
            "s" => BxesValue::String(Rc::new(Box::new(s.to_owned()))),
            "b" => BxesValue::Bool(s.parse().ok()?),
            "t" => BxesValue::Timestamp(s.parse().ok()?),
            "braf" => BxesValue::BrafLifecycle(BrafLifecycle::parse(s)?),
            "std" => BxesValue::StandardLifecycle(StandardLifecycle::parse(s)?),
            "g" => BxesValue::Guid(uuid::Uuid::parse_str(s).ok()?),
            _ => return None,
        })))
    }
    fn unpair(v: &Value) -> Option<BxesPair> { Some((un(v.get(0)?)?, un(v.get(1)?)?)) }
    fn each<T>(v: &Value, f: impl Fn(&Value) -> Option<T>) -> Option<Vec<T>> { v.as_array()?.iter().map(f).collect() }
    fn maybe<T>(v: &Value, f: impl Fn(&Value) -> Option<T>) -> Option<Option<Vec<T>>> { if v.is_null() { Some(None) } else { each(v, f).map(Some) } }
    pub fn parse(text: &str) -> Option<BxesEventLog> {
        let v: Value = serde_json::from_str(text).ok()?;
        Some(BxesEventLog {
            version: v["version"].as_u64()? as u32,
            metadata: BxesEventLogMetadata {
                extensions: maybe(&v["extensions"], |e| Some(BxesExtension { name: un(&e[0])?, prefix: un(&e[1])?, uri: un(&e[2])? }))?,
                classifiers: maybe(&v["classifiers"], |c| Some(BxesClassifier { name: un(&c[0])?, keys: each(&c[1], un)? }))?,
                properties: maybe(&v["properties"], unpair)?,
                globals: maybe(&v["globals"], |g| {
                    let entity_kind = match g[0].as_str()? { "Event" => BxesGlobalKind::Event, "Trace" => BxesGlobalKind::Trace, _ => BxesGlobalKind::Log };
                    Some(BxesGlobal { entity_kind, globals: each(&g[1], unpair)? })
                })?,
            },
            variants: each(&v["variants"], |v| Some(BxesTraceVariant {
                traces_count: v[0].as_u64()? as u32,
                metadata: each(&v[1], unpair)?,
                events: each(&v[2], |e| Some(BxesEvent { name: un(&e[0])?, timestamp: e[1].as_str()?.parse().ok()?, attributes: maybe(&e[2], unpair)? }))?,
            }))?,
        })
    }
}
