use crate::patterns::simple_log;
use crate::{names_log, strings};
use chrono::{DateTime, Utc};
use ficus_backend::event_log::core::event::event::{Event, EventPayloadValue};
use ficus_backend::event_log::core::event::event_hasher::{NameEventHasher, RegexEventHasher};
use ficus_backend::event_log::core::event::lifecycle::braf_lifecycle::XesBrafLifecycle;
use ficus_backend::event_log::core::event::lifecycle::standard_lifecycle::XesStandardLifecycle;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::{Trace, TraceEventsPositions, TraceInfo};
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog};
use ficus_backend::event_log::xes::reader::file_xes_log_reader::read_event_log;
use ficus_backend::event_log::xes::writer::xes_event_log_writer::{serialize_event_log, write_log};
use ficus_backend::event_log::xes::xes_event_log::XesEventLogImpl;
use ficus_backend::features::analysis::directly_follows_graph::construct_dfg;
use ficus_backend::features::analysis::entropy::{dfg_entropy, pos_entropy, pos_entropy_fast};
use ficus_backend::features::analysis::event_log_info::*;
use ficus_backend::features::mutations::filtering::*;
use ficus_backend::features::mutations::mutations::*;
use ficus_backend::features::mutations::split::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::str::FromStr;

fn ignored(a: &Value) -> Option<HashSet<String>> {
    a["ignored"].as_array().map(|_| strings(&a["ignored"]).into_iter().collect())
}

pub fn info(a: &Value) -> Value {
    let log = simple_log(&names_log(&a["log"]));
    let ign = ignored(a);
    let fake = a["fake"].as_bool().unwrap();
    let dto = match (fake, ign.as_ref()) {
        (false, None) => EventLogInfoCreationDto::default(&log),
        (true, None) => EventLogInfoCreationDto::default_fake_events(&log),
        (true, Some(_)) => EventLogInfoCreationDto::default_fake_ignored(&log, ign.as_ref()),
        (false, Some(i)) => EventLogInfoCreationDto::default_ignore(&log, i),
    };
    let info = EventLogInfo::create_from(dto);
    let asked = strings(&a["ask"]);
    let dfg = info.dfg_info();
    let mut pairs = vec![];
    for x in &asked {
        for y in &asked {
            let c = dfg.get_directly_follows_count(x, y);
            let r = dfg.is_in_directly_follows_relation(x, y);
            if c != 0 || r {
                pairs.push(json!([x, y, c, r]));
            }
        }
    }
    let per: Map<String, Value> = asked
        .iter()
        .map(|x| {
            (
                x.clone(),
                json!({"count": info.event_count(x), "single": dfg.is_event_with_single_follower(x),
                   "after": dfg.get_followed_events(x), "before": dfg.get_precedes_events(x)}),
            )
        })
        .collect();
    let graph = if a["dfg"].as_bool().unwrap() {
        dump_graph(&construct_dfg(&info))
    } else {
        Value::Null
    };
    json!({"traces": info.traces_count(), "events": info.events_count(), "classes": info.event_classes_count(),
           "all": info.all_event_classes(), "starts": info.start_event_classes(), "ends": info.end_event_classes(),
           "pairs": pairs, "per": per, "graph": graph, "count_events": count_events(&log)})
}

pub fn dump_graph(g: &ficus_backend::utils::graph::graph::DefaultGraph) -> Value {
    let nodes: Vec<Value> = g.all_nodes().iter().map(|n| json!([n.id(), n.data()])).collect();
    let edges: Vec<Value> = g
        .all_edges()
        .iter()
        .map(|e| json!([e.from_node(), e.to_node(), e.data()]))
        .collect();
    json!({"nodes": nodes, "edges": edges})
}

fn floats(m: HashMap<String, f64>) -> Value {
    Value::Object(m.into_iter().map(|(k, v)| (k, json!(format!("{:?}", v)))).collect())
}

fn entropies(log: &SimpleEventLog, ign: &Option<HashSet<String>>) -> Value {
    json!({
        "default": floats(dfg_entropy::calculate_default_dfg_entropy(log, ign.as_ref())),
        "laplace": floats(dfg_entropy::calculate_laplace_dfg_entropy(log, ign.as_ref())),
        "pos": floats(pos_entropy::calculate_pos_entropies(log, ign)),
        "fast": floats(pos_entropy_fast::calculate_pos_entropies_fast(log, ign.as_ref())),
    })
}

pub fn entropy(a: &Value) -> Value {
    entropies(&simple_log(&names_log(&a["log"])), &ignored(a))
}

/// A sequence of changes to one log object; before and after each of them the derived data of the
/// traces (counts, positions, entropies) is asked for.
pub fn mutate(a: &Value) -> Value {
    let mut log = simple_log(&names_log(&a["log"]));
    let observe = a["observe"].as_bool().unwrap();
    let copy = log.clone();
    let mut steps = vec![];
    let state = |log: &SimpleEventLog| -> Value {
        let mut traces = vec![];
        for t in log.traces() {
            let mut t = t.borrow_mut();
            let names = t.to_names_vec();
            if !observe {
                traces.push(json!({ "names": names }));
                continue;
            }
            let counts = {
                let i = t.get_or_create_trace_info();
                json!([i.events_counts(), i.events_count()])
            };
            let classes: HashSet<String> = names.iter().cloned().collect();
            let p = t.get_or_create_events_positions();
            let positions: Map<String, Value> = classes.iter().map(|c| (c.clone(), json!(p.event_positions(c)))).collect();
            traces.push(json!({"names": names, "counts": counts, "positions": positions}));
        }
        Value::Array(traces)
    };
    let first = state(&log);
    for op in a["ops"].as_array().unwrap() {
        let arg = &op[1];
        match op[0].as_str().unwrap() {
            "remove_name" => filter_log_by_name(&mut log, arg.as_str().unwrap()),
            "remove_names" => filter_log_by_names(&mut log, &strings(arg).into_iter().collect()),
            "remove_regex" => filter_log_by_regex(&mut log, &fancy_regex::Regex::new(arg.as_str().unwrap()).unwrap()),
            "rename" => {
                let names: HashSet<String> = strings(arg).into_iter().collect();
                rename_events(&mut log, op[2].as_str().unwrap(), |e| names.contains(e.name()))
            }
            "artificial" => add_artificial_start_end_activities(&mut log, arg[0].as_bool().unwrap(), arg[1].as_bool().unwrap()),
            "push" => {
                let i = op[2].as_u64().unwrap() as usize;
                Trace::push(
                    &mut *log.traces()[i].borrow_mut(),
                    Rc::new(RefCell::new(SimpleEvent::new_with_min_date(arg.as_str().unwrap().to_string()))),
                )
            }
            "remove_traces" => {
                let gone: HashSet<usize> = arg.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                log.filter_traces(&|_, i| gone.contains(i))
            }
            "clone" => log = log.clone(),
            x => panic!("harness: {}", x),
        }
        steps.push(json!({"state": state(&log), "raw": log.to_raw_vector(),
            "entropy": if observe && log.traces().iter().any(|t| t.borrow().events().len() > 0) { entropies(&log, &ignored(a)) } else { Value::Null },
            "groups": get_traces_groups_indices(&log),
            "split": split_by_traces(&log).iter().map(|g| g.iter().map(|t| t.borrow().to_names_vec()).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    }
    json!({"first": first, "steps": steps, "copy": copy.to_raw_vector()})
}

pub fn hashes(a: &Value) -> Value {
    let log = simple_log(&names_log(&a["log"]));
    match a["regex"].as_str() {
        Some(r) => {
            let h = RegexEventHasher::new(&r.to_string()).ok().unwrap();
            let t: Vec<Vec<String>> = names_log(&a["log"])
                .iter()
                .map(|t| t.iter().map(|n| h.transform(n).to_string()).collect())
                .collect();
            json!({"hashes": log.to_hashes_event_log(&h), "shown": t})
        }
        None => json!({"hashes": log.to_hashes_event_log(&NameEventHasher::new()), "shown": names_log(&a["log"])}),
    }
}

fn payload(v: &EventPayloadValue) -> Value {
    match v {
        EventPayloadValue::Date(d) => json!(["date", millis(d)]),
        EventPayloadValue::String(s) => json!(["string", s.as_str()]),
        EventPayloadValue::Boolean(b) => json!(["boolean", b]),
        EventPayloadValue::Int32(i) => json!(["int", i]),
        EventPayloadValue::Int64(i) => json!(["int", i]),
        EventPayloadValue::Float32(f) => json!(["float", format!("{:?}", *f as f64)]),
        EventPayloadValue::Float64(f) => json!(["float", format!("{:?}", f)]),
        EventPayloadValue::Uint32(u) => json!(["int", u]),
        EventPayloadValue::Uint64(u) => json!(["int", u]),
        EventPayloadValue::Guid(g) => json!(["id", g.to_string()]),
        EventPayloadValue::Timestamp(t) => json!(["stamp", t]),
        EventPayloadValue::Lifecycle(l) => json!(["lifecycle", l.to_string()]),
    }
}

fn millis(d: &DateTime<Utc>) -> Value {
    json!(d
        .signed_duration_since(DateTime::parse_from_rfc3339("1970-01-01T00:00:00+00:00").unwrap().with_timezone(&Utc))
        .num_milliseconds())
}

fn dump_xes(log: &XesEventLogImpl) -> Value {
    let traces: Vec<Value> = log
        .traces()
        .iter()
        .map(|t| {
            Value::Array(
                t.borrow()
                    .events()
                    .iter()
                    .map(|e| {
                        let e = e.borrow();
                        let p: Vec<Value> = e.ordered_payload().iter().map(|(k, v)| json!([k, payload(v)])).collect();
                        json!({"name": e.name(), "time": millis(e.timestamp()), "payload": p})
                    })
                    .collect(),
            )
        })
        .collect();
    let globals: Map<String, Value> = log
        .globals_map()
        .iter()
        .map(|(k, v)| {
            (
                k.clone(),
                Value::Object(v.iter().map(|(k, v)| (k.clone(), payload(v))).collect::<Map<String, Value>>()),
            )
        })
        .collect();
    json!({"traces": traces, "globals": globals,
        "extensions": log.extensions().iter().map(|e| json!([e.name, e.prefix, e.uri])).collect::<Vec<_>>(),
        "classifiers": log.classifiers().iter().map(|c| json!([c.name, c.keys])).collect::<Vec<_>>(),
        "properties": log.properties_map().iter().map(|p| json!([p.name, payload(&p.value)])).collect::<Vec<_>>()})
}

pub fn xes(a: &Value) -> Value {
    let path = a["path"].as_str().unwrap();
    let mut log = match read_event_log(path) {
        None => return Value::Null,
        Some(log) => log,
    };
    let first = dump_xes(&log);
    if let Some(edits) = a["edits"].as_array() {
        for e in edits {
            // [trace, event, key, kind, value]
            let t = log.traces()[e[0].as_u64().unwrap() as usize].clone();
            let ev = t.borrow().events()[e[1].as_u64().unwrap() as usize].clone();
            let value = match e[3].as_str().unwrap() {
                "string" => EventPayloadValue::String(Rc::new(Box::new(e[4].as_str().unwrap().to_string()))),
                "int" => EventPayloadValue::Int64(e[4].as_i64().unwrap()),
                "int32" => EventPayloadValue::Int32(e[4].as_i64().unwrap() as i32),
                "uint32" => EventPayloadValue::Uint32(e[4].as_u64().unwrap() as u32),
                "float" => EventPayloadValue::Float64(e[4].as_f64().unwrap()),
                "boolean" => EventPayloadValue::Boolean(e[4].as_bool().unwrap()),
                "name" => {
                    ev.borrow_mut().set_name(e[4].as_str().unwrap().to_string());
                    continue;
                }
                x => panic!("harness: {}", x),
            };
            ev.borrow_mut().add_or_update_payload(e[2].as_str().unwrap().to_string(), value);
        }
    }
    let edited = dump_xes(&log);
    let text = serialize_event_log(&log).ok().unwrap();
    let out = a["out"].as_str().unwrap();
    write_log(&log, out).ok().unwrap();
    let cloned = dump_xes(&log.clone());
    if a["clear"].as_bool().unwrap_or(false) {
        log.globals_mut().clear();
    }
    json!({"first": first, "edited": edited, "text": text, "cloned": cloned,
           "again": read_event_log(out).map(|l| dump_xes(&l))})
}

pub fn lifecycle(a: &Value) -> Value {
    Value::Array(
        strings(&a["names"])
            .iter()
            .map(|n| {
                json!([
                    XesStandardLifecycle::from_str(n).ok().map(|l| (l.to_string(), l as usize)),
                    XesBrafLifecycle::from_str(n).ok().map(|l| (l.to_string(), l as usize))
                ])
            })
            .collect(),
    )
}
