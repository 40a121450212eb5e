use crate::logs::dump_graph;
use crate::patterns::simple_log;
use crate::{names_log, strings, us};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog, SimpleTrace};
use ficus_backend::features::analysis::event_log_info::*;
use ficus_backend::features::discovery::alpha::alpha::*;
use ficus_backend::features::discovery::alpha::alpha_plus_plus_nfc::alpha_plus_plus_nfc::discover_petri_net_alpha_plus_plus_nfc;
use ficus_backend::features::discovery::alpha::providers::alpha_plus_provider::*;
use ficus_backend::features::discovery::alpha::providers::alpha_provider::*;
use ficus_backend::features::discovery::fuzzy::fuzzy_miner::discover_graph_fuzzy;
use ficus_backend::features::discovery::heuristic::heuristic_miner::discover_petri_net_heuristic;
use ficus_backend::features::discovery::petri_net::annotations::*;
use ficus_backend::features::discovery::petri_net::marking::*;
use ficus_backend::features::discovery::petri_net::petri_net::DefaultPetriNet;
use ficus_backend::features::discovery::petri_net::place::Place;
use ficus_backend::features::discovery::petri_net::pnml_serialization::*;
use ficus_backend::features::discovery::petri_net::replay::replay_petri_net;
use ficus_backend::features::discovery::petri_net::transition::Transition;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

fn dump_marking(m: Option<&Marking>) -> Value {
    match m {
        None => Value::Null,
        Some(m) => json!(m.active_places().iter().map(|s| (s.place_id(), s.tokens_count())).collect::<Vec<_>>()),
    }
}

fn dump_net(net: &DefaultPetriNet) -> Value {
    let places: Vec<Value> = net.all_places().iter().map(|p| json!([p.id(), p.name()])).collect();
    let transitions: Vec<Value> = net
        .all_transitions()
        .iter()
        .map(|t| {
            json!({"id": t.id(), "name": t.name(), "silent": t.is_silent(), "data": t.data(),
            "in": t.incoming_arcs().iter().map(|a| (a.place_id(), a.id(), *a.tokens_count())).collect::<Vec<_>>(),
            "out": t.outgoing_arcs().iter().map(|a| (a.place_id(), a.id(), *a.tokens_count())).collect::<Vec<_>>()})
        })
        .collect();
    json!({"places": places, "transitions": transitions, "initial": dump_marking(net.initial_marking()),
           "final": dump_marking(net.final_marking())})
}

fn replay_part(log: &SimpleEventLog, net: &DefaultPetriNet, terminate: bool) -> Value {
    let states = replay_petri_net(log, net);
    let freq = |m: Option<std::collections::HashMap<u64, f64>>| m.map(|m| m.into_iter().map(|(k, v)| (k, v)).collect::<Vec<_>>());
    json!({
        "fired": states.map(|s| s.iter().map(|x| x.as_ref().map(|x| x.fired_transitions().clone())).collect::<Vec<_>>()),
        "counts": annotate_with_counts(log, net, terminate).map(|m| m.into_iter().collect::<Vec<_>>()),
        "freq": freq(annotate_with_frequencies(log, net, terminate)),
        "trace_freq": freq(annotate_with_trace_frequency(log, net, terminate)),
    })
}

pub fn alpha(a: &Value) -> Value {
    let log = simple_log(&names_log(&a["log"]));
    let kind = a["kind"].as_str().unwrap();
    let net = match kind {
        "alpha" => {
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default(&log));
            discover_petri_net_alpha(&DefaultAlphaRelationsProvider::new(&info))
        }
        "nfc" => discover_petri_net_alpha_plus_plus_nfc(&log),
        _ => {
            let loops = find_transitions_one_length_loop(&log);
            let info = EventLogInfo::create_from(EventLogInfoCreationDto::default_ignore(&log, &loops));
            let provider = AlphaPlusRelationsProviderImpl::new(&info, &log, &loops);
            discover_petri_net_alpha_plus(&log, &provider, kind == "plusplus")
        }
    };
    let replay = if a["replay"].as_bool().unwrap() {
        replay_part(&log, &net, a["terminate"].as_bool().unwrap())
    } else {
        Value::Null
    };
    json!({"net": dump_net(&net), "replay": replay,
           "pnml": serialize_to_pnml(&net, a["names"].as_bool().unwrap()).ok()})
}

pub fn heuristic(a: &Value) -> Value {
    let log = simple_log(&names_log(&a["log"]));
    let f = |k: &str| a[k].as_f64().unwrap();
    let net = discover_petri_net_heuristic(&log, f("dep"), us(&a["pos"]), f("rel"), f("and"), f("loop2"));
    json!({"net": dump_net(&net)})
}

pub fn fuzzy(a: &Value) -> Value {
    let names = names_log(&a["log"]);
    let mut log = SimpleEventLog::empty();
    let start = chrono::DateTime::parse_from_rfc3339("2020-01-01T00:00:00+00:00").unwrap().with_timezone(&chrono::Utc);
    for (t, times) in names.iter().zip(a["times"].as_array().unwrap()) {
        let mut trace = <SimpleTrace as Trace>::empty();
        for (n, s) in t.iter().zip(times.as_array().unwrap()) {
            let stamp = start + chrono::Duration::seconds(s.as_i64().unwrap());
            Trace::push(&mut trace, Rc::new(RefCell::new(SimpleEvent::new(n.clone(), stamp))));
        }
        EventLog::push(&mut log, Rc::new(RefCell::new(trace)));
    }
    let f = |k: &str| a[k].as_f64().unwrap();
    let g = discover_graph_fuzzy(
        &log,
        f("unary"),
        f("binary"),
        f("preserve"),
        f("ratio"),
        f("utility"),
        f("edge_cutoff"),
        f("node_cutoff"),
    );
    dump_graph(&g.to_default_graph())
}

/// A hand-made net: places [name], transitions [name, silent, [in places], [out places]], marking.
pub fn net(a: &Value) -> Value {
    let mut net = DefaultPetriNet::empty();
    let places: Vec<u64> = strings(&a["places"])
        .into_iter()
        .map(|n| net.add_place(Place::with_name(n)))
        .collect();
    let mut ids = vec![];
    for t in a["transitions"].as_array().unwrap() {
        let name = t[0].as_str().unwrap().to_string();
        let id = net.add_transition(Transition::empty(name.clone(), t[1].as_bool().unwrap(), Some(name)));
        ids.push(id);
        for p in t[2].as_array().unwrap() {
            net.connect_place_to_transition(&places[us(p)], &id, None);
        }
        for p in t[3].as_array().unwrap() {
            net.connect_transition_to_place(&id, &places[us(p)], None);
        }
    }
    let log = simple_log(&names_log(&a["log"]));
    match a["marking"].as_array() {
        Some(m) => net.set_initial_marking(Marking::new(
            m.iter().map(|x| SingleMarking::new(places[us(&x[0])], us(&x[1]))).collect(),
        )),
        None => {
            if a["ensure"].as_bool().unwrap() {
                ensure_initial_marking(&log, &mut net)
            }
        }
    }
    let ends: Vec<Value> = places
        .iter()
        .enumerate()
        .filter(|(i, _)| {
            a["transitions"].as_array().unwrap().iter().any(|t| {
                t[2].as_array().unwrap().iter().any(|p| us(p) == *i) || t[3].as_array().unwrap().iter().any(|p| us(p) == *i)
            })
        })
        .map(|(i, p)| {
            json!([
                i,
                net.get_incoming_transitions(p).iter().map(|t| t.id()).collect::<Vec<_>>(),
                net.get_outgoing_transitions(p).iter().map(|t| t.id()).collect::<Vec<_>>()
            ])
        })
        .collect();
    let deleted = a["delete"].as_u64().map(|i| net.delete_transition(&ids[i as usize]).map(|t| t.id()));
    json!({"places": places, "ids": ids, "ends": ends, "net": dump_net(&net), "deleted": deleted,
           "replay": if a["delete"].is_null() { replay_part(&log, &net, a["terminate"].as_bool().unwrap()) } else { Value::Null },
           "pnml": serialize_to_pnml(&net, a["names"].as_bool().unwrap()).ok()})
}
