use crate::{names_log, strings, u64_log, us};
use ficus_backend::event_log::core::event::event::Event;
use ficus_backend::event_log::core::event::event_hasher::{default_class_extractor, RegexEventHasher};
use ficus_backend::event_log::core::event_log::EventLog;
use ficus_backend::event_log::core::trace::trace::Trace;
use ficus_backend::event_log::simple::simple_event_log::{SimpleEvent, SimpleEventLog};
use ficus_backend::features::analysis::patterns::activity_instances::*;
use ficus_backend::features::analysis::patterns::contexts::*;
use ficus_backend::features::analysis::patterns::entry_points::{self, PatternsKind};
use ficus_backend::features::analysis::patterns::repeat_sets::*;
use ficus_backend::features::analysis::patterns::repeats::*;
use ficus_backend::features::analysis::patterns::tandem_arrays::*;
use ficus_backend::utils::suffix_tree::suffix_tree_patterns::SuffixTree;
use ficus_backend::utils::suffix_tree::suffix_tree_slice::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::str::FromStr;

pub fn simple_log(names: &Vec<Vec<String>>) -> SimpleEventLog {
    let raw: Vec<Vec<&str>> = names.iter().map(|t| t.iter().map(|s| s.as_str()).collect()).collect();
    SimpleEventLog::new(&raw)
}

fn dump(v: &Vec<Vec<SubArrayInTraceInfo>>) -> Value {
    Value::Array(
        v.iter()
            .map(|t| Value::Array(t.iter().map(|a| json!([a.start_index, a.length])).collect()))
            .collect(),
    )
}

pub fn repeats(a: &Value) -> Value {
    let log = u64_log(&a["log"]);
    let strategy = PatternsDiscoveryStrategy::from_str(a["strategy"].as_str().unwrap()).unwrap();
    dump(&match a["kind"].as_str().unwrap() {
        "max" => find_maximal_repeats(&log, &strategy),
        "super" => find_super_maximal_repeats(&log, &strategy),
        _ => find_near_super_maximal_repeats(&log, &strategy),
    })
}

pub fn find(a: &Value) -> Value {
    let log = u64_log(&a["log"]);
    let patterns = u64_log(&a["patterns"]);
    let run = |tree: &SuffixTree<u64>| -> Value {
        Value::Array(
            patterns
                .iter()
                .map(|p| match tree.find_patterns(p.as_slice()) {
                    None => Value::Null,
                    Some(v) => json!(v),
                })
                .collect(),
        )
    };

    if a["single"].as_bool().unwrap() {
        let slice = SingleWordSuffixTreeSlice::new(log[0].as_slice());
        let mut tree = SuffixTree::new(&slice);
        tree.build_tree();
        run(&tree)
    } else {
        let slice = MultipleWordsSuffixTreeSlice::new(log.iter().map(|t| t.as_slice()).collect());
        let mut tree = SuffixTree::new(&slice);
        tree.build_tree();
        run(&tree)
    }
}

pub fn tandem(a: &Value) -> Value {
    let log = u64_log(&a["log"]);
    let len = us(&a["len"]);
    let r = match a["kind"].as_str().unwrap() {
        "max" => (find_maximal_tandem_arrays_with_length(&log, len), find_maximal_tandem_arrays(&log, len)),
        _ => (find_primitive_tandem_arrays_with_length(&log, len), find_primitive_tandem_arrays(&log, len)),
    };
    let full: Vec<Vec<(usize, usize, usize)>> = r.0.borrow().iter().map(|t| t.iter().map(|x| x.dump()).collect()).collect();
    json!({"full": full, "plain": dump(&r.1)})
}

fn parse_patterns(v: &Value) -> Vec<Vec<SubArrayInTraceInfo>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| {
            t.as_array()
                .unwrap()
                .iter()
                .map(|p| SubArrayInTraceInfo::new(us(&p[0]), us(&p[1])))
                .collect()
        })
        .collect()
}

pub fn repeat_sets(a: &Value) -> Value {
    let r = build_repeat_sets(&u64_log(&a["log"]), &parse_patterns(&a["patterns"]));
    json!(r.iter().map(|x| x.dump()).collect::<Vec<_>>())
}

struct Nodes {
    index: HashMap<*const RefCell<ActivityNode>, usize>,
    all: Vec<Rc<RefCell<ActivityNode>>>,
}

impl Nodes {
    fn new() -> Self {
        Nodes {
            index: HashMap::new(),
            all: vec![],
        }
    }

    fn id(&mut self, n: &Rc<RefCell<ActivityNode>>) -> usize {
        let p = Rc::as_ptr(n) as *const RefCell<ActivityNode>;
        if let Some(i) = self.index.get(&p) {
            return *i;
        }
        let i = self.all.len();
        self.index.insert(p, i);
        self.all.push(Rc::clone(n));
        let children: Vec<_> = n.borrow().children.iter().map(Rc::clone).collect();
        for c in &children {
            self.id(c);
        }
        i
    }

    fn dump(&mut self) -> Value {
        let mut i = 0;
        let mut out = vec![];
        while i < self.all.len() {
            let n = Rc::clone(&self.all[i]);
            let children: Vec<_> = n.borrow().children.iter().map(Rc::clone).collect();
            let ids: Vec<usize> = children.iter().map(|c| self.id(c)).collect();
            let b = n.borrow();
            let mut classes: Vec<u64> = b.event_classes.iter().copied().collect();
            classes.sort();
            out.push(json!({"classes": classes, "level": b.level, "name": b.name, "children": ids,
                            "len": b.len(), "repeat": b.repeat_set.map(|r| r.dump())}));
            i += 1;
        }
        Value::Array(out)
    }
}

pub fn tree(a: &Value) -> Value {
    let log = u64_log(&a["log"]);
    let repeats: Vec<SubArrayWithTraceIndex> = a["repeats"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| SubArrayWithTraceIndex::new(SubArrayInTraceInfo::new(us(&r[0]), us(&r[1])), us(&r[2])))
        .collect();
    let tops = build_repeat_set_tree_from_repeats(&log, &repeats, us(&a["level"]), |r| format!("{:?}", r.dump()));
    let mut nodes = Nodes::new();
    let ids: Vec<usize> = tops.iter().map(|t| nodes.id(t)).collect();
    json!({"tops": ids, "nodes": nodes.dump()})
}

fn dump_instances(nodes: &mut Nodes, instances: &Vec<Vec<ActivityInTraceInfo>>) -> Value {
    json!(instances
        .iter()
        .map(|t| t
            .iter()
            .map(|i| (nodes.id(&i.node), i.start_pos, i.length))
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}

fn event_tree(e: &Rc<RefCell<SimpleEvent>>) -> Value {
    let name = e.borrow().name().to_owned();
    let immediate = create_vector_of_immediate_underlying_events::<SimpleEventLog>(e);
    let own = immediate.len() == 1 && Rc::ptr_eq(&immediate[0], e);
    let all: Vec<String> = create_vector_of_underlying_events::<SimpleEventLog>(e)
        .iter()
        .map(|x| x.borrow().name().to_owned())
        .collect();
    let imm: Vec<String> = immediate.iter().map(|x| x.borrow().name().to_owned()).collect();
    json!({"name": name, "plain": own, "all": all, "imm": imm})
}

fn dump_logs(m: &HashMap<String, Rc<RefCell<SimpleEventLog>>>) -> Value {
    let mut o = serde_json::Map::new();
    for (k, v) in m {
        o.insert(k.clone(), json!(v.borrow().to_raw_vector()));
    }
    Value::Object(o)
}

/// The whole chain the backend offers: patterns, repeat sets, activity tree, instances, the log with
/// the instances as events, per-activity logs, the rest of the log; optionally applied twice.
pub fn activities(a: &Value) -> Value {
    let names = names_log(&a["log"]);
    let log = Rc::new(RefCell::new(simple_log(&names)));
    let len = us(&a["max_len"]);
    let kind = match a["kind"].as_str().unwrap() {
        "max" => PatternsKind::MaximalRepeats,
        "super" => PatternsKind::SuperMaximalRepeats,
        "near" => PatternsKind::NearSuperMaximalRepeats,
        "ptandem" => PatternsKind::PrimitiveTandemArrays(len),
        _ => PatternsKind::MaximalTandemArrays(len),
    };
    let strategy = PatternsDiscoveryStrategy::from_str(a["strategy"].as_str().unwrap()).unwrap();
    let regex = a["regex"].as_str().map(|s| s.to_string());
    let hasher = regex.as_ref().map(|r| RegexEventHasher::new(r).ok().unwrap());
    let extractor = |e: &SimpleEvent| match hasher.as_ref() {
        Some(h) => h.hash_name(e.name()),
        None => default_class_extractor(e),
    };
    let narrow = ActivityNarrowingKind::from_str(a["narrow"].as_str().unwrap()).unwrap();
    let filter = ActivityInTraceFilterKind::from_str(a["filter"].as_str().unwrap()).unwrap();
    let min_events = us(&a["min_events"]);
    let level = us(&a["level"]);

    let patterns_context = PatternsDiscoveryContext::new(Rc::clone(&log), kind, strategy, extractor);
    let processed = patterns_context.get_processed_log().clone();
    let patterns = entry_points::find_patterns(&patterns_context);
    let found_repeats = entry_points::find_repeats(&patterns_context);

    let log_for_names = Rc::clone(&log);
    let name_regex = regex.clone();
    let context = ActivitiesDiscoveryContext::new(patterns_context, level, min_events, narrow, filter, move |r: &SubArrayWithTraceIndex| {
        create_activity_name(&*log_for_names.borrow(), r, name_regex.as_ref())
    });

    let mut nodes = Nodes::new();
    let mut tops = match a["activities"].as_array() {
        // a hand-made activity list instead of the discovered tree
        Some(list) => {
            let made: Vec<Rc<RefCell<ActivityNode>>> = list
                .iter()
                .map(|n| {
                    Rc::new(RefCell::new(ActivityNode {
                        repeat_set: None,
                        event_classes: strings(&n["classes"])
                            .iter()
                            .map(|s| match hasher.as_ref() {
                                Some(h) => h.hash_name(s),
                                None => ficus_backend::event_log::core::event::event_hasher::default_class_extractor_name(s),
                            })
                            .collect(),
                        children: vec![],
                        level,
                        name: n["name"].as_str().unwrap().to_string(),
                    }))
                })
                .collect();
            for (i, n) in list.iter().enumerate() {
                for c in n["children"].as_array().unwrap() {
                    made[i].borrow_mut().children.push(Rc::clone(&made[us(c)]));
                }
            }
            list.iter()
                .enumerate()
                .filter(|(_, n)| n["top"].as_bool().unwrap())
                .map(|(i, _)| Rc::clone(&made[i]))
                .collect()
        }
        None => entry_points::build_repeat_set_tree(&context),
    };
    let top_ids: Vec<usize> = tops.iter().map(|t| nodes.id(t)).collect();
    let given_order: Vec<usize> = top_ids.clone();

    let instances = extract_activities_instances(&processed, &mut tops, &narrow, min_events, &filter);
    let with_unattached = add_unattached_activities(
        &processed,
        &mut tops,
        &instances,
        us(&a["min_unattached"]),
        &narrow,
        us(&a["min_events2"]),
        &filter,
    );
    let used = if a["use_unattached"].as_bool().unwrap() { &with_unattached } else { &instances };

    let undef = match a["undef"].as_str().unwrap() {
        "drop" => UndefActivityHandlingStrategy::DontInsert,
        "single" => UndefActivityHandlingStrategy::InsertAsSingleEvent(Box::new(|| {
            Rc::new(RefCell::new(SimpleEvent::new_with_min_date(UNDEF_ACTIVITY_NAME.to_string())))
        })),
        _ => UndefActivityHandlingStrategy::InsertAllEvents,
    };
    let factory = |i: &ActivityInTraceInfo| Rc::new(RefCell::new(SimpleEvent::new_with_min_date(i.node.borrow().name.clone())));
    let new_log = create_new_log_from_activities_instances(&*log.borrow(), used, &undef, &factory);
    let rows: Vec<Vec<Value>> = new_log
        .traces()
        .iter()
        .map(|t| t.borrow().events().iter().map(event_tree).collect())
        .collect();
    let from_log = create_logs_for_activities(&ActivitiesLogSource::Log(&new_log));
    let borrowed = log.borrow();
    let from_instances = create_logs_for_activities(&ActivitiesLogSource::TracesActivities(&*borrowed, used, us(&a["ask_level"])));
    let unattached = create_log_from_unattached_events(&*borrowed, used);
    let substituted: Vec<Vec<String>> = new_log
        .traces()
        .iter()
        .map(|t| {
            let mut fresh = <SimpleEventLog as EventLog>::TTrace::empty();
            for e in t.borrow().events() {
                substitute_underlying_events::<SimpleEventLog>(e, &mut fresh);
            }
            fresh.to_names_vec()
        })
        .collect();

    // second level: neighbouring events of the abstracted log folded into one event each
    let pairs: Vec<Vec<ActivityInTraceInfo>> = new_log
        .traces()
        .iter()
        .map(|t| {
            let n = t.borrow().events().len();
            let node = Rc::new(RefCell::new(ActivityNode {
                repeat_set: None,
                event_classes: Default::default(),
                children: vec![],
                level: level + 1,
                name: "PAIR".to_string(),
            }));
            (0..n / 2)
                .map(|i| ActivityInTraceInfo {
                    node: Rc::clone(&node),
                    start_pos: 2 * i,
                    length: 2,
                })
                .collect()
        })
        .collect();
    let second = create_new_log_from_activities_instances(&new_log, &pairs, &UndefActivityHandlingStrategy::InsertAllEvents, &factory);
    let second_rows: Vec<Vec<Value>> = second
        .traces()
        .iter()
        .map(|t| t.borrow().events().iter().map(event_tree).collect())
        .collect();

    json!({
        "processed": processed,
        "patterns": dump(&patterns),
        "repeats": found_repeats.iter().map(|x| x.dump()).collect::<Vec<_>>(),
        "tops": given_order,
        "instances": dump_instances(&mut nodes, &instances),
        "with_unattached": dump_instances(&mut nodes, &with_unattached),
        "nodes": nodes.dump(),
        "rows": rows,
        "count": count_underlying_events(&new_log),
        "from_log": dump_logs(&from_log),
        "from_instances": dump_logs(&from_instances),
        "unattached": unattached.to_raw_vector(),
        "substituted": substituted,
        "second": second_rows,
        "second_count": count_underlying_events(&second),
        "original": borrowed.to_raw_vector(),
    })
}
