use crate::{strings, us};
use ficus_backend::utils::colors::ColorsHolder;
use ficus_backend::utils::distance::distance::{DistanceWrapper, FicusDistance};
use ficus_backend::utils::graph::graph::Graph;
use ficus_backend::utils::interval_tree::interval::Interval;
use ficus_backend::utils::interval_tree::interval_tree::IntervalTree;
use ficus_backend::utils::sets::one_set::OneSet;
use ficus_backend::utils::sets::two_sets::TwoSets;
use ficus_backend::utils::user_data::keys::{DefaultKey, Key};
use ficus_backend::utils::user_data::user_data::{UserData, UserDataImpl};
use linfa_nn::distance::Distance;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use std::str::FromStr;

pub fn intervals(a: &Value) -> Value {
    let list: Vec<Interval<i64, i64>> = a["intervals"]
        .as_array()
        .unwrap()
        .iter()
        .map(|i| Interval::new_with_data(i[0].as_i64().unwrap(), i[1].as_i64().unwrap(), i[2].as_i64()))
        .collect();
    let mut tree = IntervalTree::new(&list, |l, r| *l..(*r + 1));
    let show = |v: Vec<Interval<i64, i64>>| v.iter().map(|i| json!([i.left, i.right, i.data])).collect::<Vec<_>>();
    let mut out = vec![];
    for q in a["queries"].as_array().unwrap() {
        let l = q[1].as_i64().unwrap();
        let r = q[2].as_i64().unwrap();
        out.push(show(match q[0].as_str().unwrap() {
            "point" => tree.search_overlaps_for_point(l),
            "overlap" => tree.search_overlaps_for_interval(l, r),
            _ => tree.search_envelopes(l, r),
        }));
    }
    json!(out)
}

fn set(v: &Value) -> BTreeSet<String> {
    strings(v).into_iter().collect()
}

pub fn sets(a: &Value) -> Value {
    let two: Vec<TwoSets<String>> = a["two"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| TwoSets::new(set(&p[0]), set(&p[1])))
        .collect();
    let one: Vec<OneSet<String>> = a["one"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let mut s = OneSet::empty();
            for x in strings(p) {
                s.insert(x);
            }
            s
        })
        .collect();
    let mut table = vec![];
    for x in &two {
        for y in &two {
            let m = x.merge(y);
            table.push(json!([
                x == y,
                x.is_full_subset(y),
                x.is_first_subset(y),
                x.is_second_subset(y),
                m.first_set(),
                m.second_set(),
                x.to_string(),
                x.clone() == *x
            ]));
        }
    }
    let mut one_table = vec![];
    for x in &one {
        for y in &one {
            one_table.push(json!([x == y, x.merge(y).set(), x.clone().set(), x.id() != x.merge(y).id()]));
        }
    }
    let distinct_two: HashSet<TwoSets<String>> = two.iter().cloned().collect();
    let distinct_one: HashSet<OneSet<String>> = one.iter().cloned().collect();
    json!({"two": table, "one": one_table, "distinct_two": distinct_two.len(), "distinct_one": distinct_one.len()})
}

pub fn graph(a: &Value) -> Value {
    let mut g: Graph<String, f64> = Graph::empty();
    let mut ids: Vec<u64> = vec![];
    let mut out = vec![];
    for op in a["ops"].as_array().unwrap() {
        let id = |v: &Value| -> u64 {
            match v.as_u64() {
                Some(i) => ids[i as usize],
                None => u64::MAX,
            }
        };
        let mut answer = Value::Null;
        match op[0].as_str().unwrap() {
            "add" => {
                let n = g.add_node(op[1].as_str().map(|s| s.to_string()));
                ids.push(n);
            }
            "connect" => g.connect_nodes(&id(&op[1]), &id(&op[2]), op[3].as_f64()),
            "disconnect" => answer = json!(g.disconnect_nodes(&id(&op[1]), &id(&op[2]))),
            "merge" => {
                let cluster: HashSet<u64> = op[1].as_array().unwrap().iter().map(|v| id(v)).collect();
                let before: HashSet<u64> = g.all_nodes().iter().map(|n| *n.id()).collect();
                g.merge_nodes_into_one(
                    &cluster,
                    |d| {
                        let mut names: Vec<String> = d.iter().map(|x| x.cloned().unwrap_or("-".to_string())).collect();
                        names.sort();
                        Some(names.join("+"))
                    },
                    |e| Some(e.iter().map(|x| x.cloned().unwrap_or(0.0)).sum()),
                );
                let fresh: Vec<u64> = g.all_nodes().iter().map(|n| *n.id()).filter(|n| !before.contains(n)).collect();
                answer = json!(fresh.len());
                ids.push(fresh[0]);
            }
            x => panic!("harness: {}", x),
        }
        let nodes: Vec<Value> = g.all_nodes().iter().map(|n| json!([n.id(), n.data()])).collect();
        let edges: Vec<Value> = g
            .all_edges()
            .iter()
            .map(|e| json!([e.from_node(), e.to_node(), e.data()]))
            .collect();
        let around: Vec<Value> = g
            .all_nodes()
            .iter()
            .map(|n| json!([n.id(), g.all_connected_nodes(n.id()), g.outgoing_nodes(n.id()), g.incoming_edges(n.id())]))
            .collect();
        let joined: Vec<(u64, u64)> = ids
            .iter()
            .flat_map(|x| ids.iter().map(move |y| (*x, *y)))
            .filter(|(x, y)| g.are_nodes_connected(x, y))
            .collect();
        out.push(json!({"answer": answer, "nodes": nodes, "edges": edges, "around": around, "joined": joined}));
    }
    let known: Vec<bool> = ids.iter().map(|i| g.node(i).is_some()).collect();
    json!({"steps": out, "ids": ids, "known": known, "plain": crate::logs::dump_graph(&g.to_default_graph())})
}

pub fn distance(a: &Value) -> Value {
    let vec = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect::<Vec<f64>>();
    let x = vec(&a["a"]);
    let y = vec(&a["b"]);
    let d = DistanceWrapper::new(FicusDistance::from_str(a["kind"].as_str().unwrap()).unwrap());
    fn view(v: &Vec<f64>) -> ndarray::ArrayView1<f64> {
        ndarray::ArrayView1::from(v.as_slice())
    }
    json!([
        format!("{:?}", d.distance(view(&x), view(&y))),
        format!("{:?}", d.rdistance(view(&x), view(&y))),
        format!("{:?}", d.distance(view(&y), view(&x)))
    ])
}

/// A sequence of operations on several user data objects and keys.
pub fn userdata(a: &Value) -> Value {
    let keys: Vec<DefaultKey<String>> = (0..us(&a["keys"])).map(|i| DefaultKey::new(format!("k{}", i))).collect();
    let nums: Vec<DefaultKey<i64>> = (0..us(&a["keys"])).map(|i| DefaultKey::new(format!("k{}", i))).collect();
    let ids: HashSet<u64> = keys.iter().map(|k| k.id()).chain(nums.iter().map(|k| k.id())).collect();
    let mut data: Vec<UserDataImpl> = vec![UserDataImpl::new()];
    let mut out = vec![];
    for op in a["ops"].as_array().unwrap() {
        let d = us(&op[1]);
        match op[0].as_str().unwrap() {
            "put" => data[d].put_concrete(&keys[us(&op[2])], op[3].as_str().unwrap().to_string()),
            "put_any" => data[d].put_any(&keys[us(&op[2])], op[3].as_str().unwrap().to_string()),
            "put_num" => data[d].put_concrete(&nums[us(&op[2])], op[3].as_i64().unwrap()),
            "append" => {
                if let Some(v) = data[d].concrete_mut(&keys[us(&op[2])]) {
                    v.push_str(op[3].as_str().unwrap());
                }
            }
            "inc" => {
                if let Some(v) = data[d].concrete_mut(&nums[us(&op[2])]) {
                    *v += 1;
                }
            }
            "remove" => data[d].remove_concrete(&keys[us(&op[2])]),
            "remove_any" => data[d].remove_any::<String>(&keys[us(&op[2])]),
            "remove_key" => data[d].remove(&keys[us(&op[2])]),
            "remove_num" => data[d].remove_concrete(&nums[us(&op[2])]),
            "clone" => {
                let c = data[d].clone();
                data.push(c);
            }
            "drop" => data[d] = UserDataImpl::new(),
            x => panic!("harness: {}", x),
        }
        let shown: Vec<Value> = data
            .iter()
            .map(|u| {
                let s: Vec<Option<String>> = keys.iter().map(|k| u.concrete(k).cloned()).collect();
                let g: Vec<Option<String>> = keys.iter().map(|k| u.get::<String>(k).cloned()).collect();
                let y: Vec<Option<String>> = keys
                    .iter()
                    .map(|k| u.any(k).map(|v| v.downcast_ref::<String>().unwrap().clone()))
                    .collect();
                let n: Vec<Option<i64>> = nums.iter().map(|k| u.concrete(k).copied()).collect();
                json!({"len": u.len(), "s": s, "g": g, "y": y, "n": n})
            })
            .collect();
        out.push(Value::Array(shown));
    }
    let mut colors = ColorsHolder::empty();
    let names = strings(&a["colors"]);
    let got: Vec<(u8, u8, u8)> = names
        .iter()
        .map(|n| {
            let c = colors.get_or_create(n);
            (c.red(), c.green(), c.blue())
        })
        .collect();
    json!({"steps": out, "ids": ids.len(), "colors": got})
}
