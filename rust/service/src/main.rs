//! Line-oriented driver of the gRPC service of the Ficus backend: messages arrive and leave as hex of their protobuf encoding,
//! the service itself runs on a real tokio runtime. One JSON request per line, one JSON answer per line.
use ficus_backend::ficus_proto::grpc_backend_service_server::GrpcBackendService;
use ficus_backend::ficus_proto::*;
use ficus_backend::grpc::backend_service::FicusService;
use ficus_backend::pipelines::keys::context_keys::ContextKeys;
use futures::StreamExt;
use prost::Message;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use tonic::Request;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect() }
fn message<M: Message>(v: &Value) -> M { M::decode(&unhex(v.as_str().expect("harness: message"))).expect("harness: message does not decode") }

async fn run(service: &FicusService, v: &Value) -> Value {
    let request = message::<GrpcPipelineExecutionRequest>(&v["request"]);
    let keep = v["keep"].as_u64().unwrap_or(u64::MAX) as usize;
    let pause = v["pause_us"].as_u64().unwrap_or(0);
    let mut stream = match service.execute_pipeline(Request::new(request)).await {
        Ok(r) => r.into_inner(),
        Err(s) => return json!({"status": format!("{:?}", s.code()), "message": s.message()}),
    };
    let (mut messages, mut ended) = (vec![], false);
    while messages.len() < keep {
        if pause > 0 { std::thread::sleep(std::time::Duration::from_micros(pause)); }
        match stream.next().await {
            Some(Ok(m)) => messages.push(json!(hex(&m.encode_to_vec()))),
            Some(Err(s)) => messages.push(json!({"status": format!("{:?}", s.code()), "message": s.message()})),
            None => { ended = true; break; }
        }
    }
    drop(stream);
    json!({"messages": messages, "ended": ended})
}

fn answer(rt: &tokio::runtime::Runtime, service: &Arc<FicusService>, v: &Value) -> Value {
    match v["op"].as_str().unwrap() {
        "execute" => rt.block_on(run(service, v)),
        "together" => {
            let runs = v["runs"].as_array().expect("harness: runs");
            let answers: Vec<Mutex<Value>> = runs.iter().map(|_| Mutex::new(Value::Null)).collect();
            std::thread::scope(|scope| {
                for (r, a) in runs.iter().zip(&answers) {
                    scope.spawn(move || { let got = rt.block_on(run(service, r)); *a.lock().unwrap() = got; });
                }
            });
            Value::Array(answers.into_iter().map(|a| a.into_inner().unwrap()).collect())
        }
        "value" => match rt.block_on(service.get_context_value(Request::new(message(&v["request"])))) {
            Ok(r) => json!({"message": hex(&r.into_inner().encode_to_vec())}),
            Err(s) => json!({"status": format!("{:?}", s.code()), "message": s.message()}),
        },
        "drop" => match rt.block_on(service.drop_execution_result(Request::new(message(&v["request"])))) {
            Ok(_) => json!({"done": true}),
            Err(s) => json!({"status": format!("{:?}", s.code()), "message": s.message()}),
        },
        op => panic!("harness: unknown operation {}", op),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let what = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let at = info.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANICS.lock() { p.push(format!("{} at {}", what, at)); }
    }));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).thread_stack_size(64 << 20).build().unwrap();
    let service = Arc::new(FicusService::new(Arc::new(Box::new(ContextKeys::new()))));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).unwrap();
        PANICS.lock().unwrap().clear();
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(&rt, &service, &v)));
        let panics = std::mem::take(&mut *PANICS.lock().unwrap());
        let out = match got {
            Ok(got) => json!({"ok": {"answer": got, "panics": panics}}),
            Err(_) => json!({"panic": panics.join("; ")}),
        };
        let mut stdout = std::io::stdout().lock();
        writeln!(stdout, "{}", out).unwrap();
        stdout.flush().unwrap();
    }
    std::process::exit(0);
}
