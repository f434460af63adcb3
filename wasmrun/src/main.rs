//! C38: the contract checks with the contracts compiled to WebAssembly. A case
//! is drawn and run inside the module (contracts, host and models together);
//! its draws are handed back, so it shrinks and replays here.
use std::{
    cell::RefCell,
    io::{Read, Write},
    process::{Child, Command, Stdio},
    sync::OnceLock,
};

use engine::{Check, Fail, Prop, Report, Src, Start};
use serde_json::{json, Value};

struct Node {
    child: Child,
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
impl Node {
    fn start() -> Node {
        let dir = std::env::var("OZVERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let module = std::env::var("OZWASM").expect("harness: OZWASM names the module");
        let child = Command::new("node")
            .arg("--stack-size=8000")
            .arg(format!("{dir}/wasmrun/run.js"))
            .arg(module)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("harness: node");
        Node { child }
    }
    fn ask(&mut self, q: &Value) -> Result<Value, String> {
        let b = q.to_string().into_bytes();
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&(b.len() as u32).to_le_bytes()).expect("harness: write to node");
        i.write_all(&b).expect("harness: write to node");
        i.flush().unwrap();
        let o = self.child.stdout.as_mut().unwrap();
        let mut h = [0u8; 8];
        o.read_exact(&mut h).expect("harness: read from node");
        let code = u32::from_le_bytes(h[..4].try_into().unwrap());
        let n = u32::from_le_bytes(h[4..].try_into().unwrap()) as usize;
        let mut b = vec![0; n];
        o.read_exact(&mut b).expect("harness: read from node");
        match code {
            0 => Ok(serde_json::from_slice(&b).expect("harness: answer")),
            _ => Err(String::from_utf8_lossy(&b).into_owned()),
        }
    }
}
fn ask(q: &Value) -> Result<Value, String> {
    NODE.with(|n| n.borrow_mut().get_or_insert_with(Node::start).ask(q))
}

struct Part {
    prop: usize,
    part: usize,
    name: String,
    size: [usize; 2],
}
fn parts() -> &'static [(u64, Vec<(u64, Part)>)] {
    static ALL: OnceLock<Vec<(u64, Vec<(u64, Part)>)>> = OnceLock::new();
    ALL.get_or_init(|| {
        let l = ask(&json!({"list": true})).expect("harness: list");
        let only = std::env::var("OZWASM_ONLY").ok();
        l.as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(prop, p)| {
                let id = p["id"].as_str().unwrap();
                let z = |i: usize| p["size"][i].as_u64().unwrap() as usize;
                let q = p["parts"].as_array().unwrap().iter().enumerate().map(|(part, x)| {
                    let name = format!("{id} {}", x[0].as_str().unwrap());
                    (x[1].as_u64().unwrap(), Part { prop, part, name, size: [z(0), z(1)] })
                });
                (only.as_ref().map_or(true, |o| o == id) as u64, q.collect())
            })
            .collect()
    })
}

fn any(s: &mut Src) -> Check {
    let all = parts();
    let j = s.weighted(&all.iter().map(|x| x.0).collect::<Vec<_>>());
    let ps = &all[j].1;
    let k = s.weighted(&ps.iter().map(|x| x.0).collect::<Vec<_>>());
    let p = &ps[k].1;
    let (mode, tracing) = (s.size, s.tracing);
    s.note(|| format!("part: {}", p.name));
    s.delegate(|start| {
        let mut q = json!({"prop": p.prop, "part": p.part, "size": p.size[mode], "tracing": tracing});
        match start {
            Start::Seed(x) => q["seed"] = x.into(),
            Start::Replay(v) => q["rec"] = v.into(),
        }
        let fail = |sig: &str, msg: &str| Fail { sig: sig.into(), msg: format!("in the WebAssembly build: {}: {msg}", p.name) };
        let a = match ask(&q) {
            Ok(a) => a,
            Err(e) => {
                return Report {
                    result: Err(fail("trap", &format!("the module trapped: {e}"))),
                    rec: vec![],
                    spans: vec![],
                    tags: vec![],
                    nontrivial: false,
                    trace: vec![],
                }
            }
        };
        let list = |k: &str| a[k].as_array().unwrap().clone();
        let mut tags = vec![(p.name.clone(), 1)];
        if a["nontrivial"].as_bool() == Some(true) {
            tags.push((format!("{} non-trivial", p.name), 1));
        }
        Report {
            result: match a["fail"].as_array() {
                None => Ok(()),
                Some(f) => Err(fail(f[0].as_str().unwrap(), f[1].as_str().unwrap())),
            },
            rec: list("rec").iter().map(|x| x.as_u64().unwrap()).collect(),
            spans: list("spans").iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize)).collect(),
            tags,
            nontrivial: a["nontrivial"].as_bool().unwrap(),
            trace: list("trace").iter().map(|x| x.as_str().unwrap().into()).collect(),
        }
    })
}

fn main() {
    engine::cli(
        vec![Prop {
            id: "C38",
            name: "contracts in WebAssembly",
            parts: &[("any contract property", any, 1)],
            rule: "the case is non-trivial by the rule of the property it runs (C01-C25, C34, C35, C37)",
            quick_cases: 20_000,
            thorough_cases: 5_000_000,
            size: (0, 1),
        }],
        None,
    );
}
