//! C36: the checks of C27-C33 inside a WebAssembly build of the library. A
//! case runs natively first, which fixes its draws and which of its calls
//! panic; the same draws are then replayed in the module.
use std::{
    cell::RefCell,
    io::{Read, Write},
    process::{Child, Command, Stdio},
};

use engine::{ensure, Check, Fail, Prop, Src};
use ozcrypto::PROPS;

struct Node {
    child: Child,
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
impl Node {
    fn start() -> Node {
        let dir = std::env::var("OZVERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let module = std::env::var("OZWASM").expect("harness: OZWASM names the module");
        let child = Command::new("node")
            .arg(format!("{dir}/wasm/run.js"))
            .arg(module)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("harness: node");
        Node { child }
    }
    /// 0 held, 1 failed, 2 trapped, 3 drew differently.
    fn ask(&mut self, prop: usize, part: usize, size: usize, rec: &[u64], out: &[bool]) -> (u32, String) {
        let mut m = Vec::with_capacity(20 + rec.len() * 8 + out.len());
        for x in [prop, part, size, rec.len(), out.len()] {
            m.extend((x as u32).to_le_bytes());
        }
        for x in rec {
            m.extend(x.to_le_bytes());
        }
        m.extend(out.iter().map(|&b| b as u8));
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&m).expect("harness: write to node");
        i.flush().unwrap();
        let o = self.child.stdout.as_mut().unwrap();
        let mut h = [0u8; 8];
        o.read_exact(&mut h).expect("harness: read from node");
        let code = u32::from_le_bytes(h[..4].try_into().unwrap());
        let n = u32::from_le_bytes(h[4..].try_into().unwrap()) as usize;
        let mut b = vec![0; n];
        o.read_exact(&mut b).expect("harness: read from node");
        (code, String::from_utf8_lossy(&b).into_owned())
    }
}

fn any(s: &mut Src) -> Check {
    let j = s.weighted(&[6, 8, 5, 3, 2, 2, 2]);
    let p = &PROPS[j];
    let ws: Vec<u64> = p.parts.iter().map(|x| x.2).collect();
    let k = s.weighted(&ws);
    let from = s.rec.len();
    engine::take_outcomes();
    (p.parts[k].1)(s)?;
    let out = engine::take_outcomes();
    let (code, msg) = NODE.with(|n| n.borrow_mut().get_or_insert_with(Node::start).ask(j, k, s.size, &s.rec[from..], &out));
    let part = p.parts[k].0;
    s.note(|| format!("part: {part}"));
    s.tag(part);
    ensure!(code != 3, "diverged", "harness: {part}: the module drew differently");
    if code == 1 {
        let sig = msg.split('\n').next().unwrap_or("").to_string();
        return Err(Fail { msg: format!("in the WebAssembly build: {part}: {msg}"), sig });
    }
    ensure!(code == 0, "trap", "the WebAssembly build traps where the native one does not: {part} {msg}");
    Ok(())
}

fn main() {
    engine::cli(
        vec![Prop {
            id: "C36",
            name: "WebAssembly build",
            parts: &[("native and WebAssembly", any, 1)],
            rule: "the case is non-trivial by the rule of the property it replays (C27-C33) and ran in both builds",
            quick_cases: 60_000,
            thorough_cases: 5_000_000,
            size: (1, 1),
        }],
        None,
    );
}
