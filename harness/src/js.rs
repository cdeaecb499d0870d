//! A node process that runs functions of a wasm-bindgen package; one per worker thread.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Node {
    child: Child,
    stdin: Option<ChildStdin>,
    stdout: BufReader<ChildStdout>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Js {
    Ok(Value),
    /// thrown value, rendered; whether it was a string
    Err(String, bool),
    Trap(String),
}
impl Node {
    pub fn new(pkg: &str) -> Node {
        let driver = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) + "/harness/js/driver.js";
        let mut child = Command::new("node")
            .arg(driver)
            .arg(pkg)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node");
        let stdin = child.stdin.take();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Node { child, stdin, stdout }
    }
    fn send(&mut self, q: &Value) -> Option<Value> {
        // the reader on the other side also breaks lines at U+2028
        let mut s = String::new();
        for c in q.to_string().chars() {
            if c.is_ascii() {
                s.push(c);
            } else {
                for u in c.encode_utf16(&mut [0; 2]) {
                    s += &format!("\\u{u:04x}");
                }
            }
        }
        s.push('\n');
        self.stdin.as_mut().unwrap().write_all(s.as_bytes()).ok()?;
        self.stdin.as_mut().unwrap().flush().ok()?;
        let mut l = String::new();
        self.stdout.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
    pub fn call(&mut self, f: &str, args: Value, keep: bool) -> Js {
        let r = match self.send(&json!({"fn": f, "args": args, "keep": keep})) {
            Some(r) => r,
            None => return Js::Trap("the node process ended".into()),
        };
        if let Some(v) = r.get("ok") {
            Js::Ok(v.clone())
        } else if let Some(e) = r.get("err") {
            Js::Err(e.as_str().unwrap_or("").into(), r["string"] == true)
        } else if let Some(e) = r.get("trap") {
            Js::Trap(e.as_str().unwrap_or("").into())
        } else {
            panic!("js driver: {r}")
        }
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODES: RefCell<HashMap<String, Node>> = RefCell::new(HashMap::new());
}
/// Calls a function in this thread's instance of the package named by the environment variable.
pub fn call(env: &str, f: &str, args: Value) -> Js {
    let pkg = std::env::var(env).unwrap_or_else(|_| panic!("{env} is not set"));
    NODES.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.entry(pkg.clone()).or_insert_with(|| Node::new(&pkg));
        let r = node.call(f, args, false);
        if !node.alive() {
            n.remove(&pkg);
        }
        r
    })
}
