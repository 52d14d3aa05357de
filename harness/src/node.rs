//! the Node bindings, loaded by the installed node
use crate::ctx::Fail;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
pub struct NodeProc { child: Child, i: ChildStdin, o: BufReader<ChildStdout>, pub alive: bool }
const DRIVER: &str = r#"
const m = { exports: {} };
process.dlopen(m, process.argv[1]);
let l = null;
require('readline').createInterface({ input: process.stdin }).on('line', s => {
  const q = JSON.parse(s);
  let r;
  try { if (q.m === 'new') { l = new m.exports.NodejsLspFiles(); r = { r: null }; } else { const v = l[q.m](...q.a); r = { r: v === undefined ? null : v }; } }
  catch (e) { r = { e: String(e) }; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
"#;
impl NodeProc {
    pub fn start(lib: &str) -> Result<Self, String> {
        let mut child = Command::new("node").arg("-e").arg(DRIVER).arg(lib).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let i = child.stdin.take().unwrap();
        let o = BufReader::new(child.stdout.take().unwrap());
        Ok(NodeProc { child, i, o, alive: true })
    }
    pub fn call(&mut self, m: &str, a: Value, input: &Value) -> Result<Value, Fail> {
        let _ = writeln!(self.i, "{}", json!({"m": m, "a": a}));
        let mut s = String::new();
        let n = self.o.read_line(&mut s).unwrap_or(0);
        let inp = json!({"input": input, "call": [m, a]});
        if n == 0 { self.alive = false; let _ = self.child.wait(); return Err(Fail { what: format!("the process died in {m}"), input: inp }); }
        let v: Value = serde_json::from_str(&s).map_err(|e| Fail { what: e.to_string(), input: inp.clone() })?;
        if let Some(e) = v.get("e") { return Err(Fail { what: format!("{m} threw {e}"), input: inp }); }
        Ok(v["r"].clone())
    }
}
impl Drop for NodeProc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
