//! a whole server in this process, spoken to over JSON-RPC
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader, DuplexStream, ReadHalf, WriteHalf};
use tokio::sync::Mutex;
use tower_lsp::{LspService, Server as TowerServer};

const DEADLINE: Duration = Duration::from_secs(40);
async fn recv(r: &mut BufReader<ReadHalf<DuplexStream>>) -> Option<Value> {
    let mut len = 0;
    loop {
        let mut s = String::new();
        if r.read_line(&mut s).await.ok()? == 0 { return None; }
        let s = s.trim();
        if s.is_empty() { break; }
        if let Some(n) = s.strip_prefix("Content-Length: ") { len = n.parse().ok()?; }
    }
    let mut b = vec![0; len];
    r.read_exact(&mut b).await.ok()?;
    serde_json::from_slice(&b).ok()
}
pub struct Server {
    rt: tokio::runtime::Handle,
    w: WriteHalf<DuplexStream>,
    published: Arc<Mutex<Vec<Value>>>,
    replies: Arc<Mutex<HashMap<i64, Value>>>,
    counts: Arc<Mutex<HashMap<i64, usize>>>,
    tasks: Vec<tokio::task::JoinHandle<()>>,
    id: i64,
}
impl Drop for Server { fn drop(&mut self) { for t in &self.tasks { t.abort(); } } }
impl Server {
    pub fn start(rt: &tokio::runtime::Handle, options: Value, client: Option<&str>) -> Result<Server, String> {
        let _g = rt.enter();
        let (service, socket) = LspService::build(jinja_lsp::Backend::_new).finish();
        let (client_io, server_io) = tokio::io::duplex(1 << 20);
        let (sr, sw) = tokio::io::split(server_io);
        let t1 = rt.spawn(async move { TowerServer::new(sr, sw, socket).serve(service).await });
        let (cr, w) = tokio::io::split(client_io);
        let mut cr = BufReader::new(cr);
        let published: Arc<Mutex<Vec<Value>>> = Default::default();
        let replies: Arc<Mutex<HashMap<i64, Value>>> = Default::default();
        let counts: Arc<Mutex<HashMap<i64, usize>>> = Default::default();
        let (o2, r2, c2) = (published.clone(), replies.clone(), counts.clone());
        let t2 = rt.spawn(async move {
            while let Some(m) = recv(&mut cr).await {
                if m["method"] == "textDocument/publishDiagnostics" { o2.lock().await.push(m["params"].clone()); }
                else if let Some(id) = m["id"].as_i64().filter(|_| m["method"].is_null()) { *c2.lock().await.entry(id).or_insert(0) += 1; r2.lock().await.insert(id, m); }
            }
        });
        let mut s = Server { rt: rt.clone(), w, published, replies, counts, tasks: vec![t1, t2], id: 0 };
        let mut p = json!({"capabilities": {}, "initializationOptions": options});
        if let Some(c) = client { p["clientInfo"] = json!({"name": c}); }
        let can = s.request("initialize", p)?["capabilities"].clone();
        // a client asks for what is announced only
        for k in ["completionProvider", "definitionProvider", "hoverProvider", "codeActionProvider", "documentSymbolProvider"] {
            if can[k].is_null() || can[k] == false { return Err(format!("{k} is not announced")); }
        }
        let save = &can["textDocumentSync"]["save"];
        if save.is_null() || save == false { return Err("saves are not announced".into()); }
        if can["completionProvider"]["resolveProvider"] == true { return Err("details of completions are announced, nothing answers".into()); }
        if can["textDocumentSync"]["change"] != 2 { return Err("changes by ranges are not announced".into()); }
        s.notify("initialized", json!({}))?;
        Ok(s)
    }
    fn send(&mut self, v: Value) -> Result<(), String> {
        let s = v.to_string();
        let rt = self.rt.clone();
        let w = &mut self.w;
        tokio::task::block_in_place(|| rt.block_on(async move { w.write_all(format!("Content-Length: {}\r\n\r\n{s}", s.len()).as_bytes()).await })).map_err(|e| e.to_string())
    }
    pub fn notify(&mut self, method: &str, params: Value) -> Result<(), String> { self.send(json!({"jsonrpc": "2.0", "method": method, "params": params})) }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, String> {
        self.id += 1;
        let id = self.id;
        self.send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        let t = Instant::now();
        while t.elapsed() < DEADLINE {
            let (rt, replies) = (self.rt.clone(), self.replies.clone());
            let v = tokio::task::block_in_place(|| rt.block_on(async move { replies.lock().await.remove(&id) }));
            if let Some(v) = v {
                if !v["error"].is_null() { return Err(format!("{method} was answered with {}", v["error"])); }
                return Ok(v["result"].clone());
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        Err(format!("no answer to {method} within {DEADLINE:?}"))
    }
    /// sends a request without waiting for the answer
    pub fn post(&mut self, method: &str, params: Value) -> Result<i64, String> {
        self.id += 1;
        self.send(json!({"jsonrpc": "2.0", "id": self.id, "method": method, "params": params}))?;
        Ok(self.id)
    }
    /// how many answers each request got so far
    pub fn answers(&self) -> HashMap<i64, usize> {
        let (rt, p) = (self.rt.clone(), self.counts.clone());
        tokio::task::block_in_place(|| rt.block_on(async move { p.lock().await.clone() }))
    }
    /// waits as long as answers keep coming; the requests that stay without one
    pub fn unanswered(&self, ids: &[i64]) -> Vec<i64> {
        let (mut t, mut n) = (Instant::now(), 0);
        loop {
            let a = self.answers();
            let open: Vec<i64> = ids.iter().copied().filter(|i| !a.contains_key(i)).collect();
            if open.is_empty() { return open; }
            if a.len() > n { n = a.len(); t = Instant::now(); }
            if t.elapsed() > DEADLINE { return open; }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    /// all publications for a document so far
    pub fn publications(&self, uri: &str) -> Vec<Value> {
        let (rt, p) = (self.rt.clone(), self.published.clone());
        tokio::task::block_in_place(|| rt.block_on(async move { p.lock().await.iter().filter(|m| m["uri"] == json!(uri)).cloned().collect() }))
    }
    pub fn all_publications(&self) -> Vec<Value> {
        let (rt, p) = (self.rt.clone(), self.published.clone());
        tokio::task::block_in_place(|| rt.block_on(async move { p.lock().await.clone() }))
    }
    /// the publications for a document, at least n of them
    pub fn wait(&self, uri: &str, n: usize) -> Result<Vec<Value>, String> {
        let t = Instant::now();
        while t.elapsed() < DEADLINE {
            let v = self.publications(uri);
            if v.len() >= n { return Ok(v); }
            std::thread::sleep(Duration::from_millis(1));
        }
        Err(format!("nothing (or too little) was published for {uri}"))
    }
}
