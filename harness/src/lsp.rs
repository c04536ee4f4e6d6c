//! In-process client for the real server main loop.
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use std::thread::JoinHandle;
use std::time::Duration;

pub struct Client {
    pub conn: Connection,
    pub thread: Option<JoinHandle<Result<(), String>>>,
    next: i32,
    pub dead: Option<String>,
}

pub struct Exchange {
    /// messages that arrived, in order
    pub msgs: Vec<Message>,
}

impl Client {
    pub fn start(caps: Value) -> Client {
        let (server, client) = Connection::memory();
        let caps: lsp_types::ClientCapabilities = serde_json::from_value(caps).expect("client capabilities");
        let thread = std::thread::spawn(move || {
            match crate::core::guard(move || ink_lsp_server::main_loop(server, caps)) {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(format!("main loop ended with an error: {e}")),
                Err(p) => Err(format!("server panicked: {p}")),
            }
        });
        Client { conn: client, thread: Some(thread), next: 1, dead: None }
    }
    pub fn send(&mut self, m: Message) -> bool {
        self.conn.sender.send(m).is_ok()
    }
    /// Sends a sentinel request and returns everything that arrived before its answer.
    /// None when the server died (see self.dead).
    pub fn barrier(&mut self) -> Option<Vec<Message>> {
        let id = RequestId::from(format!("barrier-{}", self.next));
        self.next += 1;
        if self.conn.sender.send(Message::Request(Request { id: id.clone(), method: "ivh/barrier".into(), params: json!({}) })).is_err() {
            self.reap();
            return None;
        }
        let mut out = vec![];
        loop {
            match self.conn.receiver.recv_timeout(Duration::from_secs(20)) {
                Ok(Message::Response(r)) if r.id == id => return Some(out),
                Ok(m) => out.push(m),
                Err(e) => {
                    if e.is_timeout() {
                        self.dead = Some("server stopped answering (20 s)".into());
                    } else {
                        self.reap();
                    }
                    return None;
                }
            }
        }
    }
    fn reap(&mut self) {
        let r = match self.thread.take() {
            Some(t) => match t.join() {
                Ok(Ok(())) => "server loop ended".to_string(),
                Ok(Err(e)) => e,
                Err(_) => "server thread panicked".into(),
            },
            None => "server gone".into(),
        };
        if self.dead.is_none() {
            self.dead = Some(r);
        }
    }
    /// sends a notification; returns messages emitted while handling it
    pub fn notify(&mut self, method: &str, params: Value) -> Option<Vec<Message>> {
        if !self.send(Message::Notification(Notification { method: method.into(), params })) {
            self.reap();
            return None;
        }
        self.barrier()
    }
    /// sends a request; returns all messages emitted while handling it (the responses included)
    pub fn request(&mut self, id: RequestId, method: &str, params: Value) -> Option<Vec<Message>> {
        if !self.send(Message::Request(Request { id, method: method.into(), params })) {
            self.reap();
            return None;
        }
        self.barrier()
    }
    pub fn ask(&mut self, method: &str, params: Value) -> Option<Response> {
        let id = RequestId::from(format!("q-{}", self.next));
        self.next += 1;
        let ms = self.request(id.clone(), method, params)?;
        ms.into_iter().find_map(|m| match m {
            Message::Response(r) if r.id == id => Some(r),
            _ => None,
        })
    }
    pub fn shutdown(mut self) -> Result<(), String> {
        let id = RequestId::from("shutdown".to_string());
        self.send(Message::Request(Request { id: id.clone(), method: "shutdown".into(), params: Value::Null }));
        self.send(Message::Notification(Notification { method: "exit".into(), params: Value::Null }));
        match self.thread.take() {
            Some(t) => t.join().unwrap_or_else(|_| Err("panicked".into())),
            None => Err("dead".into()),
        }
    }
}

pub fn open(uri: &str, lang: &str, version: i32, text: &str) -> Value {
    json!({"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": text}})
}
pub fn change(uri: &str, version: i32, texts: &[&str]) -> Value {
    json!({"textDocument": {"uri": uri, "version": version},
           "contentChanges": texts.iter().map(|t| json!({"text": t})).collect::<Vec<_>>()})
}
pub fn close(uri: &str) -> Value {
    json!({"textDocument": {"uri": uri}})
}
