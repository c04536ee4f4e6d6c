//! P01, P02, P03: executable contracts of the server main loop, driven through the real connection.
use crate::core::*;
use crate::lsp::*;
use ink_analyzer::{Analysis, TextRange, TextSize, Version};
use ink_lsp_server::translator::{from_lsp, to_lsp, PositionTranslationContext};
use lsp_server::{Message, RequestId};
use lsp_types::PositionEncodingKind;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn ctx(text: &str, enc: &PositionEncodingKind) -> PositionTranslationContext {
    PositionTranslationContext { encoding: enc.clone(), line_index: line_index::LineIndex::new(text) }
}

pub fn expected_diagnostics(text: &str, v: Version, enc: &PositionEncodingKind) -> Value {
    let c = ctx(text, enc);
    let ds: Vec<lsp_types::Diagnostic> =
        Analysis::new(text, v).diagnostics().into_iter().filter_map(|d| to_lsp::diagnostic(d, &c)).collect();
    serde_json::to_value(ds).unwrap()
}

/// a random ink!-like document; the number of leading lines and the names make it distinguishable
pub fn doc(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.below(40) {
        s.push_str(*rng.pick(&["\n", "// é\n", "//\n", "  \n", "// 𝔸x\n"]));
    }
    let n = rng.below(1000);
    let t = rng.below(10);
    s.push_str(&match t {
        0 => format!("#[ink::contract]\nmod c{n} {{\n    #[ink(storage)]\n    pub struct C{n} {{}}\n}}\n"),
        1 => format!("#[ink::contract]\nmod c{n} {{}}\n"),
        2 => format!("#[ink::trait_definition]\npub trait T{n} {{\n    #[ink(message, selector = {n})]\n    fn m(&self);\n    fn k(&self);\n}}\n"),
        3 => format!("#[ink::chain_extension]\npub trait E{n} {{\n    type ErrorCode = ();\n    #[ink(extension = {n})]\n    fn m();\n}}\n"),
        4 => format!("#[ink::contract(env = crate::E, keep_attr = \"a,b\")]\nmod c{n} {{\n    #[ink(event)]\n    struct Ev {{ #[ink(topic)] x: u8 }}\n    #[ink(storage)]\n    struct S;\n    impl S {{ #[ink(constructor)] pub fn new() -> Self {{ S }} #[ink(message)] fn get(&self) {{}} }}\n}}\n"),
        5 => format!("fn plain{n}() {{}}\n"),
        6 => String::new(),
        7 => format!("#[ink::storage_item(derive = \"x\")]\nstruct P{n} {{}}\n#[ink(storage, bogus)]\nfn q() {{}}\n"),
        8 => {
            // many items, many diagnostics
            let m = *rng.pick(&[3usize, 40, 130]);
            (0..m).map(|i| format!("#[ink(bogus{i}, topic)]\nfn f{i}() {{}}\n")).collect::<String>()
        }
        _ => rng.pick(CORPUS).1.to_string(),
    });
    s
}

pub struct Model {
    pub docs: BTreeMap<String, (String, i32)>,
}

fn norm(uri: &str) -> String {
    lsp_types::Url::parse(uri).unwrap().to_string()
}

fn published(ms: &[Message]) -> Vec<Value> {
    ms.iter()
        .filter_map(|m| match m {
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => Some(n.params.clone()),
            _ => None,
        })
        .collect()
}

fn encodings() -> Vec<(Value, PositionEncodingKind)> {
    vec![
        (json!({}), PositionEncodingKind::UTF16),
        (json!({"general": {"positionEncodings": ["utf-16"]}}), PositionEncodingKind::UTF16),
        (json!({"general": {"positionEncodings": ["utf-8", "utf-16"]}}), PositionEncodingKind::UTF8),
        (json!({"general": {"positionEncodings": ["utf-32"]}}), PositionEncodingKind::UTF32),
    ]
}

/// checks that every query about `uri` is answered from exactly `want` (None: not tracked)
fn probe(run: &mut Run, c: &mut Client, rng: &mut Rng, uri: &str, want: Option<&(String, i32)>, enc: &PositionEncodingKind, hist: &str, pid: &str) -> bool {
    let (text, _) = match want {
        Some(x) => (x.0.clone(), x.1),
        None => (String::new(), 0),
    };
    let cx = ctx(&text, enc);
    let an = Analysis::new(&text, Version::V4);
    // all inlay hints and all actions of the whole document
    let end = to_lsp::position(TextSize::from(text.len() as u32), &cx).unwrap();
    let full = json!({"start": {"line": 0, "character": 0}, "end": end});
    let Some(r) = c.ask("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": full})) else {
        run.fail(&format!("{pid}-died"), format!("{:?}", c.dead), hist.into());
        return false;
    };
    let want_v = match want {
        None => Value::Null,
        Some(_) => serde_json::to_value(an.inlay_hints(Some(TextRange::new(0.into(), TextSize::from(text.len() as u32)))).into_iter().filter_map(|h| to_lsp::inlay_hint(h, &cx)).collect::<Vec<_>>()).unwrap(),
    };
    if !run.eq(&format!("{pid}-inlay-mirrors-document"), r.result.clone(), Some(want_v), || hist.into()) {
        return false;
    }
    // hover / completion at a few offsets
    for _ in 0..3 {
        let mut o = rng.below(text.len() + 1);
        // biased to attributes
        if rng.chance(2, 3) {
            let ix: Vec<usize> = text.match_indices("ink").map(|(i, _)| i + 1).collect();
            if !ix.is_empty() {
                o = *rng.pick(&ix);
            }
        }
        while !text.is_char_boundary(o) {
            o -= 1;
        }
        let pos = to_lsp::position(TextSize::from(o as u32), &cx).unwrap();
        let off = from_lsp::offset(pos, &cx).unwrap();
        let tp = json!({"textDocument": {"uri": uri}, "position": pos});
        let h = c.ask("textDocument/hover", tp.clone()).and_then(|r| r.result);
        let wh = match want {
            None => Value::Null,
            Some(_) => serde_json::to_value(an.hover(TextRange::empty(off)).and_then(|h| to_lsp::hover(h, &cx))).unwrap(),
        };
        if !run.eq(&format!("{pid}-hover-mirrors-document"), h, Some(wh), || format!("{hist}\nhover at {o}")) {
            return false;
        }
        let cm = c.ask("textDocument/completion", tp).and_then(|r| r.result);
        let wc = match want {
            None => Value::Null,
            Some(_) => {
                let items: Vec<_> = an.completions(off).into_iter().filter_map(|x| to_lsp::completion(x, false, &cx)).collect();
                if items.is_empty() { Value::Null } else { json!({"isIncomplete": true, "items": items}) }
            }
        };
        if !run.eq(&format!("{pid}-completion-mirrors-document"), cm, Some(wc), || format!("{hist}\ncompletion at {o}")) {
            return false;
        }
    }
    true
}

/// one random history; `probing` also queries documents after every step (P01), otherwise only
/// the published diagnostics are judged (P03)
fn history(run: &mut Run, pid: &str, probing: bool) {
    let mut rng = run.rng.fork();
    let encs = encodings();
    let (caps, enc) = rng.pick(&encs).clone();
    let mut c = Client::start(caps);
    let uris = ["file:///ivh-nonexistent/a/lib.rs", "file:///ivh-nonexistent/b.rs", "untitled:Untitled-1", "file:///ivh%20x/%C3%A9.rs", "file:///ivh-nonexistent/b/../c.rs"];
    let mut model = Model { docs: BTreeMap::new() };
    let mut hist = String::new();
    let steps = rng.range(3, 9);
    let mut changes = 0;
    for _ in 0..steps {
        let nu = if rng.chance(1, 2) { 2 } else { 5 };
        let uri = *rng.pick(&uris[..nu]);
        let key = norm(uri);
        let ver = rng.range(0, 60) as i32 - 5;
        let op = rng.below(10);
        let (method, params, touched) = match op {
            0..=3 => {
                let lang = if rng.chance(1, 5) { *rng.pick(&["toml", "Rust", "", "rs", "rust "]) } else { "rust" };
                let text = doc(&mut rng);
                let touched = lang == "rust";
                if touched {
                    model.docs.insert(key.clone(), (text.clone(), ver));
                }
                ("textDocument/didOpen", open(uri, lang, ver, &text), touched)
            }
            4..=7 => {
                let n = *rng.pick(&[1, 1, 1, 2, 3, 0]);
                // sometimes the text is re-sent unchanged or with only its blanks changed (same length)
                let prev = model.docs.get(&key).map(|d| d.0.clone());
                let texts: Vec<String> = (0..n).map(|_| match (&prev, rng.below(6)) {
                    (Some(p), 0) => p.clone(),
                    (Some(p), 1) => p.replacen("\n", " ", 1),
                    (Some(p), 2) => format!("{p}// x"),
                    _ => doc(&mut rng),
                }).collect();
                let refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
                let tracked = model.docs.contains_key(&key);
                let touched = tracked && n > 0;
                if touched {
                    model.docs.insert(key.clone(), (texts.last().unwrap().clone(), ver));
                    changes += 1;
                }
                ("textDocument/didChange", change(uri, ver, &refs), touched)
            }
            8 => {
                let touched = model.docs.remove(&key).is_some();
                ("textDocument/didClose", close(uri), touched)
            }
            _ => ("textDocument/didSave", json!({"textDocument": {"uri": uri}}), false),
        };
        hist.push_str(&format!("{method} {params}\n"));
        let Some(ms) = c.notify(method, params) else {
            run.fail(&format!("{pid}-died"), format!("{:?}", c.dead), hist.clone());
            return;
        };
        let pubs = published(&ms);
        let other: Vec<_> = ms.iter().filter(|m| !matches!(m, Message::Notification(n) if n.method == "textDocument/publishDiagnostics")).collect();
        if !run.check(&format!("{pid}-no-unsolicited"), other.is_empty(), || format!("unsolicited messages {other:?}"), || hist.clone()) {
            return;
        }
        // published diagnostics are exactly those of the current content, with the current version
        let want: Vec<Value> = if touched {
            vec![match model.docs.get(&key) {
                Some((t, v)) => json!({"uri": key, "diagnostics": expected_diagnostics(t, Version::V4, &enc), "version": v}),
                None => json!({"uri": key, "diagnostics": []}),
            }]
        } else {
            vec![]
        };
        if !run.eq(&format!("{pid}-published"), pubs, want, || hist.clone()) {
            return;
        }
        if probing {
            for u in [uri, uris[rng.below(5)]] {
                let k = norm(u);
                if !probe(run, &mut c, &mut rng, u, model.docs.get(&k), &enc, &hist, pid) {
                    return;
                }
            }
        }
    }
    let brief: String = hist.lines().map(|l| l.chars().take(90).collect::<String>()).collect::<Vec<_>>().join(" | ");
    run.case(&format!("{brief} #{}", hash(&hist)), changes > 0 || model.docs.len() > 1);
    let _ = c.shutdown();
}

pub fn p01(run: &mut Run) {
    run.rule = "random histories (3-9 steps) of didOpen/didChange (0-3 content changes)/didClose/didSave over 5 URIs and all encodings against the real main loop; after every step the published diagnostics, hover, completion and inlay answers must be those of a reference document map; nontrivial: the history changes an open document or holds several".into();
    for _ in 0..run.scale(60) {
        if run.failures.len() > 3 {
            break;
        }
        history(run, "P01", true);
    }
}

pub fn p03(run: &mut Run) {
    run.rule = "random histories against the real main loop; after every message exactly one publishDiagnostics for the touched document with its current version and the diagnostics of its current text (empty, without version, once closed) and none otherwise; scratch projects with Cargo.toml for the version used; nontrivial: history changes an open document".into();
    for _ in 0..run.scale(120) {
        if run.failures.len() > 3 {
            break;
        }
        history(run, "P03", false);
    }
}

pub const METHODS: &[&str] = &[
    "textDocument/completion", "textDocument/hover", "textDocument/codeAction", "codeAction/resolve",
    "textDocument/inlayHint", "textDocument/signatureHelp", "workspace/executeCommand",
];

fn rand_params(rng: &mut Rng, uri: &str) -> Value {
    let pos = |rng: &mut Rng| {
        let big = [0u64, 1, 3, 17, 1000, 4294967295];
        json!({"line": if rng.chance(4, 5) { rng.below(30) as u64 } else { *rng.pick(&big) }, "character": if rng.chance(4, 5) { rng.below(60) as u64 } else { *rng.pick(&big) }})
    };
    let td = json!({"uri": uri});
    match rng.below(13) {
        0 => json!({"textDocument": td, "position": pos(rng)}),
        1 => json!({"textDocument": td, "position": pos(rng), "context": {"triggerKind": 1, "isRetrigger": false}}),
        2 => json!({"textDocument": td, "range": {"start": pos(rng), "end": pos(rng)}, "context": {"diagnostics": []}}),
        3 => json!({"textDocument": td, "range": {"start": {"line":0,"character":0}, "end": {"line": rng.below(20), "character": 0}}, "context": {"diagnostics": []}}),
        4 => json!({"title": "x", "data": {"command": *rng.pick(&["migrateProject", "extractEvent", "createProject", "zzz"]), "uri": uri, "range": {"start": rng.below(400), "end": rng.below(400)}}}),
        5 => json!({"title": "x", "data": {"command": "extractEvent", "uri": "not a uri", "range": {"start": 9u64, "end": 3u64}}}),
        6 => json!({"command": *rng.pick(&["migrateProject", "extractEvent", "createProject", "nope", ""]), "arguments": [{"uri": uri, "name": *rng.pick(&["a", "1x", "", "foo-bar"]), "root": *rng.pick(&["file:///ivh-nonexistent/p", "bad root", "untitled:x"]), "range": {"start": *rng.pick(&[0u64, 5, 4294967296, 18446744073709551615]), "end": *rng.pick(&[0u64, 4, 4294967299, 18446744073709551614])}}]}),
        7 => json!({"command": "extractEvent", "arguments": []}),
        8 => json!({"textDocument": 5}),
        9 => json!([]),
        10 => Value::Null,
        11 => json!({"title": "x"}),
        _ => json!({"command": 3}),
    }
}

pub fn p02(run: &mut Run) {
    run.rule = "random request streams (documented, unknown and malformed methods/params, out-of-range positions, int and string ids) against the real main loop with open documents; exactly one response per request, same id, in order, result xor error, the error code prescribed for its class; server requests only after an accepted command; the loop survives; nontrivial: request decodes (answered by a handler)".into();
    let n = run.scale(55);
    for round in 0..n {
        if run.failures.len() > 3 {
            break;
        }
        let mut rng = run.rng.fork();
        let caps = rng.pick(&[
            json!({}),
            json!({"general": {"positionEncodings": ["utf-8"]}}),
            json!({"workspace": {"applyEdit": true, "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create"]}}}),
            json!({"textDocument": {"completion": {"completionItem": {"snippetSupport": true}}, "signatureHelp": {"signatureInformation": {"activeParameterSupport": true, "parameterInformation": {"labelOffsetSupport": true}}}}}),
        ]).clone();
        let can_create = caps.pointer("/workspace/applyEdit").is_some();
        let mut c = Client::start(caps.clone());
        let uris = ["file:///ivh-nonexistent/a/lib.rs", "untitled:U", "file:///ivh-nonexistent/none.rs"];
        let mut hist = format!("caps {caps}\n");
        let texts: Vec<String> = (0..2).map(|_| doc(&mut rng)).collect();
        let mut dead = false;
        for i in 0..2 {
            hist.push_str(&format!("didOpen {} {:?}\n", uris[i], texts[i]));
            if c.notify("textDocument/didOpen", open(uris[i], "rust", 1, &texts[i])).is_none() {
                dead = true;
            }
        }
        for k in 0..20 {
            if dead {
                break;
            }
            let uri = *rng.pick(&uris);
            let method: String = match rng.below(10) {
                0 => rng.pick(&["textDocument/unknown", "textDocument/definition", "$/x", "", "initialize2", "textDocument/didOpen", "textDocument/Completion"]).to_string(),
                _ => rng.pick(METHODS).to_string(),
            };
            let params = if rng.chance(1, 2) {
                // params that fit
                match method.as_str() {
                    "textDocument/codeAction" => json!({"textDocument": {"uri": uri}, "range": {"start": {"line":0,"character":0}, "end": {"line": rng.below(9), "character": rng.below(9)}}, "context": {"diagnostics": []}}),
                    "textDocument/inlayHint" => json!({"textDocument": {"uri": uri}, "range": {"start": {"line":0,"character":0}, "end": {"line": rng.below(9), "character": rng.below(9)}}}),
                    "workspace/executeCommand" => { let mut p = rand_params(&mut rng, uri); for _ in 0..50 { if p.get("command").map_or(false, |c| c.is_string()) { break } p = rand_params(&mut rng, uri); } p }
                    "codeAction/resolve" => { let mut p = rand_params(&mut rng, uri); for _ in 0..50 { if p.get("title").is_some() { break } p = rand_params(&mut rng, uri); } p }
                    _ => json!({"textDocument": {"uri": uri}, "position": {"line": rng.below(40), "character": rng.below(40)}}),
                }
            } else {
                rand_params(&mut rng, uri)
            };
            let id = if rng.chance(1, 2) { RequestId::from((round * 100 + k) as i32 - 50) } else { RequestId::from(format!("r{k}-\"é")) };
            let line = format!("{id} {method} {params}");
            hist.push_str(&line);
            hist.push('\n');
            let Some(ms) = c.request(id.clone(), &method, params.clone()) else {
                run.fail("P02-died", format!("no response: {:?}", c.dead), hist.clone());
                dead = true;
                break;
            };
            let resp: Vec<_> = ms.iter().filter_map(|m| if let Message::Response(r) = m { Some(r.clone()) } else { None }).collect();
            let reqs: Vec<_> = ms.iter().filter_map(|m| if let Message::Request(r) = m { Some(r.clone()) } else { None }).collect();
            let nots = ms.iter().filter(|m| matches!(m, Message::Notification(_))).count();
            let h = || hist.clone();
            run.eq("P02-one-response", resp.len(), 1, h);
            run.eq("P02-no-notification", nots, 0, h);
            if resp.len() != 1 {
                break;
            }
            let r = &resp[0];
            run.eq("P02-id", r.id.clone(), id.clone(), h);
            run.check("P02-result-xor-error", r.result.is_some() != r.error.is_some(), || format!("{r:?}"), h);
            let decodes = decodes(&method, &params);
            let want_codes: Vec<i32> = match decodes {
                None => vec![-32601],
                Some(false) => vec![-32602],
                Some(true) => vec![0, -32603],
            };
            let code = r.error.as_ref().map_or(0, |e| e.code);
            run.check("P02-error-code", want_codes.contains(&code), || format!("code {code}, expected one of {want_codes:?} for {line}"), h);
            // expected success/failure where the protocol text fixes it
            if decodes == Some(true) && uri == uris[2] && !["codeAction/resolve", "workspace/executeCommand"].contains(&method.as_str()) {
                if params.pointer("/textDocument/uri").and_then(Value::as_str) == Some(uri) {
                    run.check("P02-unknown-document-null", r.result == Some(Value::Null), || format!("{r:?}"), h);
                }
            }
            // server-to-client requests only to apply an edit for an accepted, creating command
            if !reqs.is_empty() {
                let ok = method == "workspace/executeCommand" && reqs.len() == 1 && reqs[0].method == "workspace/applyEdit"
                    && r.error.is_none() && r.result == Some(Value::Null)
                    && (can_create || params["command"] == "migrateProject");
                run.check("P02-apply-edit-only-for-commands", ok, || format!("{reqs:?}"), h);
                // response first, then the server request
                let order: Vec<bool> = ms.iter().filter_map(|m| match m { Message::Response(_) => Some(true), Message::Request(_) => Some(false), _ => None }).collect();
                run.eq("P02-response-before-request", order, vec![true, false], h);
            }
            run.case(&line, decodes == Some(true));
        }
        if !dead {
            // pipelined: several requests in flight, answered once each in order
            let ids: Vec<RequestId> = (0..6).map(|i| RequestId::from(5000 + i)).collect();
            for id in &ids {
                let m = *rng.pick(METHODS);
                let p = rand_params(&mut rng, uris[0]);
                hist.push_str(&format!("{id} {m} {p}\n"));
                c.send(Message::Request(lsp_server::Request { id: id.clone(), method: m.into(), params: p }));
            }
            match c.barrier() {
                None => run.fail("P02-died", format!("no response: {:?}", c.dead), hist.clone()),
                Some(ms) => {
                    let got: Vec<RequestId> = ms.iter().filter_map(|m| if let Message::Response(r) = m { Some(r.id.clone()) } else { None }).collect();
                    run.eq("P02-pipelined-order", got, ids, || hist.clone());
                }
            }
            if c.dead.is_none() {
                let r = c.shutdown();
                run.eq("P02-clean-shutdown", r, Ok(()), || hist.clone());
            }
        }
    }
    // malformed notifications must not end the session
    for (m, p) in [("textDocument/didOpen", json!({"x": 1})), ("textDocument/didChange", Value::Null), ("textDocument/didClose", json!([3])), ("textDocument/didFoo", json!(3)), ("$/cancelRequest", json!({"id": 3}))] {
        let mut c = Client::start(json!({}));
        let r = c.notify(m, p.clone());
        run.case(&format!("{m} {p}"), true);
        run.check("P02-malformed-notification-survived", r.is_some(), || format!("{:?}", c.dead), || format!("{m} {p}"));
    }
    // responses of the client never make the server answer or die
    for id in [RequestId::from("initialize-project::file:///ivh-nonexistent/p/".to_string()), RequestId::from("initialize-project::zzz".to_string()), RequestId::from(3), RequestId::from("x".to_string())] {
        let mut c = Client::start(json!({}));
        c.send(Message::Response(lsp_server::Response { id: id.clone(), result: Some(json!({"applied": true})), error: None }));
        let r = c.barrier();
        run.case(&format!("client response {id}"), true);
        match r {
            None => run.fail("P02-died", format!("{:?}", c.dead), format!("client response {id}")),
            Some(ms) => {
                let resp = ms.iter().filter(|m| matches!(m, Message::Response(_))).count();
                run.eq("P02-no-response-to-response", resp, 0, || format!("client response {id}"));
                let shows: Vec<_> = ms.iter().filter_map(|m| if let Message::Request(r) = m { Some((r.method.clone(), r.params.clone())) } else { None }).collect();
                let want = if id == RequestId::from("initialize-project::file:///ivh-nonexistent/p/".to_string()) {
                    vec![("window/showDocument".to_string(), json!({"uri": "file:///ivh-nonexistent/p/lib.rs", "takeFocus": true}))]
                } else {
                    vec![]
                };
                run.eq("P02-show-document", shows, want, || format!("client response {id}"));
            }
        }
    }
}

/// does the request decode? None: unknown method
fn decodes(method: &str, params: &Value) -> Option<bool> {
    fn d<T: serde::de::DeserializeOwned>(p: &Value) -> Option<bool> {
        Some(serde_json::from_value::<T>(p.clone()).is_ok())
    }
    match method {
        "textDocument/completion" => d::<lsp_types::CompletionParams>(params),
        "textDocument/hover" => d::<lsp_types::HoverParams>(params),
        "textDocument/codeAction" => d::<lsp_types::CodeActionParams>(params),
        "codeAction/resolve" => d::<lsp_types::CodeAction>(params),
        "textDocument/inlayHint" => d::<lsp_types::InlayHintParams>(params),
        "textDocument/signatureHelp" => d::<lsp_types::SignatureHelpParams>(params),
        "workspace/executeCommand" => d::<lsp_types::ExecuteCommandParams>(params),
        _ => None,
    }
}
