//! P04-P06: executable contracts of position translation, capability handling and answer translation.
use crate::core::*;
use crate::lsp::*;
use crate::server::doc;
use ink_analyzer::{ActionKind, Analysis, CompletionKind, Severity, TextRange, TextSize, Version};
use ink_lsp_server::translator::{from_lsp, to_lsp, PositionTranslationContext};
use lsp_server::{Message, RequestId};
use lsp_types::PositionEncodingKind;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    U8,
    U16,
    U32,
}
impl Enc {
    pub fn units(self, c: char) -> usize {
        match self {
            Enc::U8 => c.len_utf8(),
            Enc::U16 => c.len_utf16(),
            Enc::U32 => 1,
        }
    }
    pub fn kind(self) -> PositionEncodingKind {
        match self {
            Enc::U8 => PositionEncodingKind::UTF8,
            Enc::U16 => PositionEncodingKind::UTF16,
            Enc::U32 => PositionEncodingKind::UTF32,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Enc::U8 => "utf-8",
            Enc::U16 => "utf-16",
            Enc::U32 => "utf-32",
        }
    }
}

/// the LSP position of a byte offset, straight from the protocol text (None: past the end or inside a character)
pub fn pos_of(text: &str, enc: Enc, off: usize) -> Option<(u32, u32)> {
    if off > text.len() || !text.is_char_boundary(off) {
        return None;
    }
    let (mut line, mut col) = (0u32, 0usize);
    for c in text[..off].chars() {
        if c == '\n' {
            line += 1;
            col = 0;
        } else {
            col += enc.units(c);
        }
    }
    Some((line, col as u32))
}

/// the byte offset of an LSP position; columns past the end of the line mean the end of the line
pub fn off_of(text: &str, enc: Enc, line: u32, ch: u32) -> Option<usize> {
    let mut start = 0usize;
    for _ in 0..line {
        start += text[start..].find('\n')? + 1;
    }
    let body = match text[start..].find('\n') {
        Some(i) => &text[start..start + i],
        None => &text[start..],
    };
    let mut units = 0u64;
    for (i, c) in body.char_indices() {
        if units == ch as u64 {
            return Some(start + i);
        }
        if units > ch as u64 {
            return None;
        }
        units += enc.units(c) as u64;
    }
    if units > ch as u64 {
        return None;
    }
    Some(start + body.len())
}

pub fn jpos(text: &str, enc: Enc, off: usize) -> Option<Value> {
    pos_of(text, enc, off).map(|(l, c)| json!({"line": l, "character": c}))
}
pub fn jrange(text: &str, enc: Enc, r: TextRange) -> Option<Value> {
    Some(json!({"start": jpos(text, enc, r.start().into())?, "end": jpos(text, enc, r.end().into())?}))
}

fn rand_text(rng: &mut Rng) -> String {
    let alphabet = ["a", "b", " ", "\n", "\n", "é", "ß", "𝔸", "😀", "中", "\t", "\r\n", "#[ink(", "\u{301}", "\u{feff}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}"];
    let n = *rng.pick(&[0usize, 1, 2, 3, 5, 8, 14, 30]);
    (0..n).map(|_| *rng.pick(&alphabet)).collect()
}

pub fn p04(run: &mut Run) {
    run.rule = "random texts over a 1-4 byte character alphabet with LF/CRLF, for the three encodings: every byte offset 0..len+3 and every (line, column) in a box around the text plus extreme values, against a character-by-character oracle; ranges over random pairs; nontrivial: text has a multi-byte character or several lines".into();
    for _ in 0..run.scale(1500) {
        if run.failures.len() > 4 {
            break;
        }
        let mut rng = run.rng.fork();
        let text = rand_text(&mut rng);
        let enc = *rng.pick(&[Enc::U8, Enc::U16, Enc::U32]);
        // an encoding unknown to the protocol version in use counts as UTF-8
        let kind = enc.kind();
        let cx = PositionTranslationContext { encoding: kind, line_index: line_index::LineIndex::new(&text) };
        let inp = |x: String| format!("text {text:?} encoding {} {x}", enc.name());
        run.case(&inp(String::new()), text.len() != text.chars().count() || text.contains('\n'));
        let len = text.len();
        for o in 0..len + 4 {
            let got = match guard(|| to_lsp::position(TextSize::from(o as u32), &cx)) {
                Ok(g) => g,
                Err(e) => {
                    run.fail("P04-position-panics", e, inp(format!("offset {o}")));
                    continue;
                }
            };
            let want = pos_of(&text, enc, o);
            run.eq("P04-offset-to-position", got.map(|p| (p.line, p.character)), want, || inp(format!("offset {o}")));
            if let Some(p) = got {
                let back = guard(|| from_lsp::offset(p, &cx));
                run.eq("P04-round-trip", back, Ok(Some(TextSize::from(o as u32))), || inp(format!("offset {o}")));
            }
        }
        let lines = text.matches('\n').count() as u32 + 1;
        let maxcol = text.len() as u32 + 2;
        let mut ps: Vec<(u32, u32)> = vec![];
        for l in 0..lines + 2 {
            for c in 0..maxcol.min(40) {
                ps.push((l, c));
            }
            ps.push((l, u32::MAX));
            ps.push((l, i32::MAX as u32));
            ps.push((l, 70000));
        }
        ps.push((u32::MAX, 0));
        ps.push((u32::MAX, u32::MAX));
        for &(l, c) in &ps {
            let p = lsp_types::Position::new(l, c);
            match guard(|| from_lsp::offset(p, &cx)) {
                Err(e) => run.fail("P04-offset-panics", e, inp(format!("position {l}:{c}"))),
                Ok(got) => {
                    let want = off_of(&text, enc, l, c);
                    let ok = got.map(usize::from) == want
                        // past the end of a CRLF line: before or after the CR
                        || (want.is_some() && want.map(|w| w - 1) == got.map(usize::from) && text[..want.unwrap()].ends_with('\r') && pos_of(&text, enc, want.unwrap()).unwrap().1 <= c);
                    run.check("P04-position-to-offset", ok, || format!("got {got:?} want {want:?}"), || inp(format!("position {l}:{c}")));
                }
            }
        }
        for _ in 0..12 {
            let (a, b) = (*rng.pick(&ps), *rng.pick(&ps));
            let r = lsp_types::Range::new(lsp_types::Position::new(a.0, a.1), lsp_types::Position::new(b.0, b.1));
            match guard(|| (from_lsp::text_range(r, &cx), from_lsp::offset(r.start, &cx), from_lsp::offset(r.end, &cx))) {
                Err(e) => run.fail("P04-range-panics", e, inp(format!("range {a:?}-{b:?}"))),
                Ok((got, s, e)) => {
                    let want = s.zip(e).filter(|(s, e)| s <= e).map(|(s, e)| TextRange::new(s, e));
                    run.eq("P04-range-from-positions", got, want, || inp(format!("range {a:?}-{b:?}")));
                }
            }
            let (x, y) = (rng.below(len + 2), rng.below(len + 2));
            let tr = TextRange::new(TextSize::from(x.min(y) as u32), TextSize::from(x.max(y) as u32));
            match guard(|| to_lsp::range(tr, &cx)) {
                Err(e) => run.fail("P04-range-panics", e, inp(format!("{tr:?}"))),
                Ok(got) => {
                    let want = jrange(&text, enc, tr);
                    run.eq("P04-range-to-positions", got.map(|r| serde_json::to_value(r).unwrap()), want, || inp(format!("{tr:?}")));
                }
            }
            if text.is_char_boundary(x.min(len)) {
                let x = x.min(len);
                let want: usize = text[..x].chars().map(|c| enc.units(c)).sum();
                match guard(|| to_lsp::offset(TextSize::from(x as u32), &enc.kind(), &text)) {
                    Err(e) => run.fail("P04-label-offset-panics", e, inp(format!("{x}"))),
                    Ok(got) => {
                        run.eq("P04-label-offset", got as usize, want, || inp(format!("offset {x}")));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ documents with wide characters

/// inserts comments with wide characters before random attributes and items
pub fn widen(rng: &mut Rng, text: &str) -> String {
    let mut out = String::new();
    let mut prev = '\n';
    for c in text.chars() {
        if (c == '#' || (prev == ' ' && c.is_alphabetic())) && rng.chance(1, 6) {
            out.push_str(*rng.pick(&["/*é*/ ", "/*𝔸😀*/ ", "/* 中 */ ", "/*ß𝔸*/"]));
        }
        out.push(c);
        prev = c;
    }
    out
}

/// documents that make every feature answer something, incomplete attributes included
pub fn rich_doc(rng: &mut Rng) -> String {
    let base = match rng.below(9) {
        0 => "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct S {}\n    impl S {\n        #[ink(constructor, )]\n        pub fn new() -> Self { S {} }\n        #[ink(message, selector = , payable)]\n        pub fn m(&self) {}\n    }\n}\n".to_string(),
        1 => "#[ink]\nfn f() {}\n#[ink::]\nmod m {}\n#[ink::contract(env = crate::E, keep_attr = \"a\")]\nmod d { #[ink(event, anonymous)] struct E { #[ink()] x: u8 } }\n".to_string(),
        2 => "#[ink::chain_extension(extension = 1)]\npub trait E {\n    type ErrorCode = ();\n    #[ink(function = 1, handle_status = true)]\n    fn m();\n    #[ink(extension = 1)]\n    fn n();\n}\n#[ink::storage_item()]\nstruct Q { a: u8 }\n".to_string(),
        3 => "#[ink::trait_definition(namespace = \"x\")]\npub trait T {\n    #[ink(message, selector = 0xA, default)]\n    fn m(&self);\n    #[ink(message, selector = \"a\")]\n    fn k();\n}\n#[ink::event(signature_topic = \"aa\")]\nstruct Ev { #[ink(topic)] a: u8 }\n#[ink_e2e::test(environment = X, )]\nasync fn t() {}\n#[ink::test]\nfn u() {}\n".to_string(),
        4 => "#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub struct Flipped {\n        #[ink(topic)]\n        from: u8,\n        to: u8,\n    }\n    #[ink(event)]\n    #[derive(Debug)]\n    struct Other(u8);\n    #[ink(storage)]\n    struct C;\n    #[ink(impl, namespace = \"n\")]\n    impl C {\n        #[ink(constructor)]\n        pub fn new() -> Self { C }\n        #[ink(message)]\n        pub fn g(&self) {}\n    }\n}\n".to_string(),
        5 => doc(rng),
        _ => rng.pick(CORPUS).1.to_string(),
    };
    let mut t = if rng.chance(2, 3) { widen(rng, &base) } else { base };
    if rng.chance(1, 4) {
        t = t.replace('\n', "\r\n");
    }
    t
}

pub fn interesting_offsets(rng: &mut Rng, text: &str, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for pat in ["#[ink", "(", ", ", "= ", "::", "struct", "fn ", "mod ", "ink("] {
        for (i, m) in text.match_indices(pat) {
            v.push(i + m.len());
            v.push(i + 1);
        }
    }
    let mut out = vec![];
    for _ in 0..n {
        let mut o = if v.is_empty() || rng.chance(1, 4) { rng.below(text.len() + 1) } else { *rng.pick(&v) };
        while !text.is_char_boundary(o) {
            o -= 1;
        }
        out.push(o);
    }
    out
}

// ------------------------------------------------------------------ independent translation of results

fn obj(fields: Vec<(&str, Option<Value>)>) -> Value {
    Value::Object(fields.into_iter().filter_map(|(k, v)| v.map(|v| (k.to_string(), v))).collect())
}

pub fn want_diagnostic(text: &str, enc: Enc, d: &ink_analyzer::Diagnostic) -> Option<Value> {
    Some(json!({"range": jrange(text, enc, d.range)?, "message": d.message,
        "severity": match d.severity { Severity::Error => 1, Severity::Warning => 2 }}))
}

pub fn want_completion(text: &str, enc: Enc, c: &ink_analyzer::Completion, snippets: bool) -> Option<Value> {
    let kind = match c.kind {
        CompletionKind::Attr | CompletionKind::Field => 5,
        CompletionKind::Enum => 13,
        CompletionKind::Fn => 3,
        CompletionKind::Mod => 9,
        CompletionKind::Struct => 22,
        CompletionKind::Trait => 7,
        _ => return None,
    };
    let sn = if snippets { c.edit.snippet.clone() } else { None };
    Some(obj(vec![
        ("label", Some(json!(c.label))),
        ("kind", Some(json!(kind))),
        ("detail", c.detail.clone().map(|d| json!(d))),
        ("insertTextFormat", snippets.then(|| json!(if sn.is_some() { 2 } else { 1 }))),
        ("textEdit", Some(json!({"range": jrange(text, enc, c.range)?, "newText": sn.unwrap_or_else(|| c.edit.text.clone())}))),
    ]))
}

pub fn want_action(text: &str, enc: Enc, a: &ink_analyzer::Action, uri: &str, resolve: bool) -> Option<Value> {
    let lazy = match a.kind {
        ActionKind::Migrate => Some("migrateProject"),
        ActionKind::Extract => Some("extractEvent"),
        _ => None,
    };
    let kind = match a.kind {
        ActionKind::QuickFix => "quickfix",
        ActionKind::Refactor | ActionKind::Migrate => "refactor.rewrite",
        ActionKind::Extract => "refactor.extract",
        _ => "",
    };
    let range = json!({"start": u32::from(a.range.start()), "end": u32::from(a.range.end())});
    let mut f = vec![("title", Some(json!(a.label))), ("kind", Some(json!(kind)))];
    match lazy {
        Some(cmd) => {
            if resolve {
                f.push(("data", Some(json!({"command": cmd, "uri": uri, "range": range}))));
            } else {
                f.push(("command", Some(json!({"title": a.label, "command": cmd, "arguments": [{"uri": uri, "range": range}]}))));
            }
        }
        None => {
            if a.edits.is_empty() {
                return None;
            }
            let mut edits = vec![];
            let mut sn = serde_json::Map::new();
            for e in &a.edits {
                edits.push(json!({"range": jrange(text, enc, e.range)?, "newText": e.text}));
                if let Some(s) = &e.snippet {
                    sn.insert(e.text.clone(), json!(s));
                }
            }
            f.push(("edit", Some(json!({"changes": {uri: edits}}))));
            if !sn.is_empty() {
                f.push(("data", Some(json!({"snippets": sn}))));
            }
        }
    }
    Some(obj(f))
}

pub fn want_hint(text: &str, enc: Enc, h: &ink_analyzer::InlayHint) -> Option<Value> {
    Some(obj(vec![
        ("position", Some(jpos(text, enc, h.position.into())?)),
        ("label", Some(json!(format!(": {}", h.label)))),
        ("kind", Some(json!(1))),
        ("tooltip", h.detail.clone().map(|d| json!(d))),
        ("paddingLeft", Some(json!(true))),
    ]))
}

pub fn want_signatures(enc: Enc, sigs: &[ink_analyzer::SignatureHelp], active: bool, offsets: bool, prev: Option<(&str, u32)>) -> Option<Value> {
    if sigs.is_empty() {
        return None;
    }
    let md = |d: &Option<String>| d.as_ref().map(|d| json!({"kind": "markdown", "value": d}));
    let units = |s: &str| -> usize { s.chars().map(|c| enc.units(c)).sum() };
    // the signature picked by the user (index > 0) stays active as long as one with that label exists
    let act = prev.filter(|p| p.1 > 0).and_then(|p| sigs.iter().position(|s| s.label == p.0)).unwrap_or(0);
    let infos: Vec<Value> = sigs
        .iter()
        .map(|s| {
            let params: Vec<Value> = s
                .parameters
                .iter()
                .map(|p| {
                    let (a, b) = (usize::from(p.range.start()), usize::from(p.range.end()));
                    let label = if offsets { json!([units(&s.label[..a]), units(&s.label[..b])]) } else { json!(&s.label[a..b]) };
                    obj(vec![("label", Some(label)), ("documentation", md(&p.detail))])
                })
                .collect();
            obj(vec![
                ("label", Some(json!(s.label))),
                ("documentation", md(&s.detail)),
                ("parameters", (!params.is_empty()).then(|| json!(params))),
                ("activeParameter", if active { s.active_parameter.map(|i| json!(i)) } else { None }),
            ])
        })
        .collect();
    Some(obj(vec![
        ("signatures", Some(json!(infos))),
        ("activeSignature", Some(json!(act))),
        ("activeParameter", sigs[act].active_parameter.map(|i| json!(i))),
    ]))
}

pub struct Caps {
    pub json: Value,
    pub enc: Enc,
    pub snippets: bool,
    pub resolve: bool,
    pub active: bool,
    pub offsets: bool,
    pub create: bool,
    pub kinds: Option<Vec<String>>,
}

/// random client capabilities with what they mean
pub fn rand_caps(rng: &mut Rng) -> Caps {
    let mut j = json!({});
    let mut enc = Enc::U16;
    match rng.below(4) {
        0 => {}
        1 => j["general"] = json!({}),
        _ => {
            let n = rng.below(4);
            let l: Vec<&str> = (0..n).map(|_| *rng.pick(&["utf-16", "utf-8", "utf-32", "utf-7", "UTF-8", "utf8"])).collect();
            if let Some(e) = l.iter().find(|e| **e == "utf-8" || **e == "utf-32") {
                enc = if *e == "utf-8" { Enc::U8 } else { Enc::U32 };
            }
            j["general"] = json!({"positionEncodings": l});
        }
    }
    let tri = |rng: &mut Rng| -> Option<bool> { *rng.pick(&[None, Some(true), Some(true), Some(false)]) };
    let (mut snippets, mut resolve, mut active, mut offsets) = (false, false, false, false);
    let mut kinds = None;
    if rng.chance(7, 8) {
        let mut td = json!({});
        match rng.below(4) {
            0 => {}
            1 => td["completion"] = json!({"completionItem": {"documentationFormat": ["markdown"]}, "contextSupport": true}),
            _ => {
                let s = tri(rng);
                snippets = s == Some(true);
                td["completion"] = json!({"completionItem": obj(vec![("snippetSupport", s.map(|b| json!(b))), ("deprecatedSupport", Some(json!(true)))])});
            }
        }
        if rng.chance(4, 5) {
            let mut ca = json!({"dataSupport": true});
            match rng.below(4) {
                0 => {}
                1 => ca["resolveSupport"] = json!({"properties": []}),
                _ => {
                    let n = rng.below(3);
                    let ps: Vec<&str> = (0..n).map(|_| *rng.pick(&["edit", "edit", "command", "Edit", "data", "edits", "edi", "", "dit"])).collect();
                    resolve = ps.contains(&"edit");
                    ca["resolveSupport"] = json!({"properties": ps});
                }
            }
            if rng.chance(3, 4) {
                let n = rng.below(6);
                let ks: Vec<&str> = (0..n).map(|_| *rng.pick(&["", "quickfix", "refactor", "refactor.rewrite", "refactor.extract", "source", "refactor.inline", "Quickfix"])).collect();
                kinds = Some(ks.iter().map(|s| s.to_string()).collect());
                ca["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": ks}});
            }
            td["codeAction"] = ca;
        }
        if rng.chance(4, 5) {
            let (a, o) = (tri(rng), tri(rng));
            let mut si = json!({});
            if let Some(b) = a {
                si["activeParameterSupport"] = json!(b);
                active = b;
            }
            if rng.chance(4, 5) {
                si["parameterInformation"] = obj(vec![("labelOffsetSupport", o.map(|b| json!(b)))]);
                offsets = o == Some(true);
            }
            if rng.chance(4, 5) {
                td["signatureHelp"] = json!({"signatureInformation": si});
            } else {
                td["signatureHelp"] = json!({"contextSupport": true});
                active = false;
                offsets = false;
            }
        }
        j["textDocument"] = td;
    }
    let mut create = false;
    if rng.chance(4, 5) {
        let (a, d) = (tri(rng), tri(rng));
        let mut ws = obj(vec![("applyEdit", a.map(|b| json!(b)))]);
        if rng.chance(4, 5) {
            let mut we = obj(vec![("documentChanges", d.map(|b| json!(b)))]);
            let mut has = false;
            if rng.chance(4, 5) {
                let n = rng.below(4);
                let rs: Vec<&str> = (0..n).map(|_| *rng.pick(&["create", "create", "rename", "delete"])).collect();
                has = rs.contains(&"create");
                we["resourceOperations"] = json!(rs);
            }
            ws["workspaceEdit"] = we;
            create = a == Some(true) && d == Some(true) && has;
        }
        j["workspace"] = ws;
    }
    Caps { json: j, enc, snippets, resolve, active, offsets, create, kinds }
}

fn initialize_result(caps: &Value) -> Result<Value, String> {
    let (server, client) = lsp_server::Connection::memory();
    let t = std::thread::spawn(move || guard(move || ink_lsp_server::initialize(server).map(|x| x.1.capabilities).map_err(|e| e.to_string())));
    client.sender.send(Message::Request(lsp_server::Request { id: RequestId::from(1), method: "initialize".into(), params: json!({"processId": null, "rootUri": null, "capabilities": caps}) })).map_err(|e| e.to_string())?;
    let m = client.receiver.recv_timeout(std::time::Duration::from_secs(20)).map_err(|e| e.to_string())?;
    let r = match m {
        Message::Response(r) if r.id == RequestId::from(1) => r.result.ok_or("initialize failed")?,
        m => return Err(format!("unexpected {m:?}")),
    };
    client.sender.send(Message::Notification(lsp_server::Notification { method: "initialized".into(), params: json!({}) })).map_err(|e| e.to_string())?;
    match t.join() {
        Ok(Ok(Ok(c))) => {
            let want: lsp_types::ClientCapabilities = serde_json::from_value(caps.clone()).unwrap();
            if c != want {
                return Err("initialize returned other client capabilities".into());
            }
        }
        e => return Err(format!("{e:?}")),
    }
    Ok(r)
}

pub fn p05(run: &mut Run) {
    run.rule = "random client capabilities (missing, false and true at every level, all lists the protocol allows plus near misses) through the real initialize handshake and main loop: announced capabilities against an independent reading of the client's, then completions, code actions, signature help and the commands against what the client can take; nontrivial: capabilities announce something".into();
    const SERVER: [&str; 4] = ["", "quickfix", "refactor", "refactor.rewrite"];
    for round in 0..run.scale(300) {
        if run.failures.len() > 4 {
            break;
        }
        let mut rng = run.rng.fork();
        let caps = rand_caps(&mut rng);
        let inp = caps.json.to_string();
        run.case(&inp, inp.len() > 30);
        let r = match initialize_result(&caps.json) {
            Ok(r) => r,
            Err(e) => {
                run.fail("P05-initialize", e, inp);
                continue;
            }
        };
        let sc = &r["capabilities"];
        run.eq("P05-encoding", sc["positionEncoding"].as_str(), Some(caps.enc.name()), || inp.clone());
        run.eq("P05-sync", (sc["textDocumentSync"]["openClose"].clone(), sc["textDocumentSync"]["change"].clone()), (json!(true), json!(1)), || inp.clone());
        for f in ["hoverProvider", "completionProvider", "codeActionProvider", "inlayHintProvider", "signatureHelpProvider", "executeCommandProvider"] {
            run.check("P05-announces-features", sc.get(f).map_or(false, |v| !v.is_null() && *v != json!(false)), || format!("{f} missing"), || inp.clone());
        }
        let mut cmds: Vec<String> = sc["executeCommandProvider"]["commands"].as_array().into_iter().flatten().filter_map(|v| v.as_str().map(String::from)).collect();
        cmds.sort();
        run.eq("P05-commands", cmds, vec!["createProject".to_string(), "extractEvent".into(), "migrateProject".into()], || inp.clone());
        let mut common: Vec<String> = SERVER.iter().filter(|k| caps.kinds.as_ref().map_or(false, |ks| ks.iter().any(|x| x == *k))).map(|s| s.to_string()).collect();
        common.sort();
        let ca = &sc["codeActionProvider"];
        if common.is_empty() {
            run.eq("P05-code-action-kinds", ca.clone(), json!(true), || inp.clone());
        } else {
            let mut got: Vec<String> = ca["codeActionKinds"].as_array().into_iter().flatten().filter_map(|v| v.as_str().map(String::from)).collect();
            got.sort();
            run.eq("P05-code-action-kinds", got, common, || inp.clone());
            run.eq("P05-resolve-announced", ca["resolveProvider"].clone(), json!(true), || inp.clone());
        }
        // behaviour
        if round % 3 != 0 {
            continue;
        }
        let mut c = Client::start(caps.json.clone());
        let uri = "file:///ivh-nonexistent/a/lib.rs";
        let text = rich_doc(&mut rng);
        let h = format!("caps {inp}\ntext {text:?}");
        if c.notify("textDocument/didOpen", open(uri, "rust", 1, &text)).is_none() {
            run.fail("P05-died", format!("{:?}", c.dead), h);
            continue;
        }
        for o in interesting_offsets(&mut rng, &text, 6) {
            let p = jpos(&text, caps.enc, o).unwrap();
            let tp = json!({"textDocument": {"uri": uri}, "position": p});
            if let Some(items) = c.ask("textDocument/completion", tp.clone()).and_then(|r| r.result).and_then(|r| r["items"].as_array().cloned()) {
                for it in items {
                    let fmt = it.get("insertTextFormat").cloned();
                    let t = it["textEdit"]["newText"].as_str().unwrap_or("").to_string();
                    if !caps.snippets {
                        run.check("P05-no-snippets-unless-supported", fmt.is_none() || fmt == Some(json!(1)), || format!("{it}"), || h.clone());
                        run.check("P05-no-snippets-unless-supported", !t.contains("$1") && !t.contains("${"), || format!("{it}"), || h.clone());
                    } else {
                        run.check("P05-snippets-are-marked", fmt.is_some() && (fmt == Some(json!(2))) == (t.contains("$1") || t.contains("${") || t.contains("$0") || t.contains("$2")), || format!("{it}"), || h.clone());
                    }
                }
            }
            if let Some(s) = c.ask("textDocument/signatureHelp", tp.clone()).and_then(|r| r.result) {
                for sg in s["signatures"].as_array().into_iter().flatten() {
                    run.check("P05-active-parameter-only-if-supported", caps.active || sg.get("activeParameter").is_none(), || format!("{sg}"), || h.clone());
                    for p in sg["parameters"].as_array().into_iter().flatten() {
                        run.check("P05-label-offsets-iff-supported", p["label"].is_array() == caps.offsets, || format!("{sg}"), || h.clone());
                    }
                }
            }
            let e = jpos(&text, caps.enc, text.len()).unwrap();
            let _ = e;
            if let Some(s) = c.ask("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": p, "end": p}, "context": {"diagnostics": []}})).and_then(|r| r.result) {
                for a in s.as_array().into_iter().flatten() {
                    let lazy = a.pointer("/data/command").is_some() || a.get("command").is_some();
                    if lazy {
                        run.check("P05-resolve-iff-supported", a.pointer("/data/command").is_some() == caps.resolve && a.get("command").is_some() != caps.resolve, || format!("{a}"), || h.clone());
                        run.check("P05-lazy-has-no-edit", a.get("edit").is_none(), || format!("{a}"), || h.clone());
                    } else {
                        run.check("P05-eager-has-edit", a.get("edit").is_some(), || format!("{a}"), || h.clone());
                    }
                }
            }
        }
        let ms = c.request(RequestId::from(77), "workspace/executeCommand", json!({"command": "createProject", "arguments": [{"name": "foo", "root": "file:///ivh-nonexistent/foo"}]}));
        match ms {
            None => run.fail("P05-died", format!("{:?}", c.dead), h.clone()),
            Some(ms) => {
                let edits = ms.iter().filter(|m| matches!(m, Message::Request(r) if r.method == "workspace/applyEdit")).count();
                run.eq("P05-apply-edit-iff-supported", edits, caps.create as usize, || h.clone());
                let res = ms.iter().find_map(|m| if let Message::Response(r) = m { r.result.clone() } else { None });
                run.eq("P05-files-returned-otherwise", res.map_or(false, |r| r.is_object()), !caps.create, || h.clone());
            }
        }
        let _ = c.shutdown();
    }
}

pub fn p06(run: &mut Run) {
    run.rule = "random contracts (fixtures, incomplete attributes, wide characters, CRLF) opened in the real server under random client capabilities; hover, completion, code action, inlay hint, signature help answers and published diagnostics compared field by field with an independent translation of the analyzer's results at the same place; nontrivial: the answer is not empty".into();
    for _ in 0..run.scale(110) {
        if run.failures.len() > 4 {
            break;
        }
        let mut rng = run.rng.fork();
        let caps = rand_caps(&mut rng);
        let enc = caps.enc;
        let mut c = Client::start(caps.json.clone());
        let uri = *rng.pick(&["file:///ivh-nonexistent/a/lib.rs", "untitled:U", "file:///ivh-nonexistent/%C3%A9.rs"]);
        let text = rich_doc(&mut rng);
        let an = Analysis::new(&text, Version::V4);
        let h = format!("caps {}\ntext {text:?}", caps.json);
        let Some(ms) = c.notify("textDocument/didOpen", open(uri, "rust", 1, &text)) else {
            run.fail("P06-died", format!("{:?}", c.dead), h);
            continue;
        };
        let got: Vec<Value> = ms.iter().filter_map(|m| if let Message::Notification(n) = m { n.params["diagnostics"].as_array().cloned() } else { None }).flatten().collect();
        let want: Option<Vec<Value>> = an.diagnostics().iter().map(|d| want_diagnostic(&text, enc, d)).collect();
        run.case(&format!("diagnostics {h}"), !got.is_empty());
        run.eq("P06-diagnostics", Some(got), want, || h.clone());
        let len = text.len();
        for o in interesting_offsets(&mut rng, &text, 10) {
            let p = jpos(&text, enc, o).unwrap();
            let tp = json!({"textDocument": {"uri": uri}, "position": p});
            let off = TextSize::from(o as u32);
            let hi = || format!("{h}\nat offset {o} position {p}");
            // hover
            let got = c.ask("textDocument/hover", tp.clone()).and_then(|r| r.result);
            let want = match an.hover(TextRange::empty(off)) {
                None => Some(Value::Null),
                Some(x) => jrange(&text, enc, x.range).map(|r| json!({"contents": x.content, "range": r})),
            };
            run.case(&format!("hover {o} {h}"), got != Some(Value::Null));
            run.eq("P06-hover", got, want, hi);
            // completion
            let got = c.ask("textDocument/completion", tp.clone()).and_then(|r| r.result);
            let cs = an.completions(off);
            let want = if cs.is_empty() { Some(Value::Null) } else {
                cs.iter().map(|x| want_completion(&text, enc, x, caps.snippets)).collect::<Option<Vec<_>>>().map(|l| json!({"isIncomplete": true, "items": l}))
            };
            run.case(&format!("completion {o} {h}"), !cs.is_empty());
            run.eq("P06-completion", got, want, hi);
            // signature help, with and without a previous one
            let sigs = an.signature_help(off);
            let mut prev: Option<(String, u32)> = None;
            let mut params = tp.clone();
            if !sigs.is_empty() && rng.chance(2, 3) {
                let i = rng.below(sigs.len() + 1) as u32;
                let mut labels: Vec<String> = sigs.iter().map(|s| s.label.clone()).collect();
                if rng.chance(1, 3) {
                    labels.insert(0, "other".into());
                }
                if rng.chance(1, 3) {
                    labels.reverse();
                }
                if let Some(l) = labels.get_mut(i as usize) {
                    if rng.chance(1, 3) {
                        // a label that only begins like one
                        let n = rng.below(l.len() + 1);
                        *l = l.chars().take(n).collect();
                    }
                    prev = Some((l.clone(), i));
                }
                params["context"] = json!({"triggerKind": 1, "isRetrigger": true, "activeSignatureHelp": {"signatures": labels.iter().map(|l| json!({"label": l})).collect::<Vec<_>>(), "activeSignature": i}});
            }
            let got = c.ask("textDocument/signatureHelp", params.clone()).and_then(|r| r.result);
            let want = want_signatures(enc, &sigs, caps.active, caps.offsets, prev.as_ref().map(|p| (p.0.as_str(), p.1))).unwrap_or(Value::Null);
            run.case(&format!("signature {o} {h}"), !sigs.is_empty());
            run.eq("P06-signature-help", got, Some(want), || format!("{h}\nsignatureHelp {params}"));
            // code actions and inlay hints over a range
            let mut e = (o + rng.below(30)).min(len);
            while !text.is_char_boundary(e) {
                e -= 1;
            }
            if rng.chance(1, 3) {
                e = o;
            }
            let r = TextRange::new(off, TextSize::from(e.max(o) as u32));
            let jr = jrange(&text, enc, r).unwrap();
            let got = c.ask("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": jr, "context": {"diagnostics": []}})).and_then(|r| r.result);
            let acts = an.actions(r);
            // an action whose ranges cannot be translated is a defect of the analyzer; one without edits is left out
            let want: Vec<Value> = acts.iter().filter_map(|a| want_action(&text, enc, a, uri, caps.resolve)).collect();
            run.case(&format!("actions {o}-{e} {h}"), !acts.is_empty());
            run.eq("P06-code-actions", got, Some(json!(want)), || format!("{h}\ncodeAction {r:?} {jr}"));
            let got = c.ask("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": jr})).and_then(|r| r.result);
            let want: Vec<Value> = an.inlay_hints(Some(r)).iter().filter_map(|x| want_hint(&text, enc, x)).collect();
            run.case(&format!("hints {o}-{e} {h}"), !want.is_empty());
            run.eq("P06-inlay-hints", got, Some(json!(want)), || format!("{h}\ninlayHint {r:?}"));
        }
        let full = TextRange::new(0.into(), TextSize::from(len as u32));
        let got = c.ask("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": jrange(&text, enc, full)})).and_then(|r| r.result);
        let want: Vec<Value> = an.inlay_hints(Some(full)).iter().filter_map(|x| want_hint(&text, enc, x)).collect();
        run.eq("P06-inlay-hints", got, Some(json!(want)), || format!("{h}\ninlayHint full"));
        let _ = c.shutdown();
    }
}
