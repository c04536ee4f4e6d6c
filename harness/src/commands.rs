//! P07, P08: executable contracts of the commands and of ink! version detection, on scratch projects.
use crate::core::*;
use crate::lsp::*;
use crate::translate::*;
use ink_analyzer::{ActionKind, Analysis, TextRange, TextSize, Version};
use lsp_server::{Message, RequestId, Response};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ scratch projects

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("ivh-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn sub(&self, name: &str) -> PathBuf {
        let p = self.0.join(name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch project");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn tree(p: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let q = e.path();
            if q.is_dir() {
                out.insert(q.clone(), None);
                todo.push(q);
            } else {
                out.insert(q.clone(), std::fs::read(&q).ok());
            }
        }
    }
    out
}

pub fn uri_of(p: &Path) -> String {
    lsp_types::Url::from_file_path(p).expect("absolute path").to_string()
}

/// the text after applying LSP text edits (None: overlapping or outside the text)
pub fn apply_lsp(text: &str, enc: Enc, edits: &[Value]) -> Option<String> {
    let mut es = vec![];
    for (i, e) in edits.iter().enumerate() {
        let p = |k: &str| -> Option<usize> {
            let v = &e["range"][k];
            off_of(text, enc, v["line"].as_u64()? as u32, v["character"].as_u64()? as u32)
        };
        let (a, b) = (p("start")?, p("end")?);
        if a > b {
            return None;
        }
        es.push((a, b, i, e["newText"].as_str()?.to_string()));
    }
    es.sort_by_key(|e| (e.0, e.1, e.2));
    let mut out = String::new();
    let mut at = 0;
    for (a, b, _, t) in es {
        if a < at {
            return None;
        }
        out.push_str(&text[at..a]);
        out.push_str(&t);
        at = b;
    }
    out.push_str(&text[at..]);
    Some(out)
}

/// analyzer edits in LSP form
pub fn want_edits(text: &str, enc: Enc, edits: &[ink_analyzer::TextEdit]) -> Option<Vec<Value>> {
    edits.iter().map(|e| Some(json!({"range": jrange(text, enc, e.range)?, "newText": e.text}))).collect()
}

// ------------------------------------------------------------------ manifests

pub struct Manifest {
    pub text: String,
    /// lines that no command may touch
    pub keep: Vec<String>,
}

fn dep(rng: &mut Rng, name: &str, ver: &str, lines: &mut Vec<(String, bool)>, tables: &mut Vec<Vec<(String, bool)>>, keep: bool, sect: &str) {
    match rng.below(8) {
        6 => lines.push((format!("{name} = {{ version = \"{ver}\", default-features = true }}"), keep)),
        0 => lines.push((format!("{name} = \"{ver}\""), keep)),
        1 => lines.push((format!("{name} = {{ version = \"{ver}\", default-features = false }}"), keep)),
        2 => lines.push((format!("{name} = {{ version = \"{ver}\", features = [\"derive\", \"x\"] }} # é"), keep)),
        3 => tables.push(vec![(format!("[{sect}.{name}]"), keep), (format!("version = \"{ver}\""), false), ("default-features = true".into(), false), ("optional = false".into(), false)]),
        4 => lines.push((format!("{name}  =  {{  version=\"{ver}\" , git = \"https://example.com/{name}\"}}"), keep)),
        5 => lines.push((format!("{name}.version = \"{ver}\""), keep)),
        _ => lines.push((format!("\"{name}\" = '{ver}'"), keep)),
    }
}

pub fn manifest(rng: &mut Rng, ink: Option<&str>) -> Manifest {
    let mut l: Vec<(String, bool)> = vec![];
    let mut tables: Vec<Vec<(String, bool)>> = vec![];
    if rng.chance(1, 2) {
        l.push(("# mänifest 😀".into(), true));
    }
    l.push(("[package]".into(), true));
    l.push((format!("name = \"{}\"  # comment", rng.pick(&["flipper", "my-ink", "a"])), true));
    l.push(("version = \"0.1.0\"".into(), true));
    l.push((format!("authors = [\"{}\"]", rng.pick(&["Ada", "Zoë 𝔸 <z@example.com>"])), true));
    l.push(("edition = \"2021\"".into(), true));
    l.push(("".into(), true));
    let mut d: Vec<(String, bool)> = vec![];
    let order = rng.below(3);
    let mut parts = vec!["ink", "scale", "scale-info", "other", "other2"];
    for i in (1..parts.len()).rev() {
        let j = rng.below(i + 1);
        parts.swap(i, j);
    }
    for p in parts {
        match p {
            "ink" => {
                if let Some(v) = ink {
                    if v == "workspace" {
                        d.push((rng.pick(&["ink = { workspace = true }", "ink.workspace = true", "ink = { workspace = true, default-features = false }", "ink = { workspace = true, default-features = true }"]).to_string(), false));
                    } else {
                        dep(rng, "ink", v, &mut d, &mut tables, false, "dependencies");
                    }
                }
            }
            "scale" if rng.chance(2, 3) => match rng.below(3) {
                0 => d.push(("scale = { package = \"parity-scale-codec\", version = \"3\", default-features = false, features = [\"derive\"] }".into(), false)),
                1 => d.push(("scale = \"3\"".into(), false)),
                _ => tables.push(vec![("[dependencies.scale]".into(), false), ("package = \"parity-scale-codec\"".into(), false), ("version = \"3\"".into(), false)]),
            },
            "scale-info" if rng.chance(2, 3) => match rng.below(2) {
                0 => d.push(("scale-info = { version = \"2.6\", default-features = false, features = [\"derive\"], optional = true }".into(), false)),
                _ => d.push(("scale-info = \"2\"".into(), false)),
            },
            "other" if rng.chance(2, 3) => {
                if rng.chance(1, 3) {
                    d.push(("# a comment about serde ß".into(), true));
                }
                d.push(("serde = { version = \"1\", default-features = false }".into(), true));
            }
            "other2" if rng.chance(1, 2) => d.push((rng.pick(&["scale-value = \"0.1\"", "ink_env = { path = \"../env\" }", "inky = \"4.0\"", "parity-scale-codec = \"3\""]).to_string(), true)),
            _ => {}
        }
    }
    let mut ext: Vec<(String, bool)> = vec![];
    if rng.chance(2, 3) {
        ext.push(("[dev-dependencies]".into(), true));
        if rng.chance(1, 2) {
            ext.push(("quickcheck = \"1\"".into(), true));
        }
        if rng.chance(3, 4) {
            let v = *rng.pick(&["4.3.0", "4", "5.0.0-rc"]);
            match rng.below(3) {
                0 => ext.push((format!("ink_e2e = \"{v}\""), false)),
                1 => ext.push((format!("ink_e2e = {{ version = \"{v}\", features = [\"a\"] }}"), false)),
                _ => ext.push((format!("ink_e2e = {{ version = \"{v}\" }} # e2e"), false)),
            }
        }
        if rng.chance(1, 4) {
            ext.push(("scale = \"3\"".into(), true));
        }
        ext.push(("".into(), true));
    }
    if rng.chance(1, 2) {
        ext.push(("[lib]".into(), true));
        ext.push(("path = \"lib.rs\"".into(), true));
        ext.push(("".into(), true));
    }
    if rng.chance(4, 5) {
        ext.push(("[features]".into(), true));
        ext.push(("default = [\"std\"]".into(), true));
        match rng.below(5) {
            4 => ext.push(("std = [\"scale\", \"scale-value/std\", \"scale/std\", \"scale/full\", \"scale-info?/std\", \"scale-info/stdx\", \"scale-info/std\", \"std\"]".into(), false)),
            0 => ext.push(("std = [\"ink/std\", \"scale/std\", \"scale-info/std\", \"serde/std\"]".into(), false)),
            1 => {
                for s in ["std = [", "    \"ink/std\",", "    \"scale/std\",", "    \"scale-info/std\",", "    \"xscale/std\",", "]"] {
                    ext.push((s.into(), false));
                }
            }
            2 => ext.push(("std = [\"scale-info/std\"]".into(), false)),
            _ => ext.push(("std = []".into(), false)),
        }
        ext.push(("ink-as-dependency = []".into(), true));
        if rng.chance(1, 3) {
            ext.push(("extra = [\"scale/std\", \"scale-info/std\"]".into(), true));
        }
    }
    let mut dd = vec![("[dependencies]".to_string(), true)];
    let has_plain = !d.is_empty() || tables.is_empty() || rng.chance(1, 2);
    dd.extend(d);
    if !has_plain {
        dd.clear();
    }
    for t in tables {
        dd.push(("".into(), true));
        dd.extend(t);
    }
    dd.push(("".into(), true));
    if order == 0 {
        l.extend(ext);
        l.extend(dd);
    } else {
        l.extend(dd);
        l.extend(ext);
    }
    let nl = if rng.chance(1, 8) { "\r\n" } else { "\n" };
    let mut text = l.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(nl);
    if rng.chance(2, 3) {
        text.push_str(nl);
    }
    Manifest { text, keep: l.into_iter().filter(|x| x.1 && !x.0.is_empty() && !x.0.starts_with("[dependencies.")).map(|x| x.0).collect() }
}

fn keeps(after: &str, keep: &[String]) -> Option<String> {
    let mut it = after.lines();
    for k in keep {
        if !it.any(|l| l.trim_end() == k.trim_end()) {
            return Some(k.clone());
        }
    }
    None
}

fn table(t: &toml::Value) -> Option<toml::Table> {
    t.as_table().cloned()
}

/// what migrating a manifest means, on its parsed form (None: not a manifest of an ink! package)
fn want_migrated(before: &toml::Table) -> Option<toml::Table> {
    let mut t = before.clone();
    let deps = t.get_mut("dependencies")?.as_table_mut()?;
    let ink = deps.get("ink")?.clone();
    let mut n = table(&ink).unwrap_or_default();
    n.insert("version".into(), "5.0.0".into());
    n.remove("workspace");
    if !n.contains_key("default-features") {
        n.insert("default-features".into(), false.into());
    }
    deps.insert("ink".into(), n.into());
    deps.remove("scale");
    deps.remove("scale-info");
    if let Some(d) = t.get_mut("dev-dependencies").and_then(|d| d.as_table_mut()) {
        if d.contains_key("ink_e2e") {
            d.insert("ink_e2e".into(), "5.0.0".into());
        }
    }
    if let Some(s) = t.get_mut("features").and_then(|f| f.get_mut("std")).and_then(|s| s.as_array_mut()) {
        s.retain(|f| f.as_str() != Some("scale/std") && f.as_str() != Some("scale-info/std"));
    }
    Some(t)
}

/// kebab-case package name of an event (None: not a package name)
fn want_package(name: &str) -> Option<String> {
    if !name.chars().next()?.is_alphabetic() {
        return None;
    }
    let mut words: Vec<String> = vec![];
    for seg in name.split(|c: char| !c.is_alphanumeric()) {
        let mut cur = String::new();
        let mut prev_up = true;
        for c in seg.chars() {
            if c.is_uppercase() && !prev_up && !cur.is_empty() {
                words.push(std::mem::take(&mut cur));
            }
            prev_up = c.is_uppercase();
            cur.push(c);
        }
        if !cur.is_empty() {
            words.push(cur);
        }
    }
    Some(words.join("-").to_lowercase())
}

fn responses(ms: &[Message]) -> Vec<Response> {
    ms.iter().filter_map(|m| if let Message::Response(r) = m { Some(r.clone()) } else { None }).collect()
}
fn requests(ms: &[Message]) -> Vec<lsp_server::Request> {
    ms.iter().filter_map(|m| if let Message::Request(r) = m { Some(r.clone()) } else { None }).collect()
}

/// normalises files and edits out of any of the three forms an answer can take
#[derive(Debug, PartialEq, Default)]
struct Outcome {
    files: BTreeMap<String, String>,
    edits: BTreeMap<String, Vec<Value>>,
}

fn from_workspace_edit(we: &Value) -> Result<Outcome, String> {
    let mut o = Outcome::default();
    if let Some(ch) = we.get("changes").and_then(Value::as_object) {
        for (u, es) in ch {
            o.edits.insert(u.clone(), es.as_array().ok_or("edits")?.clone());
        }
    }
    let mut created: Vec<String> = vec![];
    for op in we.get("documentChanges").and_then(Value::as_array).into_iter().flatten() {
        if op.get("kind").is_some() {
            if op["kind"] != "create" {
                return Err(format!("unexpected operation {op}"));
            }
            let u = op["uri"].as_str().ok_or("uri")?.to_string();
            if created.contains(&u) {
                return Err(format!("{u} created twice"));
            }
            if op.get("options").map_or(false, |x| !x.is_null()) {
                return Err(format!("create options {op}"));
            }
            created.push(u);
        } else {
            let u = op["textDocument"]["uri"].as_str().ok_or("uri")?.to_string();
            if !op["textDocument"]["version"].is_null() {
                return Err(format!("unexpected version in {op}"));
            }
            let es = op["edits"].as_array().ok_or("edits")?.clone();
            if created.contains(&u) {
                let z = json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}});
                if es.len() != 1 || es[0]["range"] != z || o.files.contains_key(&u) {
                    return Err(format!("a new file gets its content in one edit: {op}"));
                }
                o.files.insert(u, es[0]["newText"].as_str().ok_or("text")?.to_string());
            } else if o.edits.insert(u, es).is_some() {
                return Err("two edits of one document".into());
            }
        }
    }
    if created.len() != o.files.len() {
        return Err("a file is created without content".into());
    }
    Ok(o)
}

fn from_plain(v: &Value) -> Outcome {
    let mut o = Outcome::default();
    for (u, t) in v["files"].as_object().into_iter().flatten() {
        o.files.insert(u.clone(), t.as_str().unwrap_or("").to_string());
    }
    for (u, t) in v["edits"].as_object().into_iter().flatten() {
        o.edits.insert(u.clone(), t.as_array().cloned().unwrap_or_default());
    }
    o
}

/// runs a command and normalises what came back: Ok(None) for an error answer
fn command(run: &mut Run, c: &mut Client, cmd: &str, arg: Value, edit_ok: bool, prefix: &str, h: &dyn Fn() -> String) -> Option<Option<Outcome>> {
    let id = RequestId::from(4242);
    let Some(ms) = c.request(id.clone(), "workspace/executeCommand", json!({"command": cmd, "arguments": [arg]})) else {
        run.fail("P07-died", format!("{:?}", c.dead), h());
        return None;
    };
    let rs = responses(&ms);
    if rs.len() != 1 || rs[0].id != id || rs[0].result.is_some() == rs[0].error.is_some() {
        run.fail("P07-one-answer", format!("{rs:?}"), h());
        return None;
    }
    let reqs = requests(&ms);
    if rs[0].error.is_some() {
        run.check("P07-no-edit-on-error", reqs.is_empty(), || format!("{reqs:?}"), h);
        return Some(None);
    }
    if edit_ok {
        if reqs.len() != 1 || reqs[0].method != "workspace/applyEdit" || rs[0].result != Some(Value::Null) {
            run.fail("P07-applied-as-workspace-edit", format!("{rs:?} {reqs:?}"), h());
            return None;
        }
        run.check("P07-request-id", serde_json::to_value(&reqs[0].id).ok().and_then(|v| v.as_str().map(|s| s.starts_with(prefix))) == Some(true), || format!("{:?}", reqs[0].id), h);
        match from_workspace_edit(&reqs[0].params["edit"]) {
            Ok(o) => Some(Some(o)),
            Err(e) => {
                run.fail("P07-workspace-edit", e, h());
                None
            }
        }
    } else {
        if !reqs.is_empty() {
            run.fail("P07-no-edit-unless-supported", format!("{reqs:?}"), h());
            return None;
        }
        Some(Some(from_plain(rs[0].result.as_ref().unwrap())))
    }
}

fn check_manifest_edit(run: &mut Run, id: &str, m: &Manifest, enc: Enc, edits: Option<&Vec<Value>>, want: &toml::Table, h: &dyn Fn() -> String) {
    let Some(es) = edits else {
        run.fail(id, "no edit of the manifest".into(), h());
        return;
    };
    let Some(after) = apply_lsp(&m.text, enc, es) else {
        run.fail(id, format!("edits do not apply: {es:?}"), h());
        return;
    };
    match toml::from_str::<toml::Table>(&after) {
        Ok(t) => {
            run.eq(id, &t, want, || format!("{}\nafter: {after:?}", h()));
        }
        Err(e) => run.fail(id, format!("not toml afterwards: {e}"), format!("{}\nafter: {after:?}", h())),
    }
    if let Some(k) = keeps(&after, &m.keep) {
        run.fail(&format!("{id}-keeps-the-rest"), format!("line lost: {k:?}"), format!("{}\nafter: {after:?}", h()));
    }
}

const EVENTS: &[&str] = &["Flipped", "TransferDone", "ERC20Transfer", "My_Event", "X", "evt2Go", "A1B2", "Ünder", "_Hidden", "Foo_", "HTTPServer", "__", "a__B", "Über_All"];

fn event_doc(rng: &mut Rng) -> (String, Vec<String>) {
    let n = rng.range(1, 3);
    let mut names = vec![];
    let mut s = String::from(*rng.pick(&["", "// é😀\n", "#![cfg_attr(not(feature = \"std\"), no_std)]\n\n"]));
    s.push_str("#[ink::contract]\nmod c {\n");
    if rng.chance(1, 2) {
        s.push_str("    use ink::prelude::vec::Vec;\n\n");
    }
    for _ in 0..n {
        let name = rng.pick(EVENTS).to_string();
        if names.contains(&name) {
            continue;
        }
        if rng.chance(1, 2) {
            s.push_str("    /// docs ß\n");
        }
        if rng.chance(1, 2) {
            s.push_str("    #[derive(Debug)]\n");
        }
        s.push_str(*rng.pick(&["    #[ink(event)]\n", "    #[ink::event]\n", "    #[ink(event, anonymous)]\n", "    #[ink(event)]\n    #[ink(anonymous)]\n", "    #[ink::event(anonymous)]\n", "    #[ink::event(signature_topic = \"1111111111111111111111111111111111111111111111111111111111111111\")]\n"]));
        s.push_str(&format!("    pub struct {name} {{\n        #[ink(topic)]\n        a: u8,\n        /* 中 */ b: Vec<u8>,\n    }}\n\n"));
        names.push(name);
    }
    s.push_str("    #[ink(storage)]\n    pub struct C {}\n    impl C {\n        #[ink(constructor)]\n        pub fn new() -> Self { C {} }\n        #[ink(message)]\n        pub fn m(&self) {\n            self.env().emit_event(Flipped { a: 1, b: Vec::new() });\n        }\n    }\n}\n");
    if rng.chance(1, 5) {
        s = s.replace('\n', "\r\n");
    }
    (s, names)
}

pub fn p07(run: &mut Run) {
    run.rule = "scratch ink! projects (random manifests: every form of dependency, missing sections, wide characters, CRLF; random and fixture contracts) driven through executeCommand and codeAction/resolve of the real server under random client capabilities: created files, edits, answer form and messages against an independent computation on the parsed manifest and the analyzer's own results; the project directory must stay untouched; nontrivial: the command succeeded".into();
    let scratch = Scratch::new("P07");
    // createProject
    let names = ["flipper", "a", "my-ink", "my_ink", "MyContract", "my_contract", "é", "a1-_", "", "1a", "-a", "_a", "a b", "a.b", "a/b", "ß2", "a!", " a", "x\n", "my_contract_MyContract"];
    for i in 0..run.scale(60) {
        let mut rng = run.rng.fork();
        let caps = rand_caps(&mut rng);
        let name = if i < names.len() { names[i].to_string() } else { (0..rng.range(0, 5)).map(|_| *rng.pick(&["a", "B", "_", "-", "1", "é", "My", "!", " ", "contract"])).collect() };
        let root = *rng.pick(&["file:///ivh-nonexistent/p", "file:///ivh-nonexistent/p/", "file:///ivh%20x/%C3%A9/", "untitled:/a", "mailto:x"]);
        let mut c = Client::start(caps.json.clone());
        let h = || format!("createProject name {name:?} root {root:?} caps {}", caps.json);
        let Some(got) = command(run, &mut c, "createProject", json!({"name": name, "root": root}), caps.create, "initialize-project::", &h) else { continue };
        let base = if root.ends_with('/') { root.to_string() } else { format!("{root}/") };
        let valid = name.chars().next().map_or(false, char::is_alphabetic) && name.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') && !base.starts_with("mailto");
        run.case(&h(), valid);
        let want = valid.then(|| {
            let p = ink_analyzer::new_project(name.clone(), Version::V5).expect("valid name");
            Outcome { files: BTreeMap::from([(format!("{base}lib.rs"), p.lib.plain), (format!("{base}Cargo.toml"), p.cargo.plain)]), edits: BTreeMap::new() }
        });
        run.eq("P07-create-project", got, want, h);
        // the new lib.rs is shown once the client has applied the edit
        if valid && caps.create {
            c.send(Message::Response(Response { id: RequestId::from(format!("initialize-project::{base}")), result: Some(json!({"applied": true})), error: None }));
            let ms = c.barrier().unwrap_or_default();
            let rq = requests(&ms);
            run.check("P07-shows-lib", rq.len() == 1 && rq[0].method == "window/showDocument" && rq[0].params["uri"] == json!(format!("{base}lib.rs")), || format!("{rq:?}"), h);
        }
        let _ = c.shutdown();
    }
    // migrateProject and extractEvent
    for i in 0..run.scale(160) {
        if run.failures.len() > 6 {
            break;
        }
        let mut rng = run.rng.fork();
        let caps = rand_caps(&mut rng);
        let enc = caps.enc;
        let proj = scratch.sub(&format!("p{i} é"));
        let ink = *rng.pick(&[Some("4.3.0"), Some("4"), Some("5.0.0-rc.1"), Some("workspace"), None, Some("4.3")]);
        let m = manifest(&mut rng, ink);
        let no_manifest = rng.chance(1, 12);
        if !no_manifest {
            std::fs::write(proj.join("Cargo.toml"), &m.text).expect("manifest");
        }
        let src = match rng.below(3) {
            0 => proj.join("lib.rs"),
            1 => proj.join("src/lib.rs"),
            _ => proj.join("src/a b/c.rs"),
        };
        std::fs::create_dir_all(src.parent().unwrap()).expect("src");
        let (text, _names) = if rng.chance(2, 3) { event_doc(&mut rng) } else { (rich_doc(&mut rng), vec![]) };
        std::fs::write(&src, "stale\n").expect("source");
        let uri = uri_of(&src);
        let cargo_uri = uri_of(&proj.join("Cargo.toml"));
        let table: Option<toml::Table> = toml::from_str(&m.text).ok();
        let Some(table) = table else { continue };
        let an = Analysis::new(&text, Version::V4);
        let mut c = Client::start(caps.json.clone());
        let h = || format!("file {} manifest ({}) {:?}\ntext {text:?}\ncaps {}", src.display(), if no_manifest { "absent" } else { "present" }, m.text, caps.json);
        if c.notify("textDocument/didOpen", open(&uri, "rust", 1, &text)).is_none() {
            run.fail("P07-died", format!("{:?}", c.dead), h());
            continue;
        }
        let before = tree(&proj);
        // migrate, as a command or as a resolved action
        let want_code = want_edits(&text, enc, &an.migrate());
        let want_toml = if no_manifest { None } else { want_migrated(&table) };
        let resolved = rng.chance(1, 2);
        let got = if resolved {
            let act = json!({"title": "Migrate", "kind": "refactor.rewrite", "data": {"command": "migrateProject", "uri": uri, "range": {"start": 0, "end": 1}}});
            match c.ask("codeAction/resolve", act.clone()) {
                None => {
                    run.fail("P07-died", format!("{:?}", c.dead), h());
                    continue;
                }
                Some(r) => match r.result {
                    Some(v) => {
                        run.check("P07-resolve-keeps-the-action", v["title"] == act["title"] && v["kind"] == act["kind"] && v.get("command").map_or(true, Value::is_null), || format!("{v}"), h);
                        match from_workspace_edit(&v["edit"]) {
                            Ok(o) => Some(o),
                            Err(e) => {
                                run.fail("P07-migrate", e, h());
                                continue;
                            }
                        }
                    }
                    None => None,
                },
            }
        } else {
            match command(run, &mut c, "migrateProject", json!({"uri": uri}), true, "migrate-project::", &h) {
                None => continue,
                Some(g) => g,
            }
        };
        run.case(&format!("migrate {}", h()), got.is_some());
        match (&got, &want_toml) {
            (None, None) => {}
            (Some(o), Some(wt)) => {
                run.eq("P07-migrate-files", (o.files.len(), o.edits.len()), (0, 2), h);
                run.eq("P07-migrate-code", o.edits.get(&uri).cloned(), want_code.clone(), h);
                check_manifest_edit(run, "P07-migrate-manifest", &m, enc, o.edits.get(&cargo_uri), wt, &h);
            }
            _ => run.fail("P07-migrate", format!("answered: {}, an ink! project: {}", got.is_some(), want_toml.is_some()), h()),
        }
        // extract: every offered extraction
        let offs = interesting_offsets(&mut rng, &text, 3);
        let mut places: Vec<TextRange> = offs.iter().map(|o| TextRange::empty(TextSize::from(*o as u32))).collect();
        for (k, pat) in text.match_indices("pub struct ") {
            places.push(TextRange::empty(TextSize::from((k + pat.len()) as u32)));
        }
        let all: Vec<TextRange> = places.iter().flat_map(|r| an.actions(*r)).filter(|a| a.kind == ActionKind::Extract).map(|a| a.range).collect();
        places.extend(all);
        for (j, r) in places.into_iter().enumerate().take(8) {
            let ex = an.extract(r);
            // directories that are already taken
            let mut taken = 0usize;
            let pkg = ex.as_ref().and_then(|e| want_package(&e.name));
            if let Some(p) = &pkg {
                taken = *rng.pick(&[0usize, 0, 1, 2, 9, 10, 11, 12]);
                for n in 0..taken {
                    let d = proj.join(if n == 0 { p.clone() } else { format!("{p}{n}") });
                    if rng.chance(1, 4) {
                        let _ = std::fs::write(&d, "x");
                    } else {
                        let _ = std::fs::create_dir_all(&d);
                    }
                }
            }
            let before = tree(&proj);
            let arg = json!({"uri": uri, "range": {"start": u32::from(r.start()), "end": u32::from(r.end())}});
            let hx = || format!("extractEvent {arg} with {taken} directories taken\n{}", h());
            let got = if rng.chance(1, 2) {
                match command(run, &mut c, "extractEvent", arg.clone(), caps.create, "extract-event::", &hx) {
                    None => continue,
                    Some(g) => g,
                }
            } else {
                let mut data = arg.clone();
                data["command"] = json!("extractEvent");
                match c.ask("codeAction/resolve", json!({"title": "T", "data": data})) {
                    None => {
                        run.fail("P07-died", format!("{:?}", c.dead), hx());
                        continue;
                    }
                    Some(rs) => match rs.result {
                        None => None,
                        Some(v) => match from_workspace_edit(&v["edit"]) {
                            Ok(o) => Some(o),
                            Err(e) => {
                                run.fail("P07-extract", e, hx());
                                continue;
                            }
                        },
                    },
                }
            };
            let deps_ok = table.get("dependencies").map_or(false, |d| d.is_table());
            let want_some = ex.is_some() && pkg.is_some() && !no_manifest && deps_ok && taken <= 10;
            run.case(&format!("extract {j} {}", hx()), got.is_some());
            if !run.check("P07-extract-succeeds", got.is_some() == want_some, || format!("answered {}, expected {want_some}", got.is_some()), hx) {
                continue;
            }
            if let (Some(o), Some(ex), Some(pkg)) = (got, ex, pkg) {
                let dir = if taken == 0 { pkg.clone() } else { format!("{pkg}{taken}") };
                let (lib, cargo) = (uri_of(&proj.join(&dir).join("src/lib.rs")), uri_of(&proj.join(&dir).join("Cargo.toml")));
                run.eq("P07-extract-new-files", o.files.keys().cloned().collect::<Vec<_>>(), { let mut v = vec![lib.clone(), cargo.clone()]; v.sort(); v }, hx);
                run.eq("P07-extract-content", o.files.get(&lib), Some(&ex.content), hx);
                let t: Option<toml::Table> = o.files.get(&cargo).and_then(|t| toml::from_str(t).ok());
                run.eq("P07-extract-package", t.as_ref().map(|t| (t["package"]["name"].as_str().map(String::from), t["dependencies"]["ink"]["version"].as_str().map(String::from))), Some((Some(pkg.clone()), Some("5.0.0".to_string()))), hx);
                // the contract: the event goes, an import comes
                let mut want = want_edits(&text, enc, &ex.edits).unwrap_or_default();
                want.push(json!({"range": jrange(&text, enc, TextRange::empty(ex.import_offset)), "newText": format!("{}use {}::{};", ex.import_indent, pkg.replace('-', "_"), ex.name)}));
                run.eq("P07-extract-edits", o.edits.get(&uri).cloned(), Some(want), hx);
                run.eq("P07-extract-edited-files", o.edits.len(), 2, hx);
                let mut wt = table.clone();
                let mut d = toml::Table::new();
                d.insert("path".into(), dir.clone().into());
                d.insert("default-features".into(), false.into());
                wt.get_mut("dependencies").and_then(|x| x.as_table_mut()).unwrap().insert(pkg.clone(), d.into());
                check_manifest_edit(run, "P07-extract-manifest", &m, enc, o.edits.get(&cargo_uri), &wt, &hx);
            }
            run.check("P07-project-untouched", tree(&proj) == before, || "files changed".into(), hx);
            for n in 0..taken {
                if let Some(p) = an.extract(r).and_then(|e| want_package(&e.name)) {
                    let d = proj.join(if n == 0 { p.clone() } else { format!("{p}{n}") });
                    let _ = std::fs::remove_dir_all(&d);
                    let _ = std::fs::remove_file(&d);
                }
            }
        }
        run.check("P07-project-untouched", tree(&proj) == before, || "files changed".into(), h);
        let _ = c.shutdown();
        let _ = std::fs::remove_dir_all(&proj);
    }
}

