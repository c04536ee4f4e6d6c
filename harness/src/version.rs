//! P08: executable contract of ink! version detection, on scratch projects, observed through published diagnostics.
use crate::commands::{uri_of, Scratch};
use crate::core::*;
use crate::lsp::*;
use ink_analyzer::{Analysis, Version};
use lsp_server::Message;
use serde_json::{json, Value};
use std::path::Path;

const PROBE: &str = "#[ink::event]\npub struct E { #[ink(topic)] a: u8 }\n#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct S {}\n    impl S {\n        #[ink(constructor)]\n        pub fn new() -> Self { S {} }\n        #[ink(message)]\n        pub fn get(&self) {}\n    }\n}\n";

fn msgs(v: Version) -> Vec<String> {
    let mut m: Vec<String> = Analysis::new(PROBE, v).diagnostics().into_iter().map(|d| d.message).collect();
    m.sort();
    m
}

/// (op, major, minor, patch, text) of a random comparator; None components are missing or wildcards
fn comparator(rng: &mut Rng, major: Option<u32>) -> (String, bool) {
    let op = *rng.pick(&["", "", "^", "~", "=", ">", ">=", "<=", "<"]);
    let sp = *rng.pick(&["", "", " ", "  "]);
    let maj = major.unwrap_or_else(|| *rng.pick(&[0, 3, 4, 4, 5, 5, 5, 6, 10, 15, 50, 55, 45]));
    let num = |rng: &mut Rng| *rng.pick(&[0u32, 0, 1, 2, 5, 10, 50, 51]);
    let mut s = format!("{op}{sp}{maj}");
    let (mut mi, mut pa): (Option<u32>, Option<u32>) = (None, None);
    match rng.below(6) {
        0 => {}
        1 => {
            mi = Some(num(rng));
            s += &format!(".{}", mi.unwrap());
        }
        2 => s += *rng.pick(&[".*", ".x", ".X"]),
        3 => {
            mi = Some(num(rng));
            s += &format!(".{}.*", mi.unwrap());
        }
        _ => {
            mi = Some(num(rng));
            pa = Some(num(rng));
            s += &format!(".{}.{}", mi.unwrap(), pa.unwrap());
            s += *rng.pick(&["", "", "-rc.1", "-alpha", "-5.0", "+b5", "-rc.5+x.5"]);
        }
    }
    let above = mi.unwrap_or(0) > 0 || pa.unwrap_or(0) > 0;
    (s, maj == 5 && (op != "<" || above))
}

fn requirement(rng: &mut Rng) -> (String, bool) {
    if rng.chance(1, 12) {
        return (rng.pick(&["*", " *", "* "]).to_string(), true);
    }
    let n = *rng.pick(&[1, 1, 1, 2, 2, 3]);
    let cs: Vec<(String, bool)> = (0..n).map(|_| comparator(rng, None)).collect();
    let five = cs.iter().any(|c| c.1);
    let sep = *rng.pick(&[",", ", ", " , ", " ,"]);
    let mut s = cs.into_iter().map(|c| c.0).collect::<Vec<_>>().join(sep);
    if rng.chance(1, 8) {
        s = format!(" {s} ");
    }
    (s, five)
}

/// an ink entry: lines for [dependencies] or a table of its own; the version it stands for (None: inherited)
fn entry(rng: &mut Rng, sect: &str, inherit_ok: bool) -> (String, String, Option<bool>) {
    let (r, five) = requirement(rng);
    match rng.below(if inherit_ok { 15 } else { 9 }) {
        0 | 1 => (format!("ink = \"{r}\"\n"), String::new(), Some(five)),
        2 => (format!("ink = {{ version = \"{r}\", default-features = false }}\n"), String::new(), Some(five)),
        3 => (format!("ink = {{ version = \"{r}\", path = \"../ink\" }}\n"), String::new(), Some(five)),
        4 => (format!("ink = {{ version = \"{r}\", git = \"https://example.com/ink5\" }}\n"), String::new(), Some(five)),
        5 => (String::new(), format!("[{sect}.ink]\nversion = '{r}'\nfeatures = [\"std\"]\n"), Some(five)),
        6 => ("ink = { path = \"../ink\" }\n".into(), String::new(), Some(true)),
        7 => ("ink = { git = \"https://example.com/ink\", branch = \"v4\" }\n".into(), String::new(), Some(true)),
        8 => ("ink = { features = [\"5\"] }\n".into(), String::new(), Some(false)),
        9 => ("ink = { workspace = true }\n".into(), String::new(), None),
        10 => ("ink.workspace = true\n".into(), String::new(), None),
        12 => ("ink = { workspace = false, features = [\"x\"] }\n".into(), String::new(), Some(false)),
        13 => (String::new(), format!("[{sect}.ink]\nworkspace = false\nversion = \"{r}\"\n"), Some(five)),
        11 => (String::new(), format!("[{sect}.ink]\nworkspace = true\ndefault-features = false\n"), None),
        _ => ("ink = { workspace = true, features = [\"x\"] }\n".into(), String::new(), None),
    }
}

fn package(deps: &(String, String, Option<bool>), ws: Option<&(String, String, Option<bool>)>, ws_lone: bool) -> String {
    let mut s = String::from("[package]\nname = \"p\"\nversion = \"5.0.0\"\n\n[dependencies]\nscale = \"5.1\"\n");
    s += &deps.0;
    s += "other = { version = \"5\" }\n\n";
    s += &deps.1;
    s += "\n[dev-dependencies]\nink_e2e = \"5.0\"\n";
    if let Some(w) = ws {
        s += "\n[workspace]\nmembers = [\"x\"]\n\n[workspace.dependencies]\nfoo = \"5\"\n";
        s += &w.0;
        s += "\n";
        s += &w.1;
    } else if ws_lone {
        s += "\n[workspace]\n";
    }
    s
}

fn workspace(ws: &(String, String, Option<bool>)) -> String {
    format!("[workspace]\nmembers = [\"*\"]\n\n[workspace.dependencies]\nfoo = \"5\"\n{}\n{}", ws.0, ws.1)
}

fn published(ms: &[Message], uri: &str) -> Option<Vec<String>> {
    let mut out = None;
    for m in ms {
        if let Message::Notification(n) = m {
            if n.method == "textDocument/publishDiagnostics" && n.params["uri"] == json!(uri) {
                let mut v: Vec<String> = n.params["diagnostics"].as_array().cloned().unwrap_or_default().iter().map(|d| d["message"].as_str().unwrap_or("").to_string()).collect();
                v.sort();
                out = Some(v);
            }
        }
    }
    out
}

fn verdict(got: &Option<Vec<String>>, v4: &[String], v5: &[String]) -> String {
    match got {
        Some(x) if x[..] == *v5 => "v5".into(),
        Some(x) if x[..] == *v4 => "v4".into(),
        other => format!("{other:?}"),
    }
}

fn write(p: &Path, s: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, s).unwrap();
}

pub fn p08(run: &mut Run) {
    run.rule = "one case per project layout and ink! dependency whose documents are opened; distinct by manifest(s) and layout".into();
    let (v4, v5) = (msgs(Version::V4), msgs(Version::V5));
    if !run.check("probe", v4 != v5, || "the probe text no longer tells the versions apart".into(), || PROBE.into()) {
        return;
    }
    let scratch = Scratch::new("p08");
    let mut c = Client::start(json!({"general": {"positionEncodings": ["utf-8"]}}));
    let n = run.scale(700);
    for i in 0..n {
        let mut rng = run.rng.fork();
        let root = scratch.sub("ws");
        let e = entry(&mut rng, "dependencies", true);
        let wse = entry(&mut rng, "workspace.dependencies", false);
        let inherits = e.2.is_none();
        let lib = *rng.pick(&["lib.rs", "src/lib.rs", "src/main.rs", "src/a/b.rs", "src/a/b/c/d.rs", "lib.rs"]);
        let layout = rng.below(5);
        // where the package lies and who answers for an inherited dependency
        let (pkg, resolved) = match layout {
            0 => (root.join("pkg"), None),
            1 => {
                // its own workspace root
                (root.clone(), Some(true))
            }
            2 => {
                write(&root.join("Cargo.toml"), &workspace(&wse));
                (root.join("pkg"), Some(true))
            }
            3 => {
                write(&root.join("Cargo.toml"), &workspace(&wse));
                (root.join("crates/deep/pkg"), Some(true))
            }
            _ => {
                // a workspace without an ink entry, or a manifest that is not TOML
                write(&root.join("Cargo.toml"), *rng.pick(&["[workspace]\nmembers = []\n", "[workspace\n", "[workspace.dependencies]\nother = \"5\"\n"]));
                (root.join("pkg"), Some(false))
            }
        };
        let own_ws = (layout == 1).then_some(&wse);
        let man = package(&e, own_ws, layout == 0 && rng.chance(1, 2));
        write(&pkg.join("Cargo.toml"), &man);
        let file = pkg.join(lib);
        write(&file, PROBE);
        let want = match (e.2, resolved) {
            (Some(five), _) => five,
            (None, Some(true)) => wse.2.unwrap_or(false),
            (None, _) => false,
        };
        let want = if want { "v5" } else { "v4" };
        let uri = uri_of(&file);
        let desc = format!("layout {layout}, file {lib}\n{man}\n---- workspace Cargo.toml\n{}", std::fs::read_to_string(root.join("Cargo.toml")).unwrap_or_default());
        run.case(&desc, true);
        let got = match c.notify("textDocument/didOpen", open(&uri, "rust", 1, PROBE)) {
            Some(ms) => verdict(&published(&ms, &uri), &v4, &v5),
            None => {
                run.fail("alive", format!("{:?}", c.dead), desc);
                return;
            }
        };
        let clause = if inherits { "inherited requirement" } else { "requirement" };
        run.eq(clause, got.as_str(), want, || desc.clone());
        // while it is open the version stays; opened again, it is looked up again
        let flipped = if want == "v5" { "4.3" } else { "5.0" };
        let other = (format!("ink = \"{flipped}\"\n"), String::new(), Some(flipped == "5.0"));
        if i % 4 == 0 {
            write(&pkg.join("Cargo.toml"), &package(&other, None, false));
            if let Some(ms) = c.notify("textDocument/didChange", change(&uri, 2, &[PROBE])) {
                run.eq("kept while open", verdict(&published(&ms, &uri), &v4, &v5).as_str(), want, || desc.clone());
            }
            c.notify("textDocument/didClose", close(&uri));
            if let Some(ms) = c.notify("textDocument/didOpen", open(&uri, "rust", 3, PROBE)) {
                run.eq("looked up again when opened again", verdict(&published(&ms, &uri), &v4, &v5), if want == "v5" { "v4".to_string() } else { "v5".to_string() }, || desc.clone());
            }
        } else if i % 4 == 1 && want == "v4" {
            // after a migration the next two changes look it up again
            let resolve = rng.chance(1, 2);
            if resolve {
                c.ask("codeAction/resolve", json!({"title": "Migrate", "data": {"command": "migrateProject", "uri": uri}}));
            } else {
                c.ask("workspace/executeCommand", json!({"command": "migrateProject", "arguments": [{"uri": uri}]}));
            }
            if rng.chance(1, 2) {
                // the first change may still precede the manifest on disk
                if let Some(ms) = c.notify("textDocument/didChange", change(&uri, 2, &[PROBE])) {
                    run.eq("migration: before the manifest is saved", verdict(&published(&ms, &uri), &v4, &v5).as_str(), want, || desc.clone());
                }
            }
            write(&pkg.join("Cargo.toml"), &package(&other, None, false));
            if let Some(ms) = c.notify("textDocument/didChange", change(&uri, 3, &[PROBE])) {
                run.eq("looked up again after a migration", verdict(&published(&ms, &uri), &v4, &v5), "v5".to_string(), || format!("resolve={resolve} {desc}"));
            }
            // use up what is left
            c.notify("textDocument/didChange", change(&uri, 4, &[PROBE]));
        } else if i % 4 == 2 {
            // another document of the same project and one that is no file of it
            let f2 = pkg.join("src/other.rs");
            write(&f2, PROBE);
            let u2 = uri_of(&f2);
            if let Some(ms) = c.notify("textDocument/didOpen", open(&u2, "rust", 1, PROBE)) {
                run.eq("another document of the project", verdict(&published(&ms, &u2), &v4, &v5).as_str(), want, || desc.clone());
            }
            c.notify("textDocument/didClose", close(&u2));
            for u3 in ["untitled:Untitled-1".to_string(), uri_of(&pkg.join("src/notes.txt")), format!("{uri}.bak")] {
                if let Some(ms) = c.notify("textDocument/didOpen", open(&u3, "rust", 1, PROBE)) {
                    run.eq("not a rust file of a project: version 4", verdict(&published(&ms, &u3), &v4, &v5).as_str(), "v4", || u3.clone());
                }
                c.notify("textDocument/didClose", close(&u3));
            }
        }
        c.notify("textDocument/didClose", close(&uri));
        if let Some(d) = &c.dead {
            run.fail("alive", d.clone(), desc);
            return;
        }
    }
    let _ = Value::Null;
}
