//! P12..P15: executable contracts of the diagnostics.  A generator writes a document together with the diagnostics the rules of ink! ask for
//! (range and severity); the analyzer must give exactly those.
use crate::core::*;
use crate::selectors::blake2b256;
use ink_analyzer::{Analysis, Severity, Version};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Doc {
    pub t: String,
    /// (start, end, what); `warn` ones are warnings
    pub exp: Vec<(usize, usize, bool, &'static str)>,
}

impl Doc {
    pub fn at(&self) -> usize {
        self.t.len()
    }
    pub fn w(&mut self, s: &str) -> &mut Doc {
        self.t += s;
        self
    }
    /// what was written since `from` is reported as an error
    pub fn err(&mut self, from: usize, what: &'static str) {
        let e = self.at();
        self.exp.push((from, e, false, what));
    }
    pub fn warn(&mut self, from: usize, what: &'static str) {
        let e = self.at();
        self.exp.push((from, e, true, what));
    }
    pub fn errs(&mut self, r: (usize, usize), what: &'static str) {
        self.exp.push((r.0, r.1, false, what));
    }
    /// text in which `⟦…⟧` marks what is reported
    pub fn m(&mut self, what: &'static str, s: &str) {
        self.mw(what, s, false)
    }
    pub fn mw(&mut self, what: &'static str, s: &str, warn: bool) {
        // `⟪…⟫` may cross `⟦…⟧`
        let (mut open, mut other) = (vec![], vec![]);
        for c in s.chars() {
            match c {
                '⟦' => open.push(self.at()),
                '⟪' => other.push(self.at()),
                '⟫' => {
                    let f = other.pop().unwrap();
                    let e = self.at();
                    self.exp.push((f, e, warn, what));
                }
                '⟧' => {
                    let f = open.pop().unwrap();
                    let e = self.at();
                    self.exp.push((f, e, warn, what));
                }
                c => self.t.push(c),
            }
        }
    }
}

/// compares what the analyzer reports with what the document expects
pub fn compare(run: &mut Run, doc: &Doc, v: Version, clause: &str) {
    compare_if(run, doc, v, clause, |_| true)
}

/// the same for some of the messages
pub fn compare_if(run: &mut Run, doc: &Doc, v: Version, clause: &str, about: impl Fn(&str) -> bool) {
    let code = doc.t.clone();
    let got = guard(|| Analysis::new(&code, v).diagnostics().into_iter().map(|d| (usize::from(d.range.start()), usize::from(d.range.end()), d.severity == Severity::Warning, d.message)).collect::<Vec<_>>());
    let input = || format!("{v:?}\n{code}");
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            run.fail(&format!("{clause}: panic"), e, input());
            return;
        }
    };
    // of several errors at one place with the same quick fixes only the first is shown, whatever its message
    let have: BTreeSet<_> = got.iter().map(|g| (g.0, g.1, g.2)).collect();
    let got: Vec<_> = got.into_iter().filter(|g| about(&g.3)).collect();
    let want: BTreeMap<_, _> = doc.exp.iter().map(|g| ((g.0, g.1, g.2), g.3)).collect();
    for (k, what) in &want {
        run.check(&format!("{clause}: {what}: not reported"), have.contains(k), || format!("no {} at {:?} {:?}", if k.2 { "warning" } else { "error" }, (k.0, k.1), &code[k.0..k.1]), input);
    }
    for g in &got {
        run.check(&format!("{clause}: reported without reason: {}", g.3.split('`').next().unwrap_or("")), want.contains_key(&(g.0, g.1, g.2)), || format!("{} at {:?} {:?}", g.3, (g.0, g.1), code.get(g.0..g.1)), input);
    }
}

pub fn meta(rng: &mut Rng) -> &'static str {
    if rng.chance(3, 4) {
        ""
    } else {
        *rng.pick(&["/// docs\n", "#[allow(unused)]\n", "/* c */\n\n", "#[cfg(feature = \"x\")]\n", "// #[ink(message)]\n\n"])
    }
}

#[derive(Clone)]
struct Call {
    ctor: bool,
    name: &'static str,
    sel: Option<String>,
    val: Option<u32>,
    prefix: Option<String>,
}

impl Call {
    fn random(rng: &mut Rng, v: Version, special: bool) -> Call {
        let ctor = rng.chance(2, 5);
        let name = *rng.pick(&["new", "flip", "get", "set", "a", "b", "c1", "inc", "transfer", "x"]);
        let mut val = None;
        let sel = match rng.below(if special { 9 } else { 6 }) {
            0 => {
                let n = *rng.pick(&[1u32, 2, 0xA, 0xCAFEBABE, 0x9BAE9D5E]);
                val = Some(n);
                Some(if rng.chance(1, 2) { format!("{n}") } else { format!("0x{n:X}") })
            }
            6 | 7 => Some("_".to_string()),
            8 if v == Version::V5 => {
                val = Some(0x9BAE9D5E);
                Some("@".to_string())
            }
            _ => None,
        };
        Call { ctor, name, sel, val, prefix: None }
    }
    fn selector(&self) -> u32 {
        self.val.unwrap_or_else(|| {
            let t = match &self.prefix {
                Some(p) => format!("{p}::{}", self.name),
                None => self.name.to_string(),
            };
            let h = blake2b256(t.as_bytes());
            u32::from_be_bytes([h[0], h[1], h[2], h[3]])
        })
    }
    fn wild(&self) -> bool {
        self.sel.as_deref() == Some("_")
    }
    fn compl(&self) -> bool {
        // the value ink! uses for `@` means the same
        self.val == Some(0x9BAE9D5E)
    }
}

/// ranges of one written callable: (whole, name, selector value, selector argument, declaration)
#[derive(Clone)]
struct Placed {
    c: Call,
    whole: (usize, usize),
    name: (usize, usize),
    value: Option<(usize, usize)>,
    arg: Option<(usize, usize)>,
    decl: (usize, usize),
}

fn callable(rng: &mut Rng, d: &mut Doc, c: &Call, in_trait: bool, v: Version) -> Placed {
    let m = meta(rng);
    // comments before an item are trivia outside of it
    let inside = m.starts_with("///") || m.starts_with('#');
    if !inside {
        d.w(m);
    }
    let s = d.at();
    if inside {
        d.w(m);
    }
    let kind = if c.ctor { "constructor" } else { "message" };
    let (mut value, mut arg) = (None, None);
    let put = |d: &mut Doc, t: &str| -> ((usize, usize), (usize, usize)) {
        let a = d.at();
        d.w("selector = ");
        let b = d.at();
        d.w(t);
        ((a, d.at()), (b, d.at()))
    };
    d.w("#[ink(");
    d.w(kind);
    if let Some(t) = &c.sel {
        d.w(if rng.chance(1, 5) { ")]\n#[ink(" } else { ", " });
        let (a, b) = put(d, t);
        arg = Some(a);
        value = Some(b);
    }
    if rng.chance(1, 4) {
        d.w(", payable");
    }
    d.w(")]");
    d.w(if rng.chance(1, 2) { "\n        " } else { " " });
    let dl = d.at();
    if !in_trait {
        d.w("pub ");
    }
    d.w("fn ");
    let n = d.at();
    d.w(c.name);
    let ne = d.at();
    d.w(if c.ctor { "() -> Self {" } else { *rng.pick(&["(&self) {", "(&mut self, a: u8) -> bool {", "(&self) -> Result<u8, ()> {"]) });
    let de = d.at();
    d.w(if rng.chance(1, 2) { "}" } else { " todo!() }" });
    let _ = v;
    Placed { c: c.clone(), whole: (s, d.at()), name: (n, ne), value, arg, decl: (dl, de) }
}

fn contract(rng: &mut Rng, d: &mut Doc, v: Version, faults: usize, idx: usize, calls: &mut Vec<Placed>) {
    // what is wrong with this contract
    let mut f = BTreeSet::new();
    for _ in 0..faults {
        f.insert(*rng.pick(&["no storage", "storages", "no ctor", "no msg", "nested storage", "nested event", "nested impl", "free fn", "dup", "wild", "scope", "form"]));
    }
    let m = meta(rng);
    let inside = m.starts_with("///") || m.starts_with('#');
    if !inside {
        d.w(m);
    }
    let start = d.at();
    if inside {
        d.w(m);
    }
    d.w("#[ink::contract]\n");
    let decl = d.at();
    let name = format!("c{idx}");
    if f.contains("form") {
        match rng.below(3) {
            0 => {
                d.w(&format!("mod {name};"));
                d.err(decl, "contract that is not inline");
            }
            k => {
                // not a mod: declarations are not looked for
                d.w(&if k == 1 { format!("pub struct {name} {{}}") } else { format!("fn {name}() {{}}") });
                d.err(start, "contract that is not a mod");
            }
        }
        if idx > 0 {
            d.err(start, "further contract");
        }
        return;
    }
    d.w(if rng.chance(1, 3) { "pub mod " } else { "mod " });
    d.w(&name).w(" {");
    let decl = (decl, d.at());
    d.w("\n");
    // the elements, in random order
    let mut el: Vec<(&str, bool)> = vec![];
    let n = if f.contains("no storage") { 0 } else if f.contains("storages") { rng.range(2, 3) } else { 1 };
    for _ in 0..n {
        el.push(("storage", f.contains("nested storage") && rng.chance(1, 2)));
    }
    for _ in 0..rng.below(3) {
        el.push(("event", f.contains("nested event")));
    }
    for _ in 0..rng.range(1, 3) {
        el.push(("impl", f.contains("nested impl") && rng.chance(2, 3)));
    }
    if f.contains("free fn") {
        el.push(("fn", rng.chance(1, 3)));
    }
    if f.contains("scope") {
        el.push(("scope", rng.chance(1, 3)));
    }
    for _ in 0..rng.below(3) {
        el.push(("other", rng.chance(1, 3)));
    }
    for i in (1..el.len()).rev() {
        let j = rng.below(i + 1);
        el.swap(i, j);
    }
    // callables, their names made different unless they should clash
    let special = f.contains("wild");
    let mut seen: BTreeSet<(bool, u32)> = BTreeSet::new();
    let mut first = (false, false);
    let mut placed: Vec<Placed> = vec![];
    let mut storages = 0;
    let nimpl = el.iter().filter(|e| e.0 == "impl").count();
    let mut left = nimpl;
    for (k, nested) in el {
        d.w("    ");
        if nested {
            d.w("mod inner {\n        ");
        }
        let mut pick = |rng: &mut Rng, trait_: Option<&str>, force: Option<bool>| -> Option<Call> {
            for _ in 0..60 {
                let mut c = Call::random(rng, v, special);
                c.prefix = trait_.map(|t| t.to_string());
                if let Some(b) = force {
                    c.ctor = b;
                }
                if c.ctor && (f.contains("no ctor")) || !c.ctor && f.contains("no msg") {
                    continue;
                }
                if c.compl() && c.ctor {
                    continue;
                }
                let key = (c.ctor, c.selector());
                if seen.contains(&key) && !(f.contains("dup") && rng.chance(1, 2)) {
                    continue;
                }
                seen.insert(key);
                if c.ctor {
                    first.0 = true
                } else {
                    first.1 = true
                }
                return Some(c);
            }
            None
        };
        match k {
            "storage" => {
                let s = d.at();
                d.w(if rng.chance(1, 4) { "#[derive(Default)]\n    " } else { "" });
                d.w("#[ink(storage)]\n    pub struct S").w(&storages.to_string()).w(if rng.chance(1, 2) { " { a: u8 }" } else { " {}" });
                if storages > 0 {
                    d.err(s, "further storage");
                }
                if nested {
                    d.err(s, "storage outside the root");
                }
                storages += 1;
            }
            "event" => {
                let s = d.at();
                d.w("#[ink(event)]\n    pub struct E").w(&s.to_string()).w(" { #[ink(topic)] a: u8 }");
                if nested {
                    d.err(s, "event outside the root");
                }
            }
            "impl" => {
                left -= 1;
                let s = d.at();
                let tr = if rng.chance(1, 4) { Some(*rng.pick(&["Flip", "Tr"])) } else { None };
                match tr {
                    Some(t) => d.w(&format!("impl {t} for C {{\n")),
                    None => d.w("impl C {\n"),
                };
                let e = d.at();
                let mut cs: Vec<Call> = vec![];
                if left == 0 {
                    // the last one has what is still missing
                    for b in [true, false] {
                        let has = if b { placed.iter().any(|p| p.c.ctor) } else { placed.iter().any(|p| !p.c.ctor) };
                        if !has {
                            cs.extend(pick(rng, tr, Some(b)));
                        }
                    }
                }
                for _ in 0..rng.below(4) {
                    cs.extend(pick(rng, tr, None));
                }
                let _ = e;
                let any = !cs.is_empty();
                for c in cs {
                    d.w("        ");
                    placed.push(callable(rng, d, &c, tr.is_some(), v));
                    d.w("\n");
                    if rng.chance(1, 5) {
                        d.w("        fn helper() {}\n");
                    }
                }
                d.w("    }");
                if nested && any {
                    d.err(s, "impl outside the root");
                }
            }
            "fn" => {
                if let Some(c) = pick(rng, None, None) {
                    let p = callable(rng, d, &c, false, v);
                    d.errs(p.whole, "callable outside an impl");
                    placed.push(p);
                }
            }
            "scope" => {
                let s = d.at();
                d.w(*rng.pick(&["#[ink(topic)]", "#[ink(function = 1)]", "#[ink(handle_status = true)]"]));
                d.err(s, "attribute in a wrong place");
                d.w(*rng.pick(&[" struct T {}", " fn t() {}"]));
            }
            _ => {
                d.w(*rng.pick(&["#[ink::test] fn t() {}", "pub struct Plain { a: u8 }", "impl Plain { pub fn f(&self) {} }", "type T = u8;", "#[ink::storage_item] struct I { a: u8 }", "use ink::prelude;", "// c\n", "fn free() {}"]));
            }
        }
        if nested {
            d.w("\n    }");
        }
        d.w("\n");
    }
    d.w("}");
    if storages == 0 {
        d.errs(decl, "missing storage");
    }
    if idx > 0 {
        d.err(start, "further contract");
    }
    if !placed.iter().any(|p| p.c.ctor) {
        d.errs(decl, "missing constructor");
    }
    if !placed.iter().any(|p| !p.c.ctor) {
        d.errs(decl, "missing message");
    }
    for ctor in [true, false] {
        let g: Vec<&Placed> = placed.iter().filter(|p| p.c.ctor == ctor).collect();
        let mut seen = BTreeSet::new();
        let mut wild = false;
        for p in &g {
            if !seen.insert(p.c.selector()) {
                d.errs(p.value.unwrap_or(p.name), "same selector");
            }
            if p.c.wild() {
                if wild {
                    d.errs(p.arg.unwrap(), "further wildcard");
                }
                wild = true;
            }
        }
    }
    if v == Version::V5 {
        let ms: Vec<&Placed> = placed.iter().filter(|p| !p.c.ctor).collect();
        let w = ms.iter().any(|p| p.c.wild());
        let mut seen = false;
        if w && ms.iter().all(|p| p.c.wild()) {
            d.errs(decl, "wildcard without complement");
        }
        for p in ms.iter().filter(|p| !p.c.wild()) {
            match (w, p.c.compl()) {
                (true, true) => {
                    if seen {
                        d.errs(p.arg.unwrap(), "further complement");
                    }
                }
                (true, false) => d.errs(p.arg.unwrap_or(p.decl), "message besides wildcard and complement"),
                (false, true) => d.errs(p.arg.unwrap(), "complement without wildcard"),
                _ => {}
            }
            seen |= p.c.compl();
        }
    }
    calls.extend(placed);
}

pub fn p12(run: &mut Run) {
    run.rule = "files of several contracts with random parts, each with random structural faults (missing or further storage, constructors, messages, parts outside the root, callables outside impls, equal selectors, wildcards and complements, attributes in wrong places, contracts that are no inline mod); both versions; non-trivial: at least one fault or two impls".into();
    for i in 0..run.scale(450) {
        let mut rng = run.rng.fork();
        let v = if rng.chance(1, 2) { Version::V4 } else { Version::V5 };
        let mut d = Doc::default();
        let n = match rng.below(10) {
            0 => 0,
            1 => 3,
            2 => 2,
            _ => 1,
        };
        let mut calls = vec![];
        let faults = if i % 4 == 0 { 0 } else { rng.range(1, 3) };
        for k in 0..n {
            if rng.chance(1, 6) {
                d.w("use ink::prelude::vec;\n\n");
            }
            contract(&mut rng, &mut d, v, faults, k, &mut calls);
            d.w("\n\n");
        }
        if rng.chance(1, 5) {
            let s = d.at();
            let a = *rng.pick(&["#[ink(storage)]", "#[ink(event)]", "#[ink(topic)]", "#[ink(function = 1)]"]);
            d.w(a);
            d.err(s, "attribute outside a contract");
            d.w(" pub struct Outside {}\n");
        }
        run.case(&d.t, faults > 0 || calls.len() > 2);
        compare(run, &d, v, if faults > 0 { "faulty" } else { "valid" });
    }
    for (name, code) in CORPUS {
        let v = if name.starts_with("v4") { Version::V4 } else { Version::V5 };
        let d = Doc { t: code.to_string(), exp: vec![] };
        run.case(code, true);
        compare(run, &d, v, "released ink! example");
    }
}

/// a function with random modifiers, the wrong ones marked; `decl` is what is wrong with the declaration as a whole
fn shaped_fn(rng: &mut Rng, attr: &str, name: &str, ctor: bool, trait_impl: bool, in_trait: bool, p: (usize, usize)) -> String {
    let mut bad = |rng: &mut Rng| rng.chance(p.0, p.1);
    let mut head = String::new();
    let mut decl_bad = false;
    let vis = if in_trait || trait_impl {
        if !in_trait && bad(rng) { *rng.pick(&["pub", "pub(crate)", "pub(super)"]) } else { "" }
    } else if bad(rng) {
        *rng.pick(&["", "pub(crate)", "pub(super)", "pub(in crate)", "crate"])
    } else {
        "pub"
    };
    match vis {
        "" if !in_trait && !trait_impl => decl_bad = true,
        "" => {}
        "pub" if !trait_impl => head += "pub ",
        "crate" => head += "⟦pub( crate )⟧ ",
        v => head += &format!("⟦{v}⟧ "),
    }
    for t in ["const", "async", "unsafe", "extern \"C\"", "extern"] {
        if (t != "extern" || !head.contains("extern")) && bad(rng) && rng.chance(1, 2) {
            head += &format!("⟦{t}⟧ ");
        }
    }
    head += "fn ";
    head += name;
    if bad(rng) {
        head += *rng.pick(&["⟦<T>⟧", "⟦<'a>⟧", "⟦<const N: usize>⟧", "⟦<>⟧", "⟦<T: Clone, U>⟧"]);
    }
    let mut ps: Vec<&str> = vec![];
    if ctor {
        if bad(rng) {
            ps.push(*rng.pick(&["⟦&self⟧", "⟦self⟧", "⟦&mut self⟧", "⟦mut self⟧", "⟦self: Box<Self>⟧"]));
        }
    } else if bad(rng) {
        decl_bad = true;
        ps.extend(*rng.pick(&[None, Some("self"), Some("mut self"), Some("self: &Self"), Some("this: &Self")]));
    } else {
        ps.push(*rng.pick(&["&self", "&mut self", "&'a self", "& self", "&'a mut self"]));
    }
    for _ in 0..rng.below(3) {
        ps.push(*rng.pick(&["a: u8", "b: Vec<u8>", "(c, d): (u8, u8)", "_: [u8; 32]"]));
    }
    if bad(rng) {
        ps.push("⟦...⟧");
    }
    head += &format!("({}{})", ps.join(", "), if rng.chance(1, 6) && !ps.is_empty() { "," } else { "" });
    if ctor {
        if bad(rng) {
            decl_bad = true;
        } else {
            head += *rng.pick(&[" -> Self", " -> Result<Self, ()>", " -> u8", "-> Self", " -> /* c */ Self"]);
        }
    } else if bad(rng) {
        head += *rng.pick(&[" -> ⟦Self⟧", "-> ⟦Self⟧ ", " -> /* c */ ⟦Self⟧"]);
    } else {
        head += *rng.pick(&["", " -> u8", " -> Option<Self>", " -> Result<(), ()>", " -> (Self, Self)", " -> self::Self_", " -> &Self"]);
    }
    if rng.chance(1, 6) && !head.ends_with('&') {
        head += " where Self: Sized";
    }
    let body = if in_trait && !bad(rng) {
        if decl_bad { head = format!("⟦{head};⟧"); return format!("{attr}{head}") }
        ";".to_string()
    } else {
        let b = *rng.pick(&["}", " todo!() }", "\n        // #[ink(event)]\n        loop {}\n    }"]);
        if in_trait {
            // a default implementation is reported as well
            return if decl_bad { format!("{attr}⟪{head} ⟦{{⟫{b}⟧") } else { format!("{attr}{head} ⟦{{{b}⟧") };
        }
        if decl_bad {
            return format!("{attr}⟦{head} {{⟧{b}");
        }
        format!(" {{{b}")
    };
    format!("{attr}{head}{body}")
}

fn sp(rng: &mut Rng) -> &'static str {
    *rng.pick(&[" ", "\n    ", " /* c */ "])
}

pub fn p13(run: &mut Run) {
    run.rule = "contracts, trait definitions, events, storage items and tests whose items have random wrong shapes (qualifiers, generics, receivers, return types, visibilities, wrong kinds of items, attributes inside, supertraits, associated items); both versions; non-trivial: something is reported".into();
    for i in 0..run.scale(900) {
        let mut rng = run.rng.fork();
        let rng = &mut rng;
        let v = if rng.chance(1, 2) { Version::V4 } else { Version::V5 };
        let mut d = Doc::default();
        // how often something is wrong
        let p = if i % 6 == 0 { (0, 1) } else { *rng.pick(&[(1, 12), (1, 6), (1, 3)]) };
        let bad = |rng: &mut Rng| rng.chance(p.0, p.1);
        let mut parts: Vec<String> = vec![];
        // storage
        let attr = *rng.pick(&["#[ink(storage)]", "#[derive(Default)] #[ink(storage)]", "/// d\n    #[ink(storage)]"]);
        parts.push(if bad(rng) {
            match rng.below(4) {
                0 => format!("⟦{attr}{}struct S {{}}⟧", sp(rng)),
                1 => format!("{attr}{}⟦pub(crate)⟧ struct S(u8);", sp(rng)),
                2 => format!("⟦{attr}{}pub enum S {{ A }}⟧", sp(rng)),
                _ => format!("⟦{attr}{}pub type S = u8;⟧", sp(rng)),
            }
        } else if bad(rng) {
            format!("{attr}{}pub struct S {{ ⟦{}⟧ a: u8 }}", sp(rng), rng.pick(&["#[ink(storage)]", "#[ink(message)]", "#[ink::test]", "#[ink(payable)]", "#[ink::storage_item]"]))
        } else {
            format!("{attr}{}{}", sp(rng), rng.pick(&["pub struct S {}", "pub struct S { a: u8, pub(crate) b: Vec<u8> }", "pub struct S(u8);", "pub struct S<T> { a: T }", "pub struct S;"]))
        });
        // events
        for k in 0..rng.below(3) {
            let attr = *rng.pick(if v == Version::V5 { &["#[ink(event)]", "#[ink::event]"][..] } else { &["#[ink(event)]"][..] });
            let mut fields = vec![];
            for f in 0..rng.below(4) {
                let mut s = String::new();
                for _ in 0..2 {
                    if bad(rng) {
                        s += *rng.pick(&["⟦#[cfg(test)]⟧ ", "⟦#[cfg(feature = \"x\")]⟧\n", "⟦#[cfg(any())]⟧ "]);
                    }
                }
                s += match rng.below(5) {
                    0 => "#[ink(topic)] ",
                    1 => "#[cfg_attr(test, x)] ",
                    2 => "/// d\n",
                    _ => "",
                };
                if bad(rng) {
                    s += *rng.pick(&["⟦#[ink(event)]⟧ ", "⟦#[ink(storage)]⟧ ", "⟦#[ink::contract]⟧ ", "⟦#[ink(constructor)]⟧ "]);
                }
                fields.push(format!("{s}f{f}: u8"));
            }
            let gen = if bad(rng) { *rng.pick(&["⟦<T>⟧", "⟦<'a>⟧"]) } else { "" };
            let body = format!("struct E{k}{gen} {{ {} }}", fields.join(", "));
            parts.push(if bad(rng) {
                match rng.below(3) {
                    0 => format!("⟦{attr}{}{body}⟧", sp(rng)),
                    1 => format!("{attr}{}⟦pub(super)⟧ {body}", sp(rng)),
                    _ => format!("⟦{attr}{}pub enum E{k} {{ A }}⟧", sp(rng)),
                }
            } else {
                format!("{attr}{}pub {body}", sp(rng))
            });
        }
        // impls: the first has what a contract needs
        for k in 0..rng.range(1, 3) {
            let tr = k > 0 && rng.chance(1, 2);
            let mut s = String::new();
            if bad(rng) {
                s += "⟦default⟧ ";
            }
            if bad(rng) {
                s += "⟦unsafe⟧ ";
            }
            s += "impl";
            if bad(rng) {
                s += *rng.pick(&["⟦<T>⟧", "⟦<'a>⟧"]);
            }
            s += " ";
            if tr {
                s += *rng.pick(&["Tr for ", "m::Tr<u8> for "]);
            }
            s += match (bad(rng), rng.below(3)) {
                (false, 0) => "S",
                (false, 1) => "super::S",
                (false, _) => "self::c::S",
                (true, 0) => "S⟦<T>⟧",
                (true, 1) => "m⟦<u8>⟧::S⟦<()>⟧",
                _ => "m::S⟦<u8, T>⟧",
            };
            s += " {\n";
            if k > 0 && rng.chance(1, 5) {
                let ns = if rng.chance(1, 2) {
                    if tr { Some("#[ink(impl, ⟦namespace = \"x\"⟧)] ") } else { Some("#[ink(impl, namespace = \"x\")] ") }
                } else {
                    Some("#[ink(impl)] ")
                };
                s = ns.unwrap().to_string() + &s;
            }
            for j in 0..rng.range(if k == 0 { 2 } else { 1 }, 3) {
                let ctor = if k == 0 && j < 2 { j == 0 } else { rng.chance(1, 2) };
                let a = format!("{}#[ink({}{})]{}", rng.pick(&["", "/// d\n", "#[allow(x)] "]), if ctor { "constructor" } else { "message" }, rng.pick(&["", ", payable"]), sp(rng));
                s += &shaped_fn(rng, &a, &format!("f{k}{j}"), ctor, tr, false, p);
                s += "\n";
                if rng.chance(1, 4) {
                    s += "const unsafe fn plain<T>(self) {}\n";
                }
            }
            parts.push(s + "}");
        }
        for j in 1..parts.len() {
            let k = rng.below(j + 1);
            parts.swap(j, k);
        }
        // tests, storage items, trait definitions: in the contract or after it
        let mut extra: Vec<String> = vec![];
        for k in 0..rng.below(4) {
            match rng.below(4) {
                0 => {
                    let a = *rng.pick(&["#[ink::test]", "#[test] #[ink::test]"]);
                    extra.push(if bad(rng) { format!("⟦{a}{}{}⟧", sp(rng), rng.pick(&["struct T {}", "mod t {}", "impl X {}"])) } else { format!("{a}{}{}", sp(rng), rng.pick(&["fn t() {}", "async fn t<T>(self) -> u8 {}", "unsafe fn t() { x() }"])) });
                }
                1 => {
                    let a = "#[ink::storage_item]";
                    extra.push(if bad(rng) {
                        format!("⟦{a}{}{}⟧", sp(rng), rng.pick(&["fn t() {}", "mod t {}", "impl X {}", "trait X {}", "type X = u8;"]))
                    } else if bad(rng) {
                        format!("{a}{}struct I {{ ⟦{}⟧ a: u8 }}", sp(rng), rng.pick(&["#[ink(storage)]", "#[ink(event)]", "#[ink::test]"]))
                    } else {
                        format!("{a}{}{}", sp(rng), rng.pick(&["struct I<T>(T);", "pub enum I { A(u8) }", "pub(crate) union I { a: u8 }", "struct I;"]))
                    });
                }
                _ => {
                    let attr = *rng.pick(&["#[ink::trait_definition]", "/// d\n#[ink::trait_definition]"]);
                    if bad(rng) {
                        extra.push(format!("⟦{attr}{}{}⟧", sp(rng), rng.pick(&["struct T {}", "pub mod t {}", "fn t() {}"])));
                        // no trait, no message in it
                        let l = extra.last_mut().unwrap();
                        let _ = l;
                        continue;
                    }
                    let mut items = vec![];
                    for j in 0..rng.below(4) {
                        if bad(rng) {
                            items.push(rng.pick(&["⟦const C: u8;⟧", "⟦type T;⟧", "⟦m!();⟧", "⟦const C: u8 = 1;⟧", "⟦type T: Clone;⟧", "⟦fn plain(&self);⟧", "/// d\n⟦fn plain();⟧"]).to_string().replace("/// d\n⟦", "/// d\n⟦"));
                        }
                        let wild = bad(rng);
                        let a = if wild { format!("#[ink(message, ⟦selector = _⟧)]{}", sp(rng)) } else { format!("#[ink(message{})]{}", rng.pick(&["", ", payable", ", selector = 1"]), sp(rng)) };
                        items.push(shaped_fn(rng, &a, &format!("t{k}{j}"), false, false, true, p));
                    }
                    let any = items.iter().any(|t| t.contains("message"));
                    let mut head = String::new();
                    let mut whole = false;
                    if bad(rng) {
                        match rng.below(3) {
                            0 => head += "⟦pub(crate)⟧ ",
                            1 => head += "⟦pub(self)⟧ ",
                            _ => whole = true,
                        }
                    } else {
                        head += "pub ";
                    }
                    if bad(rng) {
                        head += "⟦unsafe⟧ ";
                    }
                    if bad(rng) {
                        head += "⟦auto⟧ ";
                    }
                    head += &format!("trait T{k}");
                    if bad(rng) {
                        head += *rng.pick(&["⟦<T>⟧", "⟦<'a>⟧"]);
                    }
                    if bad(rng) {
                        head += *rng.pick(&["⟦: Clone⟧", " ⟦: A + B⟧", "⟦: 'static⟧"]);
                    }
                    let head = if any { format!("{head} {{") } else { format!("⟦{head} {{⟧") };
                    let body = format!("{attr}{}{head}\n    {}\n}}", sp(rng), items.join("\n    "));
                    extra.push(if whole { format!("⟦{body}⟧") } else { body });
                }
            }
        }
        let mut text = String::from("#[ink::contract]\nmod c {\n");
        let inside = rng.chance(1, 2);
        for q in &parts {
            text += &format!("    {q}\n");
        }
        if inside {
            for q in &extra {
                text += &format!("    {q}\n");
            }
        }
        text += "}\n\n";
        if !inside {
            for q in &extra {
                text += &format!("{q}\n\n");
            }
        }
        d.m("shape", &text);
        run.case(&d.t, !d.exp.is_empty());
        compare(run, &d, v, "shapes");
    }
}

/// a value for the argument and whether ink! accepts it there
fn arg_text(rng: &mut Rng, name: &str, v: Version, bad: bool) -> String {
    let eq = *rng.pick(&[" = ", "=", " =", "= ", "\n = "]);
    let good: &[&str] = match name {
        "env" | "environment" | "sandbox" => &["crate::Env", "crate::Env", "ink::env::DefaultEnvironment"],
        "keep_attr" | "additional_contracts" => &["\"foo, bar\"", "\"\"", "r\"a\"", "r#\"a\"#"],
        "namespace" => &["\"ns\"", "\"_x\"", "\"a1\"", "r\"ns\""],
        "signature_topic" => &["\"1111111111111111111111111111111111111111111111111111111111111111\"", "\"0x1111111111111111111111111111111111111111111111111111111111111111\"", "\"aBcDeF1111111111111111111111111111111111111111111111111111111111\""],
        "url" => &["\"ws://127.0.0.1:9944\"", "\"wss://a.b\"", "\"x://\""],
        "handle_status" | "derive" => &["true", "false"],
        "extension" if v == Version::V4 => &["1", "0xFFFFFFFF", "4294967295", "65536"],
        "extension" | "function" => &["1", "0xFFFF", "65535", "0b11"],
        "selector" => &["90071", "0xCAFEBABE", "4294967295", "0b1_0111"],
        _ => &[""],
    };
    let wrong: &[&str] = match name {
        "env" | "environment" | "sandbox" => &["\"crate::Env\"", "1", "true", ""],
        "keep_attr" | "additional_contracts" => &["1", "true", "foo", "crate::a", ""],
        "namespace" => &["\"a b\"", "\"1a\"", "1", "ns", "\"\"", "\"a::b\"", ""],
        "signature_topic" => &["\"11\"", "\"g111111111111111111111111111111111111111111111111111111111111111\"", "1", "x", "\"11111111111111111111111111111111111111111111111111111111111111111\"", ""],
        "url" => &["\"127.0.0.1\"", "1", "ws", "\"\"", "\"a:/b\"", ""],
        "handle_status" | "derive" => &["\"true\"", "1", "yes", ""],
        "extension" if v == Version::V4 => &["\"1\"", "4294967296", "true", "x", ""],
        "extension" | "function" => &["\"1\"", "65536", "0x1FFFF", "true", "x", ""],
        "selector" => &["\"1\"", "4294967296", "true", "x", ""],
        _ => &["1", "true", "\"a\"", "x"],
    };
    if bad {
        let w = *rng.pick(wrong);
        if w.is_empty() {
            return format!("⟦{name}⟧");
        }
        // `name = ` without a value is outside: how it is recovered is P09's business
        return format!("⟦{name}{eq}{w}⟧");
    }
    let g = *rng.pick(good);
    if g.is_empty() {
        name.to_string()
    } else {
        format!("{name}{eq}{g}")
    }
}

/// `#[<path>(args)]`, perhaps with unknown or repeated arguments, spread over several attributes
fn attr_text(rng: &mut Rng, path: &str, first: Option<&str>, names: &[&str], v: Version, p: (usize, usize), mw: &mut Vec<(String, bool)>) {
    let bad = |rng: &mut Rng| rng.chance(p.0, p.1);
    let mut chosen: Vec<&str> = vec![];
    for n in names {
        if rng.chance(1, 2) {
            chosen.push(n);
        }
    }
    for j in 1..chosen.len() {
        let k = rng.below(j + 1);
        chosen.swap(j, k);
    }
    let mut args: Vec<(String, bool)> = vec![];
    if let Some(f) = first {
        args.push((if path == "ink" && bad(rng) && f != "message" && f != "constructor" { format!("⟦{f} = {}⟧", rng.pick(&["1", "true", "\"x\""])) } else { f.to_string() }, false));
    }
    let mut dups = vec![];
    for n in &chosen {
        let b = bad(rng);
        args.push((arg_text(rng, n, v, b), false));
        if *n != "backend" && bad(rng) {
            dups.push(arg_text(rng, n, v, false));
        }
    }
    if bad(rng) {
        args.push((rng.pick(&["‼⟦xyz⟧", "‼⟦xyz = 1⟧", "‼⟦storag⟧", "‼⟦Payable⟧", "‼⟦xyz = \"a, b\"⟧"]).to_string(), true));
    }
    for d in dups {
        args.push((format!("⟦{d}⟧"), false));
    }
    mw.push((format!("#[{path}"), false));
    if !args.is_empty() {
        mw.push(("(".into(), false));
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            mw.push(a);
            if i + 1 < n {
                if path == "ink" && rng.chance(1, 8) && n > 1 && false {
                    mw.push((")] #[ink(".into(), false));
                } else {
                    mw.push((rng.pick(&[", ", ",", " , ", ",\n    "]).to_string(), false));
                }
            }
        }
        mw.push((")".into(), false));
    }
    mw.push((rng.pick(&["] ", "]\n    ", "]"]).to_string(), false));
}

pub fn p14(run: &mut Run) {
    run.rule = "contracts with all kinds of ink! items whose attributes carry every argument with right and wrong values, unknown arguments and macros, repeated arguments and macros (in one attribute and across several), and `__ink_` identifiers in code, types, patterns and macro calls; both versions; non-trivial: something is reported".into();
    for i in 0..run.scale(450) {
        let mut rng = run.rng.fork();
        let rng = &mut rng;
        let v = if rng.chance(1, 2) { Version::V4 } else { Version::V5 };
        let v5 = v == Version::V5;
        let p = if i % 6 == 0 { (0, 1) } else { *rng.pick(&[(1, 12), (1, 6), (1, 3)]) };
        let bad = |rng: &mut Rng| rng.chance(p.0, p.1);
        // (text with marks, warnings?)
        let mut t: Vec<(String, bool)> = vec![];
        let w = |t: &mut Vec<(String, bool)>, s: &str| t.push((s.to_string(), false));
        attr_text(rng, "ink::contract", None, &["env", "keep_attr"], v, p, &mut t);
        w(&mut t, "mod c {\n    ");
        attr_text(rng, "ink", Some("storage"), &[], v, p, &mut t);
        w(&mut t, "pub struct S { a: u8 }\n    ");
        for k in 0..rng.below(3) {
            let evs: &[&str] = if v5 { if rng.chance(1, 2) { &["anonymous"] } else { &["signature_topic"] } } else { &["anonymous"] };
            if v5 && rng.chance(1, 2) {
                attr_text(rng, "ink::event", None, evs, v, p, &mut t);
            } else {
                attr_text(rng, "ink", Some("event"), evs, v, p, &mut t);
            }
            w(&mut t, &format!("pub struct Ev{k} {{ "));
            if rng.chance(1, 2) {
                attr_text(rng, "ink", Some("topic"), &[], v, p, &mut t);
            }
            w(&mut t, "a: u8 }\n    ");
        }
        w(&mut t, "impl S {\n        ");
        attr_text(rng, "ink", Some("constructor"), &["default", "payable", "selector"], v, p, &mut t);
        w(&mut t, "pub fn new() -> Self { S {} }\n        ");
        attr_text(rng, "ink", Some("message"), &["default", "payable", "selector"], v, p, &mut t);
        w(&mut t, "pub fn m(&self) { ");
        for _ in 0..rng.below(3) {
            let id = if bad(rng) { *rng.pick(&["⟦__ink_a⟧", "⟦__ink_⟧", "⟦__ink_fooBar⟧"]) } else { *rng.pick(&["a", "_ink_a", "x__ink_", "__inka", "__INK_a", "ink_a"]) };
            w(&mut t, &match rng.below(7) {
                0 => format!("let {id} = 1; "),
                1 => format!("f::<{id}>(); "),
                2 => format!("m!({id}, '__ink_l, \"__ink_s\"); "),
                3 => format!("{id}(|x| x.{id}); "),
                4 => format!("struct {id}; "),
                5 => format!("let _ = \"__ink_s\"; // __ink_c\n if let Some({id}) = a {{ {id}::b; }} "),
                _ => format!("'__ink_l: loop {{ {id}!(); }} "),
            });
        }
        w(&mut t, "}\n    }\n    ");
        if rng.chance(1, 2) {
            attr_text(rng, "ink", Some("impl"), &["namespace"], v, p, &mut t);
            let dup = if bad(rng) {
                *rng.pick(&["#[ink(message, payable)] #[ink(⟦payable⟧)]", "#[ink(message)] #[ink(payable)] #[ink(default)]\n    #[ink(selector = 3, ⟦payable⟧)]", "#[ink(message)] #[ink(payable, default)] #[ink(⟦default⟧)]"])
            } else {
                *rng.pick(&["#[ink(message)]", "#[ink(message)] #[ink(payable)]", "#[ink(message)] #[ink(payable, default)] #[ink(selector = 3)]"])
            };
            w(&mut t, &format!("impl S {{ {dup} pub fn m2(&self) {{}} }}\n    "));
        }
        if rng.chance(1, 2) {
            attr_text(rng, "ink::storage_item", None, &["derive"], v, p, &mut t);
            w(&mut t, "struct I;\n    ");
        }
        if rng.chance(1, 3) {
            if bad(rng) {
                t.push((rng.pick(&["#[ink::⟦xyz⟧] ", "#[ink::⟦Contract⟧]\n    ", "#[ink::⟦xyz⟧(a = 1)] ", "#[ink::⟦messages⟧]"]).to_string().replace("(a = 1)", "(⟦a = 1⟧)"), true));
            }
            w(&mut t, "fn plain() {}\n    ");
            if bad(rng) {
                t.push((rng.pick(&["#[ink(⟦xyz⟧)] ", "#[ink(⟦⟦xyz⟧ = 1⟧)]\n    ", "#[ink(⟦⟦xyz⟧ = \"s\"⟧)] "]).to_string(), true));
                w(&mut t, "fn plain2() {}\n    ");
            }
        }
        if rng.chance(1, 2) {
            t.push((format!("#[ink::test] {}fn t() {{}}\n    ", if bad(rng) { "⟦#[ink::test]⟧\n    " } else { "#[test] " }), false));
        }
        if v5 && rng.chance(1, 3) {
            t.push(("#[ink::scale_derive(Encode, Decode".into(), false));
            if bad(rng) {
                t.push((rng.pick(&[", ⟦Encode⟧", ", ⟦Decode⟧", ", ⟦TypeInfo = 1⟧"]).to_string(), false));
            }
            t.push((")]\n    pub struct Sc;\n    ".into(), false));
        }
        w(&mut t, "#[cfg(test)] mod e2e {\n        ");
        for k in 0..rng.below(3) {
            if v5 {
                let be = |rng: &mut Rng| -> String {
                    match (bad(rng), rng.below(6)) {
                        (false, 0) => "backend(node)".into(),
                        (false, 1) => "backend(runtime_only)".into(),
                        (false, 2) => format!("backend(node({}))", arg_text(rng, "url", v, false)),
                        (false, _) => format!("backend ( runtime_only({}) )", arg_text(rng, "sandbox", v, false)),
                        (true, 0) => "⟦backend⟧".into(),
                        (true, 1) => format!("backend(⟦{}⟧)", rng.pick(&["foo", "url = \"ws://a\"", "foo = 1", "sandbox = a::B"])),
                        (true, 2) => format!("backend(node({}))", arg_text(rng, "url", v, true)),
                        (true, 3) => format!("backend(runtime_only({}))", arg_text(rng, "sandbox", v, true)),
                        (true, 4) => format!("backend(node(⟦{}⟧))", rng.pick(&["sandbox = a::B", "foo", "node"])),
                        _ => format!("⟦backend = {}⟧", rng.pick(&["1", "\"node\"", "true"])),
                    }
                };
                let mut args = vec![];
                if rng.chance(1, 2) {
                    args.push(be(rng));
                }
                if rng.chance(1, 2) {
                    let b = bad(rng);
                    args.push(arg_text(rng, "environment", v, b));
                    if bad(rng) {
                        args.push(format!("⟦{}⟧", arg_text(rng, "environment", v, false)));
                    }
                }
                if args.is_empty() {
                    w(&mut t, "#[ink_e2e::test] ");
                } else {
                    w(&mut t, &format!("#[ink_e2e::test({})]\n        ", args.join(", ")));
                }
            } else {
                attr_text(rng, "ink_e2e::test", None, &["additional_contracts", "environment", "keep_attr"], v, p, &mut t);
            }
            w(&mut t, &format!("async fn t{k}() {{}}\n        "));
        }
        w(&mut t, "}\n}\n");
        if rng.chance(1, 2) {
            attr_text(rng, "ink::trait_definition", None, &["namespace", "keep_attr"], v, p, &mut t);
            w(&mut t, "pub trait Y { ");
            attr_text(rng, "ink", Some("message"), &["default", "payable", "selector"], v, p, &mut t);
            w(&mut t, "fn f(&self); }\n");
        }
        if rng.chance(1, 2) {
            let b = bad(rng);
            if v5 {
                let a = arg_text(rng, "extension", v, b);
                w(&mut t, &format!("#[ink::chain_extension({a})]\n"));
            } else {
                w(&mut t, "#[ink::chain_extension] ");
            }
            w(&mut t, "pub trait X { type ErrorCode = Er; #[ink(");
            let b = bad(rng);
            let a = arg_text(rng, if v5 { "function" } else { "extension" }, v, b);
            w(&mut t, &a);
            if rng.chance(1, 2) {
                let b = bad(rng);
                let a = arg_text(rng, "handle_status", v, b);
                w(&mut t, &format!(", {a}"));
                if bad(rng) {
                    let a = arg_text(rng, "handle_status", v, false);
                    w(&mut t, &format!(", ⟦{a}⟧"));
                }
            }
            w(&mut t, ")] fn f(); }\n#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub struct Er; impl ink::env::chain_extension::FromStatusCode for Er {}\n");
        }
        w(&mut t, "pub struct Env; impl ink::env::Environment for Env {}\n");
        if bad(rng) {
            w(&mut t, *rng.pick(&["fn ⟦__ink_top⟧() {}", "mod x { use a::⟦__ink_u⟧; }", "#[⟦__ink_attr⟧] struct Z;"]));
        }
        let mut d = Doc::default();
        for (s, warn) in &t {
            let n = d.exp.len();
            d.mw("argument, attribute or identifier", s.trim_start_matches('‼'), *warn);
            if s.starts_with('‼') {
                // an unknown argument beside a known one is also in conflict with it
                let more: Vec<_> = d.exp[n..].iter().map(|e| (e.0, e.1, false, e.3)).collect();
                d.exp.extend(more);
            }
        }
        compare(run, &d, v, "arguments");
        run.case(&d.t, !d.exp.is_empty());
    }
}

/// the arguments that may stand beside a macro or an argument
fn beside(k: &str, v5: bool) -> &'static [&'static str] {
    match (k, v5) {
        ("!chain_extension", true) => &["extension"],
        ("!contract", _) => &["env", "keep_attr"],
        ("!event", true) | ("event", true) => &["anonymous", "signature_topic"],
        ("event", false) => &["anonymous"],
        ("!storage_item", _) => &["derive"],
        ("!trait_definition", _) => &["keep_attr", "namespace"],
        ("!scale_derive", true) => &["Encode", "Decode", "TypeInfo"],
        ("!test", false) => &["additional_contracts", "environment", "keep_attr"],
        ("!test", true) => &["backend", "environment"],
        ("signature_topic", true) | ("anonymous", _) => &["event"],
        ("impl", _) => &["namespace"],
        ("constructor" | "message", _) => &["default", "payable", "selector"],
        ("env", _) => &["keep_attr"],
        ("extension", false) | ("function", true) => &["handle_status"],
        ("keep_attr", _) => &["env", "namespace"],
        ("namespace", _) => &["keep_attr", "impl"],
        ("handle_status", false) => &["extension"],
        ("handle_status", true) => &["function"],
        ("payable", _) => &["constructor", "default", "message", "selector"],
        ("default", _) => &["constructor", "message", "payable", "selector"],
        ("selector", _) => &["constructor", "default", "message", "payable"],
        _ => &[],
    }
}

/// what an argument that cannot decide an item needs
fn lacks(k: &str, v5: bool) -> &'static [&'static str] {
    match (k, v5) {
        ("environment", _) | ("backend", true) | ("additional_contracts", false) => &["!test"],
        ("anonymous", false) => &["event"],
        ("anonymous" | "signature_topic", true) => &["event", "!event"],
        ("keep_attr", _) => &["!contract", "!trait_definition", "!test"],
        ("handle_status", _) => &["extension"],
        ("namespace", _) => &["!trait_definition", "impl"],
        ("Encode" | "Decode" | "TypeInfo", true) => &["!scale_derive"],
        ("payable" | "default" | "selector", _) => &["constructor", "message"],
        _ => &[],
    }
}

/// what may stand inside an item (not inside another ink! item of it)
fn descendants(k: &str, v5: bool) -> Vec<&'static str> {
    let contract = ["anonymous", "constructor", "default", "event", "impl", "message", "namespace", "payable", "selector", "storage"];
    let contract_macros = ["!chain_extension", "!storage_item", "!test", "!ink_test", "!trait_definition"];
    match (k, v5) {
        ("!contract", true) => contract.iter().chain(&contract_macros).chain(&["signature_topic", "!event", "!scale_derive"]).copied().collect(),
        ("!contract", false) => contract.iter().chain(&contract_macros).copied().collect(),
        ("!chain_extension", true) => vec!["function", "handle_status", "extension", "!scale_derive"],
        ("!chain_extension", false) => vec!["extension", "handle_status"],
        ("impl", true) => vec!["constructor", "default", "message", "payable", "selector", "!scale_derive"],
        ("impl", false) => vec!["constructor", "default", "message", "payable", "selector"],
        ("!trait_definition", true) => vec!["default", "message", "payable", "selector", "!scale_derive"],
        ("!trait_definition", false) => vec!["default", "message", "payable", "selector"],
        _ => vec![],
    }
}

fn entity_arg(k: &str) -> bool {
    matches!(k, "constructor" | "event" | "extension" | "function" | "impl" | "message" | "storage" | "topic")
}

struct At {
    macro_: Option<&'static str>,
    args: Vec<(&'static str, String)>,
}

impl At {
    fn kind(&self) -> String {
        match self.macro_ {
            Some(m) => format!("!{m}"),
            None => self.args.iter().find(|a| entity_arg(a.0)).or(self.args.first()).unwrap().0.to_string(),
        }
    }
}

/// writes attributes and what is wrong with them
fn put_attrs(rng: &mut Rng, d: &mut Doc, attrs: &[At], v5: bool, scope: &str) {
    let kinds: Vec<String> = attrs.iter().map(|a| a.kind()).collect();
    let rank = |k: &String| if k.starts_with('!') { 0 } else if entity_arg(k) { 1 } else { 2 };
    let Some(best) = (0..attrs.len()).min_by_key(|i| (rank(&kinds[*i]), *i)) else { return };
    let pk = kinds[best].clone();
    let mut spans = vec![];
    for a in attrs {
        let s0 = d.at();
        let mut spans1 = vec![];
        d.w(*rng.pick(&["#[", "# [", "#[ "]));
        d.w(&match a.macro_ {
            Some("test") => "ink_e2e::test".to_string(),
            Some(m) => format!("ink::{m}"),
            None => "ink".into(),
        });
        if !a.args.is_empty() {
            d.w(*rng.pick(&["(", " (", "( "]));
            for (i, x) in a.args.iter().enumerate() {
                if i > 0 {
                    d.w(*rng.pick(&[", ", ",", " , ", ",\n        "]));
                }
                let s = d.at();
                d.w(&x.1);
                spans1.push((s, d.at()));
            }
            d.w(")");
        }
        d.w("]");
        spans.push(((s0, d.at()), spans1));
        d.w(*rng.pick(&[" ", "\n        ", "", " /* #[ink(message)] */ "]));
    }
    let find = |n: &str| attrs.iter().enumerate().find_map(|(i, a)| a.args.iter().position(|x| x.0 == n).map(|j| (i, j)));
    let first = best == 0;
    if !scope.is_empty() && !descendants(scope, v5).contains(&&*pk) {
        d.errs(spans[best].0, "not allowed here");
    }
    let need = lacks(&pk, v5);
    let sib = beside(&pk, v5);
    if v5 {
        if matches!(&*pk, "!event" | "event" | "anonymous" | "signature_topic") {
            if let (Some(a), Some(b)) = (find("anonymous"), find("signature_topic")) {
                let m = a.max(b);
                d.errs(spans[m.0].1[m.1], "anonymous beside signature_topic");
            }
        }
        if pk == "!chain_extension" && find("extension").is_none() {
            d.errs(spans[best].0, "missing extension id");
        }
    }
    if need.is_empty() && !first {
        d.errs(spans[best].0, "the deciding attribute is not first");
    }
    if !pk.starts_with('!') && (need.is_empty() || pk == "namespace") && attrs[best].args[0].0 != pk {
        let j = attrs[best].args.iter().position(|x| x.0 == pk).unwrap();
        d.errs(spans[best].1[j], "the deciding argument is not first");
    }
    if !need.is_empty() && pk != "namespace" {
        d.errs(spans[best].0, "incomplete or ambiguous");
    }
    for (i, a) in attrs.iter().enumerate() {
        let k = &kinds[i];
        let fine = if pk.starts_with('!') {
            v5 && ["!scale_derive", "!storage_item"].contains(&&*pk) && ["!scale_derive", "!storage_item"].contains(&&**k)
        } else if k.starts_with('!') {
            need.contains(&&**k)
        } else {
            sib.contains(&&**k)
        };
        if i == best || (i == 0 && !first) || fine {
            for (j, x) in a.args.iter().enumerate() {
                if x.0 != k && !sib.contains(&x.0) && !(v5 && pk == "!test" && ["additional_contracts", "keep_attr"].contains(&x.0)) {
                    d.errs(spans[i].1[j], "argument in conflict");
                }
            }
        } else {
            d.errs(spans[i].0, "attribute in conflict");
        }
    }
}

/// distinct arguments in random order and grouping
fn some_attrs(rng: &mut Rng, macro_: Option<&'static str>, main: Option<&'static str>, good: &[&'static str], bad: &[&'static str], v: Version, p: (usize, usize)) -> Vec<At> {
    let mut pool: Vec<&'static str> = vec![];
    for g in good {
        if rng.chance(1, 2) {
            pool.push(g);
        }
    }
    for b in bad {
        if rng.chance(p.0, p.1 * 3) {
            pool.push(b);
        }
    }
    for j in 1..pool.len() {
        let k = rng.below(j + 1);
        pool.swap(j, k);
    }
    if let Some(m) = main {
        if !(p.0 > 0 && rng.chance(p.0, p.1 * 2)) {
            let at = if rng.chance(p.0, p.1) { rng.below(pool.len() + 1) } else { 0 };
            pool.insert(at, m);
        }
    }
    // another entity may only follow (it would otherwise decide what the item is)
    let main_at = pool.iter().position(|x| Some(*x) == main).unwrap_or(pool.len());
    let mut n = 0;
    pool.retain(|x| {
        n += 1;
        Some(*x) == main || !entity_arg(x) || good.contains(x) || n - 1 > main_at
    });
    let mut out: Vec<At> = vec![];
    let mut last_macro = false;
    if let Some(m) = macro_ {
        out.push(At { macro_: Some(m), args: vec![] });
        last_macro = true;
    }
    for a in pool {
        let text = if entity_arg(a) && a != "extension" && a != "function" { a.to_string() } else { arg_text(rng, a, v, false) };
        // a macro takes its own arguments
        let apart = if last_macro { !good.contains(&a) } else { rng.chance(1, 3) };
        if out.is_empty() || apart {
            out.push(At { macro_: None, args: vec![] });
            last_macro = false;
        }
        out.last_mut().unwrap().args.push((a, text));
    }
    if macro_.is_some() && out.len() > 1 && rng.chance(p.0, p.1 * 2) {
        let n = out.len();
        let k = 1 + rng.below(n - 1);
        out.swap(0, k);
    }
    out
}

pub fn p15(run: &mut Run) {
    run.rule = "contracts, traits and tests whose items carry fitting and conflicting macros and arguments in every order, spread over one or several attributes, incomplete or deprecated, both ink! versions; the errors reported must be exactly those of the rules".into();
    for i in 0..run.scale(450) {
        let mut rng = run.rng.fork();
        let rng = &mut rng;
        let v = if rng.chance(1, 2) { Version::V4 } else { Version::V5 };
        let v5 = v == Version::V5;
        let p = if i % 6 == 0 { (0, 1) } else { *rng.pick(&[(1, 6), (1, 3), (1, 2)]) };
        let mut d = Doc::default();
        let a = some_attrs(rng, Some("contract"), None, &["env", "keep_attr"], &["payable", "anonymous", "namespace", "handle_status"], v, p);
        put_attrs(rng, &mut d, &a, v5, "");
        d.w("mod c {\n    ");
        d.w("#[ink(storage)] pub struct S { a: u8 }\n    ");
        for k in 0..rng.below(3) {
            let good: &[&str] = if !v5 { &["anonymous"] } else if rng.chance(p.0, p.1) { &["anonymous", "signature_topic"] } else { *rng.pick(&[&["anonymous"][..], &["signature_topic"]]) };
            let m = v5 && rng.chance(1, 2);
            let a = some_attrs(rng, m.then_some("event"), (!m).then_some("event"), good, &["payable", "default", "namespace", "keep_attr"], v, p);
            put_attrs(rng, &mut d, &a, v5, "!contract");
            d.w(&format!("pub struct Ev{k} {{ a: u8 }}\n    "));
        }
        d.w("impl S {\n        #[ink(constructor)] pub fn new() -> Self { S {} }\n        #[ink(message)] pub fn m(&self) {}\n        ");
        for k in 0..1 + rng.below(3) {
            let a = some_attrs(rng, None, Some("message"), &["payable", "default"], &["anonymous", "topic", "namespace", "handle_status", "derive", "env"], v, p);
            put_attrs(rng, &mut d, &a, v5, "impl");
            d.w(&format!("pub fn m{k}(&self) {{}}\n        "));
        }
        d.w("}\n    ");
        if rng.chance(1, 2) {
            let a = some_attrs(rng, Some("storage_item"), None, &["derive"], &["payable", "anonymous", "keep_attr"], v, p);
            let mut a = a;
            if v5 && rng.chance(1, 2) {
                let at = if rng.chance(1, 2) || rng.chance(p.0, p.1) { a.len() } else { 0 };
                a.insert(at, At { macro_: Some("scale_derive"), args: vec![("Encode", "Encode".into()), ("TypeInfo", "TypeInfo".into())] });
            }
            put_attrs(rng, &mut d, &a, v5, "!contract");
            d.w("struct I;\n    ");
        }
        d.w("#[cfg(test)] mod e2e {\n        ");
        for k in 0..rng.below(3) {
            let good: &[&str] = if v5 { &["environment"] } else { &["additional_contracts", "environment", "keep_attr"] };
            let a = some_attrs(rng, Some("test"), None, good, &["payable", "anonymous", "namespace"], v, p);
            put_attrs(rng, &mut d, &a, v5, "!contract");
            d.w(&format!("async fn t{k}() {{}}\n        "));
        }
        d.w("}\n}\n");
        if rng.chance(1, 2) {
            let a = some_attrs(rng, Some("trait_definition"), None, &["namespace", "keep_attr"], &["payable", "anonymous", "handle_status"], v, p);
            put_attrs(rng, &mut d, &a, v5, "");
            d.w("pub trait Y { #[ink(message)] fn y(&self);\n    ");
            let a = some_attrs(rng, None, Some("message"), &["payable", "selector", "default"], &["anonymous", "topic", "namespace", "handle_status"], v, p);
            if a.iter().any(|a| a.kind() == "message") {
                put_attrs(rng, &mut d, &a, v5, "!trait_definition");
                d.w("fn z(&self); ");
            }
            d.w("}\n");
        }
        if rng.chance(1, 2) {
            let good: &[&str] = if v5 { &["extension"] } else { &[] };
            let a = some_attrs(rng, Some("chain_extension"), None, good, &["payable", "anonymous", "namespace"], v, p);
            put_attrs(rng, &mut d, &a, v5, "");
            d.w("pub trait X { type ErrorCode = Er;\n    ");
            let a = some_attrs(rng, None, Some(if v5 { "function" } else { "extension" }), &["handle_status"], &["payable", "anonymous", "namespace", "selector"], v, p);
            if !a.is_empty() && a.iter().any(|a| matches!(&*a.kind(), "function" | "extension")) {
                put_attrs(rng, &mut d, &a, v5, "!chain_extension");
                d.w("fn f(); ");
            }
            d.w("}\n#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub struct Er; impl ink::env::chain_extension::FromStatusCode for Er {}\n");
        }
        d.w("pub struct Env; impl ink::env::Environment for Env {}\n");
        compare(run, &d, v, "attributes");
        run.case(&d.t, !d.exp.is_empty());
    }
}

const SCOPED: &[(&str, &str)] = &[
    ("storage", "storage"), ("event", "event"), ("impl", "impl"), ("constructor", "constructor"), ("message", "message"), ("extension", "extension = 1"), ("function", "function = 1"),
    ("topic", "topic"), ("anonymous", "anonymous"), ("payable", "payable"), ("default", "default"), ("selector", "selector = 0x1"), ("namespace", "namespace = \"a\""), ("env", "env = crate::E"),
    ("keep_attr", "keep_attr = \"a\""), ("derive", "derive = true"), ("handle_status", "handle_status = true"), ("?", "xyz"),
    ("!contract", "ink::contract"), ("!trait_definition", "ink::trait_definition"), ("!chain_extension", "ink::chain_extension"), ("!event", "ink::event"), ("!storage_item", "ink::storage_item"),
    ("!ink_test", "ink::test"), ("!scale_derive", "ink::scale_derive(Encode)"), ("!test", "ink_e2e::test"), ("!?", "ink::xyz"),
];

/// writes an item with some attributes; every one of `scopes` says whether it takes what decides the item, `all`: whether each attribute counts
fn stray(rng: &mut Rng, d: &mut Doc, scopes: &[&dyn Fn(&str) -> bool], all: &[&dyn Fn(&str) -> bool], item: &str) {
    let n = 1 + rng.below(3);
    let mut put: Vec<(&str, usize, usize)> = vec![];
    for _ in 0..n {
        let (k, text) = *rng.pick(SCOPED);
        let s = d.at();
        if k.starts_with('!') {
            d.w(&format!("#[{text}]"));
        } else {
            // an argument that does not decide what the attribute is
            let more = if rng.chance(1, 6) && k != "?" { ", xyz" } else if rng.chance(1, 5) && entity_arg(k) { ", topic" } else { "" };
            d.w(&format!("#[ink({text}{more})]"));
        }
        put.push((k, s, d.at()));
        d.w(*rng.pick(&[" ", "\n    ", "", " #[cfg(all())] ", " /* c */ "]));
    }
    d.w(item);
    let rank = |k: &str| if k.starts_with('!') { 0 } else if entity_arg(k) { 1 } else if k == "?" { 3 } else { 2 };
    let best = (0..put.len()).min_by_key(|i| (rank(put[*i].0), *i)).unwrap();
    let known = |k: &str| k != "?" && k != "!?";
    let b = put[best];
    if known(b.0) && scopes.iter().any(|f| !f(b.0)) {
        d.errs((b.1, b.2), "out of place");
    }
    for p in &put {
        if all.iter().any(|f| !f(p.0)) {
            d.errs((p.1, p.2), "nothing may stand here");
        }
    }
}

pub fn p16(run: &mut Run) {
    run.rule = "files whose contracts, impls, callables, traits, chain extensions, events, storage and tests hold items with every ink! attribute, alone and combined, both ink! versions; the scope errors must be exactly those of the rules".into();
    for i in 0..run.scale(400) {
        let mut rng = run.rng.fork();
        let rng = &mut rng;
        let v = if rng.chance(1, 2) { Version::V4 } else { Version::V5 };
        let v5 = v == Version::V5;
        let p = if i % 8 == 0 { (0, 1) } else { *rng.pick(&[(1, 8), (1, 4), (1, 2)]) };
        let mut d = Doc::default();
        let file = |k: &str| k.starts_with('!') && (v5 || !matches!(k, "!event" | "!scale_derive"));
        let table = |k: &'static str| move |x: &str| descendants(k, v5).contains(&x);
        let nothing = |k: &str| k == "?" || k == "!?";
        let derive = |k: &str| k == "?" || k == "!?" || v5 && k == "!scale_derive";
        let topics = |k: &str| k == "topic";
        let (con, imp, tra, cha) = (table("!contract"), table("impl"), table("!trait_definition"), table("!chain_extension"));
        let item = |rng: &mut Rng| *rng.pick(&["fn x() {}\n    ", "struct X;\n    ", "enum X {}\n    ", "type X = u8;\n    "]);
        let some = |rng: &mut Rng| if p.0 == 0 { 0 } else if rng.chance(p.0, p.1) { 1 + rng.below(2) } else { 0 };
        for _ in 0..some(rng) {
            let it = item(rng);
            stray(rng, &mut d, &[&file], &[], it);
        }
        if rng.chance(4, 5) {
            d.w("#[ink::contract] mod c {\n    #[ink(storage)] pub struct S { ");
            for _ in 0..some(rng) {
                stray(rng, &mut d, &[], &[&nothing], "a: u8, ");
            }
            d.w("}\n    ");
            if rng.chance(1, 2) {
                d.w(if v5 && rng.chance(1, 2) { "#[ink::event] pub struct E { " } else { "#[ink(event)] pub struct E { " });
                for _ in 0..some(rng) {
                    stray(rng, &mut d, &[], &[&topics], "a: u8, ");
                }
                d.w("}\n    ");
            }
            for _ in 0..some(rng) {
                let it = item(rng);
                if rng.chance(1, 3) {
                    d.w("mod n { ");
                    stray(rng, &mut d, &[&con], &[], it);
                    d.w("}\n    ");
                } else {
                    stray(rng, &mut d, &[&con], &[], it);
                }
            }
            let marked = rng.chance(1, 2);
            d.w(if marked { "#[ink(impl)] impl S {\n        " } else { "impl S {\n        " });
            for (a, f) in [("constructor", "pub fn new() -> Self"), ("message", "pub fn m(&self)")] {
                d.w(&format!("#[ink({a})] {f} {{ "));
                for _ in 0..some(rng) {
                    let it = item(rng);
                    stray(rng, &mut d, &[], &[&derive], it);
                }
                d.w("}\n        ");
            }
            for _ in 0..some(rng) {
                if marked {
                    stray(rng, &mut d, &[&imp], &[], "fn x() {}\n        ");
                } else {
                    stray(rng, &mut d, &[&imp, &con], &[], "fn x() {}\n        ");
                }
            }
            d.w("}\n    #[ink::test] fn t() { ");
            for _ in 0..some(rng) {
                let it = item(rng);
                stray(rng, &mut d, &[], &[&derive], it);
            }
            d.w("}\n}\n");
        }
        if rng.chance(2, 3) {
            d.w("#[ink::trait_definition] pub trait T { #[ink(message)] fn m(&self); ");
            for _ in 0..some(rng) {
                stray(rng, &mut d, &[&tra], &[], "fn x(); ");
            }
            d.w("}\n");
        }
        if rng.chance(2, 3) {
            d.w(if v5 { "#[ink::chain_extension(extension = 1)] pub trait X { " } else { "#[ink::chain_extension] pub trait X { " });
            for _ in 0..some(rng) {
                stray(rng, &mut d, &[&cha], &[], "fn x(); ");
            }
            d.w(if v5 { "#[ink(function = 2)] fn f(); }\n" } else { "#[ink(extension = 2)] fn f(); }\n" });
        }
        if rng.chance(1, 3) {
            d.w("#[ink::storage_item] struct I { ");
            for _ in 0..some(rng) {
                stray(rng, &mut d, &[], &[&nothing], "a: u8, ");
            }
            d.w("}\n");
        }
        compare_if(run, &d, v, "scopes", |m| m.starts_with("Invalid scope") || m.contains("cannot be used inside") || m.contains("can't be used inside"));
        run.case(&d.t, !d.exp.is_empty());
    }
}

/// an item of the file: what it is called from the chain extension, where errors about it lie, and what it lacks
struct Local {
    path: String,
    mark: (usize, usize),
    codec: bool,
    status: bool,
}

/// writes a struct, enum or union with some of the codec traits; `uses`: imports at the place
fn local_type(rng: &mut Rng, d: &mut Doc, name: &str, prefix: &str, uses: &[&str], v5: bool, good: (usize, usize), status: bool) -> Local {
    let mut have = [false; 3];
    let traits = ["Encode", "Decode", "TypeInfo"];
    let has_use = |x: &str| uses.contains(&x);
    let spell = |rng: &mut Rng, k: usize, have: &mut [bool; 3]| -> String {
        let t = traits[k];
        let mut all: Vec<(String, bool)> = vec![];
        if k < 2 {
            all.extend(["scale::", "ink::scale::", "parity_scale_codec::", "::scale::", "::ink::scale::"].map(|q| (format!("{q}{t}"), true)));
            all.extend(["other::", "scale_info::", "ink::", "my::scale::"].map(|q| (format!("{q}{t}"), false)));
            all.push((t.to_string(), has_use("use scale::{Encode, Decode};")));
            if has_use("use ink::scale as sc;") {
                all.push((format!("sc::{t}"), true));
            }
        } else {
            all.extend(["scale_info::", "ink::scale_info::", "::scale_info::"].map(|q| (format!("{q}{t}"), true)));
            all.extend(["other::", "scale::", "ink::scale::"].map(|q| (format!("{q}{t}"), false)));
            all.push((t.to_string(), has_use("use ink::scale_info::TypeInfo;")));
            if has_use("use scale_info::TypeInfo as Info;") {
                all.push(("Info".to_string(), true));
            }
        }
        let (s, ok) = if rng.chance(good.0, good.1) { all.iter().filter(|x| x.1).nth(rng.below(all.iter().filter(|x| x.1).count())).unwrap().clone() } else { rng.pick(&all).clone() };
        have[k] |= ok;
        s
    };
    let mut impls = String::new();
    let mut lists: Vec<Vec<String>> = vec![vec![]; 4];
    let mut sd: Vec<&str> = vec![];
    for k in 0..3 {
        if !rng.chance(good.0, good.1) && rng.chance(1, 2) {
            continue;
        }
        match rng.below(if v5 { 8 } else { 5 }) {
            x @ 0..=3 => {
                let s = spell(rng, k, &mut have);
                lists[x].push(s);
                if rng.chance(1, 4) {
                    lists[x].push(rng.pick(&["Debug", "Clone", "core::fmt::Debug"]).to_string());
                }
            }
            4 => {
                let s = spell(rng, k, &mut have);
                impls += &format!("impl {s} for {name} {{}}\n");
            }
            _ => {
                sd.push(traits[k]);
                have[k] = true;
            }
        }
    }
    if rng.chance(1, 6) {
        // of another type
        impls += "impl scale::Encode for Unrelated {}\n";
    }
    let mut attrs: Vec<String> = vec![];
    for (x, l) in lists.iter().enumerate() {
        let l = l.join(*rng.pick(&[", ", ",", " , "]));
        match x {
            _ if l.is_empty() => (),
            0 | 1 => attrs.push(format!("#[derive({l})]")),
            2 => attrs.push(format!("#[cfg_attr(feature = \"std\", derive({l}))]")),
            _ => attrs.push(format!("#[cfg_attr(any(feature = \"std\", test), allow(unused), derive({l}))]")),
        }
    }
    if !sd.is_empty() {
        attrs.push(format!("#[ink::scale_derive({})]", sd.join(", ")));
    }
    if rng.chance(1, 5) {
        attrs.push("/// docs".into());
    }
    for _ in 0..attrs.len() {
        let (a, b) = (rng.below(attrs.len()), rng.below(attrs.len()));
        attrs.swap(a, b);
    }
    let st = status && rng.chance(good.0, good.1);
    if st {
        impls += &format!("impl {} for {name} {{ fn from_status_code(_: u32) -> Result<(), Self> {{ Ok(()) }} }}\n", rng.pick(&["ink::env::chain_extension::FromStatusCode", "ink_env::chain_extension::FromStatusCode", "::ink::env::chain_extension::FromStatusCode"]));
    } else if rng.chance(1, 4) {
        impls += &format!("impl other::FromStatusCode for {name} {{}}\n");
    }
    let before = rng.chance(1, 2);
    if before {
        d.w(&impls);
    }
    for a in &attrs {
        d.w(a).w("\n");
    }
    let (head, mark, tail) = match rng.below(5) {
        0 => (format!("pub enum {name} "), "{", " A, B(u8) }\n"),
        1 => (format!("pub struct {name} "), "{", " a: u8 }\n"),
        2 => (format!("struct {name}(u8)"), ";", "\n"),
        3 => (format!("pub struct {name}"), ";", "\n"),
        _ => (format!("pub union {name} "), "{", " a: u8 }\n"),
    };
    let from = d.at();
    d.w(&head).w(mark);
    let to = d.at();
    d.w(tail);
    if !before {
        d.w(&impls);
    }
    Local { path: format!("{prefix}{name}"), mark: (from, to), codec: have.iter().all(|x| *x), status: st }
}

/// a type that mentions local types: its text and those of them ink! encodes
fn mention(rng: &mut Rng, types: &[Local], depth: usize) -> (String, Vec<usize>) {
    let leaf = |rng: &mut Rng| -> (String, Vec<usize>) {
        if types.is_empty() || rng.chance(1, 3) {
            (rng.pick(&["u8", "bool", "Vec<u8>", "AccountId", "String"]).to_string(), vec![])
        } else {
            let k = rng.below(types.len());
            (types[k].path.clone(), vec![k])
        }
    };
    if depth == 0 {
        return leaf(rng);
    }
    let (t, mut n) = mention(rng, types, depth - 1);
    match rng.below(12) {
        0 => (format!("[{t}; 4]"), n),
        1 => (format!("&[{t}]"), n),
        2 => (format!("&'static {t}"), n),
        3 => {
            let (u, m) = mention(rng, types, depth - 1);
            n.extend(m);
            (format!("({t}, {u})"), n)
        }
        4 => (format!("({t})"), n),
        5 => (format!("Option<{t}>"), n),
        6 => {
            let (u, m) = mention(rng, types, depth - 1);
            n.extend(m);
            (format!("Result<{t}, {u}>"), n)
        }
        7 => (format!("Vec<({t}, u8)>"), n),
        8 => (format!("*const {t}"), n),
        9 => (format!("core::option::Option<{t}>"), n),
        _ => (t, n),
    }
}

pub fn p17(run: &mut Run) {
    run.rule = "chain extensions of both versions with random ids, receivers, unmarked methods, error codes (missing, several, misnamed, bounded, without a type, unresolvable) and local types derived, implemented and mentioned in every way; the errors must be exactly those of the rules".into();
    for i in 0..run.scale(600) {
        let mut rng = run.rng.fork();
        let rng = &mut rng;
        let v = if rng.chance(1, 2) { Version::V4 } else { Version::V5 };
        let v5 = v == Version::V5;
        let good = if i % 6 == 0 { (1, 1) } else { *rng.pick(&[(1, 2), (3, 4), (7, 8), (15, 16)]) };
        let ok = |rng: &mut Rng| rng.chance(good.0, good.1);
        let mut d = Doc::default();
        let mut types = vec![];
        let uses: Vec<&str> = ["use scale::{Encode, Decode};", "use ink::scale as sc;", "use ink::scale_info::TypeInfo;", "use scale_info::TypeInfo as Info;"].into_iter().filter(|_| rng.chance(1, 3)).collect();
        let uses: Vec<&str> = if uses.iter().filter(|x| x.contains("TypeInfo")).count() > 1 { uses[..uses.len() - 1].to_vec() } else { uses };
        let inside = rng.chance(1, 3);
        for u in &uses {
            d.w(u).w("\n");
        }
        let code = local_type(rng, &mut d, "MyError", "", &uses, v5, good, true);
        let names = ["Alpha", "Beta", "Gamma", "Delta"];
        let n = rng.below(4);
        for name in &names[..n] {
            let pre = *rng.pick(&["", "", "self::", "crate::"]);
            types.push(local_type(rng, &mut d, name, pre, &uses, v5, good, false));
        }
        if inside {
            d.w("pub mod types {\n    ");
            let pre = *rng.pick(&["types::", "self::types::", "crate::types::"]);
            types.push(local_type(rng, &mut d, "Inner", pre, &[], v5, good, false));
            d.w("}\n");
        }
        let mut needed = BTreeSet::new();
        if v5 {
            if ok(rng) {
                let e = *rng.pick(&["1", "0x2", "65535"]);
                d.w(&format!("#[ink::chain_extension(extension = {e})]"));
            } else {
                d.m("no extension argument", "⟦#[ink::chain_extension]⟧");
            }
        } else {
            d.w("#[ink::chain_extension]");
        }
        d.w("\n");
        let from = d.at();
        d.w("pub trait Ext {");
        let head = (from, d.at());
        d.w("\n    ");
        // members
        let mut members: Vec<u8> = vec![];
        let mut codes = 1;
        if !ok(rng) {
            codes = rng.below(4);
        }
        members.extend(vec![0; codes]);
        members.extend(vec![1; rng.below(5)]);
        if !ok(rng) {
            members.push(2);
        }
        for _ in 0..members.len() {
            let (a, b) = (rng.below(members.len()), rng.below(members.len()));
            members.swap(a, b);
        }
        let mut nth = 0;
        let mut seen = BTreeSet::new();
        for (k, m) in members.iter().enumerate() {
            match m {
                0 => {
                    let s = d.at();
                    // the first decides what the error code is
                    match if ok(rng) { 0 } else { rng.range(1, 6) } {
                        0 => {
                            d.w("type ErrorCode = ").w(*rng.pick(&["MyError", "self::MyError", "crate::MyError"])).w(";");
                            if nth == 0 {
                                if !code.codec || !code.status {
                                    d.errs(code.mark, "error code without its traits");
                                }
                            }
                        }
                        1 => {
                            let e = d.at();
                            d.w("type ErrorCode;");
                            d.err(e, "no default type");
                        }
                        x => {
                            let b = *rng.pick(&["Unknown", "u32", "()", "Option<MyError>", "types::MyError", "[MyError; 2]"]);
                            d.w("type ErrorCode");
                            if x == 2 {
                                let e = d.at();
                                d.w("<T>");
                                d.err(e, "generic error code");
                            }
                            if x == 3 {
                                let e = d.at();
                                d.w(": Copy");
                                let _ = e;
                                d.exp.push((e, d.at(), false, "bounded error code"));
                            }
                            d.w(" = ");
                            let e = d.at();
                            d.w(b);
                            if nth == 0 {
                                d.err(e, "unresolvable error code");
                            }
                            d.w(";");
                        }
                    }
                    if nth > 0 {
                        d.err(s, "another error code");
                    }
                    nth += 1;
                    d.w("\n    ");
                }
                1 => {
                    let marked = ok(rng);
                    let arg = if v5 { "function" } else { "extension" };
                    let id = if ok(rng) { k as u32 + 10 } else { *rng.pick(&[10, 11, 12, 0x10, 7]) };
                    if marked {
                        d.w(&format!("#[ink({arg} = "));
                        let s = d.at();
                        let (hex, tail) = (rng.chance(1, 3), if rng.chance(1, 5) { ", handle_status = false" } else { "" });
                        d.w(&if hex { format!("0x{id:x}") } else { format!("{id}") });
                        if !seen.insert(id) {
                            d.err(s, "id used before");
                        }
                        d.w(tail).w(")]\n    ");
                    }
                    let from = d.at();
                    d.w(&format!("fn f{k}("));
                    if !ok(rng) {
                        let s = d.at();
                        d.w(*rng.pick(&["&self", "self", "&mut self", "self: &Self"]));
                        if marked {
                            d.err(s, "receiver");
                        }
                        d.w(", ");
                    }
                    for q in 0..rng.below(3) {
                        let depth = rng.below(3);
                        let (t, n) = mention(rng, &types, depth);
                        d.w(&format!("a{q}: {t}, "));
                        if marked {
                            needed.extend(n);
                        }
                    }
                    d.w(")");
                    if rng.chance(1, 2) {
                        d.w(" -> ");
                        if ok(rng) {
                            let depth = rng.below(3);
                            let (t, n) = mention(rng, &types, depth);
                            d.w(&t);
                            if marked {
                                needed.extend(n);
                            }
                        } else {
                            let s = *rng.pick(&["Result<u8, ⟦Self::ErrorCode⟧>", "⟦Self::ErrorCode⟧", "(⟦Self::ErrorCode⟧, Option<⟦Self::ErrorCode⟧>)", "Self::Error", "Other::ErrorCode"]);
                            d.m("Self::ErrorCode", s);
                        }
                    }
                    d.w(";");
                    if !marked {
                        d.err(from, "method without an id");
                    }
                    d.w("\n    ");
                }
                _ => {
                    let m = *rng.pick(&["type ⟦Error⟧ = MyError;", "⟦const X: u8;⟧", "⟦foo!();⟧", "type ⟦Errorcode⟧ = u8;", "#[ink(extension = 99)] type ⟦Other⟧ = u8;"]);
                    if m.contains("ink(") {
                        continue;
                    }
                    d.m("what a chain extension cannot have", m);
                    d.w("\n    ");
                }
            }
        }
        d.w("}\n");
        if nth == 0 {
            d.errs(head, "no error code");
        }
        for k in needed {
            if !types[k].codec {
                d.errs(types[k].mark, "type without its codec traits");
            }
        }
        compare(run, &d, v, "chain extension");
        run.case(&d.t, !d.exp.is_empty());
    }
}
