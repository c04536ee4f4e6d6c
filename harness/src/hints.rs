//! P18: executable contract of hovers and inlay hints (independent oracle: which text stands where).
use crate::attrs::{ARGS, MACROS, UNKNOWN};
use crate::core::*;
use ink_analyzer::{Analysis, TextRange, TextSize, Version};

struct G {
    kind: String,
    s: usize,
    e: usize,
    name_end: usize,
    nested: Option<Box<G>>,
}

struct At {
    s: usize,
    e: usize,
    is_macro: bool,
    kind: String,
    /// where the macro or the primary argument is named
    name: (usize, usize),
    args: Vec<G>,
}

const VALUES: &[&str] = &["1", "0x2A", "_", "@", "\"a,b=c\"", "true", "false", "my::env::Types", "::a::B", "Foo", "10u32"];

fn arg(rng: &mut Rng, t: &mut String, deep: usize) -> G {
    let (kind, name) = if rng.chance(1, 8) { ("Unknown", *rng.pick(UNKNOWN)) } else { let a = rng.pick(ARGS); (a.0, a.1) };
    let s = t.len();
    t.push_str(name);
    let name_end = t.len();
    let (mut nested, mut end) = (None, None);
    if deep > 0 && rng.chance(1, 4) {
        t.push_str(*rng.pick(&["(", "( ", " ("]));
        // the text of an argument reaches to the end of its innermost one, closing parentheses aside
        let inner = arg(rng, t, deep - 1);
        end = Some(inner.e);
        nested = Some(Box::new(inner));
        t.push(')');
    } else if rng.chance(1, 2) {
        t.push_str(*rng.pick(&["=", " = ", "= ", " ="]));
        t.push_str(*rng.pick(VALUES));
    }
    G { kind: kind.into(), s, e: end.unwrap_or(t.len()), name_end, nested }
}

fn rank(k: &str) -> u8 {
    if k == "Unknown" { 2 } else if ARGS.iter().any(|a| a.0 == k && a.2) { 0 } else { 1 }
}

fn attr(rng: &mut Rng, t: &mut String) -> At {
    let s = t.len();
    let is_macro = rng.chance(1, 2);
    t.push_str(*rng.pick(&["#[", "#[", "# [ "]));
    let (mut kind, mut name) = (String::new(), (0, 0));
    if is_macro {
        let (k, c, n) = if rng.chance(1, 10) { ("Unknown", "ink", "xyz") } else { *rng.pick(MACROS) };
        kind = k.into();
        t.push_str(&format!("{c}::"));
        name = (t.len(), t.len() + n.len());
        t.push_str(n);
    } else {
        t.push_str("ink");
    }
    let n = if is_macro { rng.below(4) } else { 1 + rng.below(4) };
    let mut args = vec![];
    if n > 0 {
        t.push('(');
        for i in 0..n {
            if i > 0 {
                t.push_str(*rng.pick(&[", ", ",", ",\n    ", " , "]));
            }
            args.push(arg(rng, t, 2));
        }
        t.push(')');
    }
    t.push(']');
    if !is_macro {
        let p = (0..args.len()).min_by_key(|i| (rank(&args[*i].kind), *i)).unwrap();
        kind = args[p].kind.clone();
        name = (args[p].s, args[p].name_end);
    }
    At { s, e: t.len(), is_macro, kind, name, args }
}

/// (beginning of the documentation, what else it says); None: there is none
fn doc(is_macro: bool, k: &str, v5: bool, e2e: bool) -> Option<(String, &'static str)> {
    let h = |s: &str| Some((format!("# Attribute\n\n`#[{s}"), ""));
    let only5 = |s: &str| if v5 { h(s) } else { None };
    if is_macro {
        return match k {
            "ChainExtension" => Some(("# Attribute\n\n`#[ink::chain_extension]".into(), if v5 { "ink(function = N: u16)" } else { "ink(extension = N: u32)" })),
            "Contract" => h("ink::contract]"),
            "Event" => only5("ink::event]"),
            "ScaleDerive" => only5("ink::scale_derive]"),
            "StorageItem" => h("ink::storage_item]"),
            "Test" => h("ink::test]"),
            "TraitDefinition" => h("ink::trait_definition]"),
            "E2ETest" => h("ink_e2e::test]"),
            _ => None,
        };
    }
    match k {
        "AdditionalContracts" if v5 => Some((String::new(), "`additional_contracts` is deprecated")),
        "AdditionalContracts" => h("ink_e2e::test(additional_contracts"),
        "Anonymous" => h(if v5 { "ink::event(anonymous)]" } else { "ink(anonymous)]" }),
        "Backend" | "Node" | "Url" | "RuntimeOnly" | "Sandbox" => only5("ink_e2e::test(backend(node|runtime_only))]"),
        "Decode" | "Encode" | "TypeInfo" => only5(&format!("ink::scale_derive({k})]")),
        "Derive" => h("ink::storage_item(derive"),
        "Env" | "Environment" => h("ink::contract(env"),
        "Extension" => h(if v5 { "ink::chain_extension(extension = N: u16)]" } else { "ink(extension = N: u32)]" }),
        "Function" => only5("ink(function = N: u16)]"),
        "HandleStatus" => h("ink(handle_status"),
        "KeepAttr" if v5 && e2e => Some((String::new(), "`keep_attr` for `ink_e2e::test` attribute macro is deprecated")),
        "KeepAttr" => h("ink::contract(keep_attr"),
        "Namespace" => h("ink(namespace"),
        "Selector" => h(if v5 { "ink(selector = S: u32 | _ | @)]" } else { "ink(selector = S: u32 | _)]" }),
        "SignatureTopic" => only5("ink::event(signature_topic"),
        "Topic" => Some(("# Attribute\n\n`#[ink(topic)]".into(), if v5 { "#[ink::event]" } else { "" })),
        "Unknown" => None,
        _ => h(&format!("ink({})]", ARGS.iter().find(|a| a.0 == k).unwrap().1)),
    }
}

fn label(k: &str, v5: bool, con: bool) -> (&'static str, &'static str) {
    match k {
        "AdditionalContracts" => ("&str", "A space separated list."),
        "Backend" => ("node | runtime_only", "node | runtime_only"),
        "Env" | "Environment" => ("impl Environment", "A `ink::env::Environment` implementation."),
        "Extension" => (if v5 { "u16" } else { "u32" }, ""),
        "Function" => ("u16", ""),
        "HandleStatus" | "Derive" => ("bool", ""),
        "KeepAttr" => ("&str", "A comma separated list."),
        "Namespace" => ("&str", "A valid Rust identifier."),
        "Sandbox" => ("impl drink::Sandbox", "A `drink::Sandbox` implementation."),
        "Selector" => (if v5 && !con { "u32 | _ | @" } else { "u32 | _" }, ""),
        "SignatureTopic" => ("&str", "A 32 byte hex string."),
        "Url" => ("&str", "A URL."),
        _ => ("", ""),
    }
}

fn tr(s: usize, e: usize) -> TextRange {
    TextRange::new(TextSize::from(s as u32), TextSize::from(e as u32))
}

pub fn p18(run: &mut Run) {
    run.rule = "files of ink! attributes with every macro and argument, values and nesting, both versions; hovers at every kind of place and range, hints for the whole file and parts of it; distinct by text and range".into();
    for _ in 0..run.scale(600) {
        let mut rng = run.rng.fork();
        let rng = &mut rng;
        let v5 = rng.chance(1, 2);
        let mut t = String::from(*rng.pick(&["", "\n", "// é\n", "use a;\n"]));
        let mut ats = vec![];
        for i in 0..1 + rng.below(3) {
            for _ in 0..1 + rng.below(2) {
                ats.push(attr(rng, &mut t));
                t.push_str(*rng.pick(&["\n", " ", " #[cfg(x)] ", "\n    // c\n", " /* c */ "]));
            }
            t.push_str(&format!("{} x{i}() {{}}\n", rng.pick(&["fn", "pub fn"])));
        }
        let an = Analysis::new(&t, if v5 { Version::V5 } else { Version::V4 });
        for _ in 0..12 {
            let a = rng.below(t.len() + 1);
            let b = if rng.chance(1, 2) { a } else { (a + rng.below(12)).min(t.len()) };
            // often inside an attribute, at the edges of an argument, and just outside
            let (a, b) = if rng.chance(2, 3) {
                let x = rng.pick(&ats);
                match (rng.below(4), x.args.is_empty()) {
                    (0, _) => (x.s, if rng.chance(1, 2) { x.e } else { x.s }),
                    (1, _) => (x.name.0, x.name.1),
                    (2, false) => {
                        let g = rng.pick(&x.args);
                        *rng.pick(&[(g.s, g.e), (g.s, g.s), (g.e, g.e), (g.name_end, g.e), (g.s.saturating_sub(1), g.e)])
                    }
                    _ => (x.e, x.e),
                }
            } else {
                (a, b)
            };
            if !t.is_char_boundary(a) || !t.is_char_boundary(b) {
                continue;
            }
            let at = ats.iter().find(|x| x.s <= a && b <= x.e);
            let want = at.and_then(|x| {
                let g = x.args.iter().find(|g| g.s <= a && b <= g.e);
                match g {
                    Some(g) => doc(false, &g.kind, v5, x.is_macro && x.kind == "E2ETest").map(|d| (d, (g.s, g.name_end))),
                    None => doc(x.is_macro, &x.kind, v5, false).map(|d| (d, x.name)),
                }
            });
            let got = an.hover(tr(a, b));
            let inp = || format!("v{} {a}..{b} ({:?})\n{t}", if v5 { 5 } else { 4 }, t.get(a..b));
            run.case(&format!("{a} {b} {t}"), got.is_some());
            match (&got, &want) {
                (None, None) => {}
                (Some(h), Some((d, r))) => {
                    run.check("hover place", h.range == tr(r.0, r.1), || format!("{:?} instead of {r:?}", h.range), inp);
                    run.check("hover text", h.content.trim_start().starts_with(&d.0) && h.content.contains(d.1), || format!("{:?} instead of {d:?}", h.content.chars().take(120).collect::<String>()), inp);
                }
                _ => {
                    run.fail("hover", format!("{:?} instead of {want:?}", got.map(|h| (h.range, h.content.chars().take(60).collect::<String>()))), inp());
                }
            }
        }
        for _ in 0..3 {
            let r = match rng.below(3) {
                0 => None,
                1 => {
                    let a = rng.below(t.len() + 1);
                    Some((a, a + rng.below(t.len() - a + 1)))
                }
                _ => {
                    let x = rng.pick(&ats);
                    match x.args.first() {
                        Some(g) => Some((g.s, g.e)),
                        None => Some((x.s, x.e)),
                    }
                }
            };
            let mut want = vec![];
            for x in &ats {
                let con = !x.is_macro && x.kind == "Constructor";
                for g in &x.args {
                    let mut c = Some(g);
                    while let Some(g) = c {
                        let (l, d) = label(&g.kind, v5, con);
                        if !l.is_empty() && r.map_or(true, |r| r.0 <= g.s && g.e <= r.1) {
                            want.push((g.s, g.name_end, g.name_end, l.to_string(), (!d.is_empty()).then(|| d.to_string())));
                        }
                        c = g.nested.as_deref();
                    }
                }
            }
            want.sort();
            let mut got: Vec<_> = an.inlay_hints(r.map(|r| tr(r.0, r.1))).into_iter().map(|h| (usize::from(h.range.start()), usize::from(h.range.end()), usize::from(h.position), h.label, h.detail)).collect();
            got.sort();
            run.case(&format!("{r:?} {t}"), !got.is_empty());
            run.eq("inlay hints", got, want, || format!("v{} {r:?}\n{t}", if v5 { 5 } else { 4 }));
        }
    }
}
