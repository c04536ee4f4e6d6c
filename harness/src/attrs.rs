//! P09/P10: executable contracts of attribute recognition, values and selectors (independent oracle: ink!'s grammar).
use crate::core::*;
use ink_analyzer_ir::ast;
use ink_analyzer_ir::syntax::{AstNode, SourceFile};
use ink_analyzer_ir::{InkArg, InkAttribute, InkAttributeKind};

pub const MACROS: &[(&str, &str, &str)] = &[
    ("ChainExtension", "ink", "chain_extension"),
    ("Contract", "ink", "contract"),
    ("Event", "ink", "event"),
    ("ScaleDerive", "ink", "scale_derive"),
    ("StorageItem", "ink", "storage_item"),
    ("Test", "ink", "test"),
    ("TraitDefinition", "ink", "trait_definition"),
    ("E2ETest", "ink_e2e", "test"),
];
/// (kind, keyword, entity type?)
pub const ARGS: &[(&str, &str, bool)] = &[
    ("AdditionalContracts", "additional_contracts", false),
    ("Anonymous", "anonymous", false),
    ("Backend", "backend", false),
    ("Constructor", "constructor", true),
    ("Decode", "Decode", false),
    ("Default", "default", false),
    ("Derive", "derive", false),
    ("Encode", "Encode", false),
    ("Env", "env", false),
    ("Environment", "environment", false),
    ("Event", "event", true),
    ("Extension", "extension", true),
    ("Function", "function", true),
    ("HandleStatus", "handle_status", false),
    ("Impl", "impl", true),
    ("KeepAttr", "keep_attr", false),
    ("Message", "message", true),
    ("Namespace", "namespace", false),
    ("Node", "node", false),
    ("Payable", "payable", false),
    ("RuntimeOnly", "runtime_only", false),
    ("Sandbox", "sandbox", false),
    ("Selector", "selector", false),
    ("SignatureTopic", "signature_topic", false),
    ("Storage", "storage", true),
    ("Topic", "topic", true),
    ("TypeInfo", "TypeInfo", false),
    ("Url", "url", false),
];
pub const UNKNOWN: &[&str] = &["xyz", "Message", "messages", "paya", "decode", "typeinfo", "ink", "selector_", "_x", "STORAGE", "r_event", "contract"];

pub fn first_attr(code: &str) -> Option<ast::Attr> {
    SourceFile::parse(code).tree().syntax().descendants().find_map(ast::Attr::cast)
}

pub fn noise(rng: &mut Rng) -> &'static str {
    *rng.pick(&["", "", "", "", " ", "\n    ", "\t", "/* c, = (x) */", "// l, = (\n", " /* a */ "])
}

#[derive(Debug, Clone, PartialEq)]
struct A {
    kind: String,
    name: Option<String>,
    value: Option<String>,
    nested: Option<Box<A>>,
}

const VALUES: &[&str] = &["1", "0x2A", "_", "@", "\"a,b=c\"", "\"x(\"", "true", "false", "my::env::Types", "::a::B", "r\"s\"", "Foo", "1_000", "10u32", "self::E"];

fn gen_arg(rng: &mut Rng, deep: bool) -> (String, A) {
    let (kind, name) = if rng.chance(1, 5) {
        ("Unknown".to_string(), rng.pick(UNKNOWN).to_string())
    } else {
        let a = rng.pick(ARGS);
        (a.0.to_string(), a.1.to_string())
    };
    let mut s = name.clone();
    let mut a = A { kind, name: Some(name), value: None, nested: None };
    s += noise(rng);
    if deep && rng.chance(1, 6) {
        let d = rng.chance(1, 2);
        let (t, n) = gen_arg(rng, d);
        let c = if rng.chance(1, 4) { "," } else { "" };
        s += &format!("({}{t}{c}{})", noise(rng), if c == "," { "" } else { noise(rng) });
        a.nested = Some(Box::new(n));
    } else if rng.chance(1, 2) {
        let v = rng.pick(VALUES).to_string();
        s += &format!("={}{v}{}", noise(rng), noise(rng));
        a.value = Some(v);
    }
    (s, a)
}

fn observe(arg: &InkArg) -> A {
    A {
        kind: format!("{:?}", arg.kind()),
        name: arg.name().map(|n| n.to_string()),
        value: arg.value().map(|v| v.to_string()),
        nested: arg.nested().map(|n| Box::new(observe(&n))),
    }
}

fn rank(kind: &str) -> u8 {
    if kind == "Unknown" {
        2
    } else if ARGS.iter().any(|a| a.0 == kind && a.2) {
        0
    } else {
        1
    }
}

pub fn p09(run: &mut Run) {
    run.rule = "attributes with random paths, arguments, nesting, values, order and layout; distinct source texts".into();
    // every macro and keyword, in every crate, bare and with noise
    for c in ["ink", "ink_e2e", "inks", "Ink", "ink_", "std", "r#ink"] {
        for m in MACROS.iter().map(|m| m.2).chain(UNKNOWN.iter().copied()) {
            for (a, b) in [("", ""), (" ", ""), ("", " /* x */ "), ("\n", "\n")] {
                let code = format!("#[{c}{a}::{b}{m}]\nmod x {{}}");
                run.case(&code, true);
                let want = if c == "ink" || c == "ink_e2e" {
                    let k = MACROS.iter().find(|x| x.1 == c && x.2 == m).map_or("Unknown", |x| x.0);
                    Some(format!("Macro({k})"))
                } else {
                    None
                };
                let got = guard(|| first_attr(&code).and_then(InkAttribute::cast).map(|x| format!("{:?}", x.kind())));
                run.eq("macro kind", got, Ok(want), || code.clone());
            }
        }
    }
    for (code, want) in [
        ("#[ink]\nfn f() {}", Some("Macro(Unknown)")),
        ("#[ink()]\nfn f() {}", Some("Arg(Unknown)")),
        ("#[ink( )]\nfn f() {}", Some("Arg(Unknown)")),
        ("#[ink_e2e]\nfn f() {}", Some("Macro(Unknown)")),
        ("#[ink::contract::x]\nmod f {}", Some("Macro(Unknown)")),
        ("#[ink_e2e::test::contract]\nfn f() {}", Some("Macro(Unknown)")),
        ("#[contract]\nmod f {}", None),
        ("#[x::ink::contract]\nmod f {}", None),
        ("#[derive(ink)]\nstruct S;", None),
    ] {
        run.case(code, true);
        let got = guard(|| first_attr(code).and_then(InkAttribute::cast).map(|x| format!("{:?}", x.kind())));
        run.eq("special paths", got, Ok(want.map(String::from)), || code.into());
    }
    for _ in 0..run.scale(4000) {
        let mut rng = run.rng.fork();
        let n = *rng.pick(&[1, 1, 2, 2, 3, 3, 4, 6]);
        let args: Vec<(String, A)> = (0..n).map(|_| gen_arg(&mut rng, true)).collect();
        let macro_ = if rng.chance(1, 3) { Some(*rng.pick(MACROS)) } else { None };
        let path = match macro_ {
            Some(m) => format!("{}::{}", m.1, m.2),
            None => rng.pick(&["ink", "ink", "ink", "ink_e2e"]).to_string(),
        };
        let sep = format!("{},{}", noise(&mut rng), noise(&mut rng));
        let body = args.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(&sep);
        let trail = if rng.chance(1, 4) { "," } else { "" };
        let code = format!("#[{path}{}({}{body}{trail})]\nfn f() {{}}", noise(&mut rng), noise(&mut rng));
        run.case(&code, true);
        let want: Vec<A> = args.into_iter().map(|a| a.1).collect();
        let got = guard(|| {
            first_attr(&code).and_then(InkAttribute::cast).map(|x| {
                (
                    *x.kind(),
                    x.args().iter().map(observe).collect::<Vec<_>>(),
                    x.ink_arg_name().map(|n| n.to_string()),
                    x.ink_macro().map(|n| n.to_string()),
                    x.ink().to_string(),
                    x.args().iter().map(|a| a.text_range()).collect::<Vec<_>>(),
                )
            })
        });
        let Ok(Some((kind, got, name, mac, ink, ranges))) = got else {
            run.fail("cast", format!("{:?}", got.err()), code.clone());
            continue;
        };
        run.eq("arguments in order", got.clone(), want.clone(), || code.clone());
        run.eq("ink segment", ink.as_str(), path.split("::").next().unwrap(), || code.clone());
        match macro_ {
            Some(m) => {
                run.eq("macro kind with arguments", format!("{kind:?}"), format!("Macro({})", m.0), || code.clone());
                run.eq("macro segment", mac, Some(m.2.to_string()), || code.clone());
            }
            None => {
                let best = want.iter().map(|a| rank(&a.kind)).min().unwrap();
                let p = want.iter().find(|a| rank(&a.kind) == best).unwrap();
                run.eq("primary kind", format!("{kind:?}"), format!("Arg({})", p.kind), || code.clone());
                run.eq("primary name", name, p.name.clone(), || code.clone());
                run.check("is_unknown", kind.is_unknown() == (best == 2), || format!("{kind:?}"), || code.clone());
            }
        }
        // ranges: in order, disjoint, inside the text, starting with the name
        let mut last = 0usize;
        for (r, a) in ranges.iter().zip(&want) {
            let (s, e) = (usize::from(r.start()), usize::from(r.end()));
            let ok = s >= last && e <= code.len() && s <= e && code.is_char_boundary(s) && code[s..].starts_with(a.name.as_deref().unwrap_or(""));
            run.check("argument ranges", ok, || format!("{r:?} {a:?}"), || code.clone());
            if let (Some(v), None) = (&a.value, &a.nested) {
                run.check("range covers the value", code[s..e].ends_with(v.as_str()), || format!("{r:?} {a:?}"), || code.clone());
            }
            last = e;
        }
        let _ = matches!(kind, InkAttributeKind::Arg(_));
    }
    // malformed argument lists never panic and never invent kinds
    for _ in 0..run.scale(1500) {
        let mut rng = run.rng.fork();
        let n = rng.range(0, 9);
        let toks = ["message", "selector", "=", ",", "(", ")", "1", "_", "@", "\"s\"", "impl", "::", "x", "]", "[", "{", "}", "#", "payable", ";", "!", "'a", "fn"];
        let body = (0..n).map(|_| format!("{}{}", *rng.pick(&toks), noise(&mut rng))).collect::<String>();
        let code = format!("#[{}({body}{}]\nfn f() {{}}", rng.pick(&["ink", "ink::contract", "ink_e2e::test", "ink::"]), rng.pick(&[")", ")", "", "))"]));
        run.case(&code, true);
        let got = guard(|| {
            first_attr(&code).and_then(InkAttribute::cast).map(|x| {
                for a in x.args() {
                    let _ = (a.text_range(), a.nested(), a.parent_attr(), a.to_string());
                }
                x.args().iter().map(observe).collect::<Vec<_>>()
            })
        });
        match got {
            Err(e) => run.fail("malformed arguments panic", e, code.clone()),
            Ok(Some(args)) => {
                for a in args {
                    let want = a.name.as_deref().and_then(|n| ARGS.iter().find(|x| x.1 == n)).map_or("Unknown", |x| x.0);
                    run.eq("kind follows the name", a.kind.as_str(), want, || code.clone());
                }
            }
            Ok(None) => {}
        }
    }
}
