//! P11: executable contracts of entity discovery (independent oracle: our own tree of items and their attributes).
use crate::core::*;
use ink_analyzer_ir::syntax::{AstNode, SyntaxNode};
use ink_analyzer_ir::{self as ir, Contract, InkEntity, InkFile};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    File,
    Mod,
    Struct,
    Trait,
    Impl,
    Fn,
    Field,
}
use Kind::*;

/// attribute texts and what they declare ("" for attributes that are not ink!'s)
const ATTRS: &[(&str, &str)] = &[
    ("#[ink::contract]", "contract"),
    ("#[ink::contract(env = crate::E, keep_attr = \"a\")]", "contract"),
    ("#[ink(storage)]", "storage"),
    ("#[ink(event)]", "event"),
    ("#[ink(event, anonymous)]", "event"),
    ("#[ink(anonymous, event)]", "event"),
    ("#[ink::event]", "event_v2"),
    ("#[ink::event(anonymous)]", "event_v2"),
    ("#[ink(topic)]", "topic"),
    ("#[ink(constructor)]", "constructor"),
    ("#[ink(constructor, selector = 0x1, payable)]", "constructor"),
    ("#[ink(message)]", "message"),
    ("#[ink(payable, message)]", "message"),
    ("#[ink(impl)]", "impl"),
    ("#[ink(namespace = \"n\", impl)]", "impl"),
    ("#[ink(namespace = \"n\")]", "namespace"),
    ("#[ink(xyz)]", "unknown"),
    ("#[ink::xyz]", "unknown"),
    ("#[ink]", "unknown"),
    ("#[ink::trait_definition]", "trait_definition"),
    ("#[ink::chain_extension]", "chain_extension"),
    ("#[ink::chain_extension(extension = 1)]", "chain_extension"),
    ("#[ink(extension = 1)]", "extension"),
    ("#[ink(function = 1, handle_status = false)]", "function"),
    ("#[ink::storage_item]", "storage_item"),
    ("#[ink::storage_item(derive = false)]", "storage_item"),
    ("#[ink::scale_derive(Encode)]", "scale_derive"),
    ("#[ink::test]", "test"),
    ("#[ink_e2e::test]", "e2e_test"),
    ("#[ink(payable)]", "payable"),
    ("#[ink(selector = 1)]", "selector"),
    ("#[cfg(test)]", ""),
    ("#[derive(Clone)]", ""),
    ("/// docs #[ink(message)]", ""),
    ("#[inkx::contract]", ""),
    ("#[other(message)]", ""),
];

struct Node {
    kind: Kind,
    parent: usize,
    attrs: Vec<usize>,
    kids: Vec<usize>,
    /// for impls: (path in the source, the trait item it names)
    trait_: Option<(String, Option<usize>)>,
    end: usize,
    mod_path: Vec<usize>,
}

struct Tree {
    n: Vec<Node>,
    uses: BTreeMap<usize, Vec<String>>,
}

impl Tree {
    fn ink(&self, i: usize) -> Vec<&'static str> {
        self.n[i].attrs.iter().map(|a| ATTRS[*a].1).filter(|k| !k.is_empty()).collect()
    }
    fn closest(&self, i: usize) -> Vec<(usize, &'static str)> {
        self.n[i].kids.iter().flat_map(|&c| if self.ink(c).is_empty() { self.closest(c) } else { self.ink(c).into_iter().map(|k| (c, k)).collect() }).collect()
    }
    fn near(&self, i: usize, what: &str) -> Vec<usize> {
        self.closest(i).into_iter().filter(|(_, k)| *k == what).map(|(c, _)| c).collect()
    }
    fn all(&self, i: usize) -> Vec<(usize, &'static str)> {
        self.n[i].kids.iter().flat_map(|&c| self.ink(c).into_iter().map(|k| (c, k)).chain(self.all(c)).collect::<Vec<_>>()).collect()
    }
    fn above(&self, mut i: usize) -> Vec<(usize, &'static str)> {
        let mut v = vec![];
        while i != 0 {
            i = self.n[i].parent;
            v.extend(self.ink(i).into_iter().map(|k| (i, k)));
        }
        v
    }
    fn uniq(v: Vec<usize>) -> Vec<usize> {
        let mut s = BTreeSet::new();
        v.into_iter().filter(|x| s.insert(*x)).collect()
    }
    fn peek(&self, i: usize, what: &str, through: impl std::ops::Fn(usize, &str) -> bool) -> Vec<usize> {
        Self::uniq(self.closest(i).into_iter().flat_map(|(c, k)| if k == what { vec![c] } else if through(c, k) { self.near(c, what) } else { vec![] }).collect())
    }
    fn callables(&self, i: usize, what: &str) -> Vec<usize> {
        self.peek(i, what, |c, k| self.through_impl(c, k))
    }
    fn through_impl(&self, c: usize, k: &str) -> bool {
        k == "impl" || (self.n[c].kind == Impl && (k == "namespace" || k == "unknown"))
    }
    fn is_impl(&self, i: usize) -> bool {
        self.ink(i).contains(&"impl")
            || (self.n[i].kind == Impl
                && (self.closest(i).iter().any(|(_, k)| *k == "constructor" || *k == "message")
                    || self.n[i].trait_.as_ref().and_then(|t| t.1).is_some_and(|t| self.ink(t).contains(&"trait_definition"))))
    }
    fn impls(&self, i: usize) -> BTreeSet<usize> {
        let own = self.n[i].kids.iter().copied().filter(|c| self.n[*c].kind == Impl);
        let more = self.closest(i).into_iter().filter_map(|(c, k)| {
            if self.through_impl(c, k) {
                Some(c)
            } else if k == "constructor" || k == "message" {
                let p = self.n[c].parent;
                (self.n[p].kind == Impl).then_some(p)
            } else {
                None
            }
        });
        own.chain(more.collect::<Vec<_>>()).filter(|c| self.is_impl(*c)).collect()
    }
    fn add(&mut self, kind: Kind, parent: usize) -> usize {
        let id = self.n.len();
        let mut mod_path = self.n[parent].mod_path.clone();
        if kind == Mod {
            mod_path.push(id);
        }
        self.n.push(Node { kind, parent, attrs: vec![], kids: vec![], trait_: None, end: 0, mod_path });
        self.n[parent].kids.push(id);
        id
    }
    fn home(&self, i: usize) -> usize {
        *self.n[i].mod_path.last().unwrap_or(&0)
    }
}

fn generate(rng: &mut Rng) -> Tree {
    let mut t = Tree { n: vec![Node { kind: File, parent: 0, attrs: vec![], kids: vec![], trait_: None, end: 0, mod_path: vec![] }], uses: BTreeMap::new() };
    let size = rng.range(3, 26);
    for _ in 0..size {
        let p = rng.below(t.n.len());
        let kind = match t.n[p].kind {
            File => *rng.pick(&[Mod, Mod, Mod, Struct, Trait, Fn, Impl]),
            Mod => *rng.pick(&[Mod, Struct, Struct, Impl, Impl, Impl, Trait, Fn]),
            Struct => Field,
            Trait | Impl => Fn,
            Fn => *rng.pick(&[Struct, Fn, Fn]),
            Field => continue,
        };
        let i = t.add(kind, p);
        if matches!(kind, Impl | Struct | Trait) && rng.chance(3, 4) {
            for _ in 0..rng.range(1, 2) {
                t.add(if kind == Struct { Field } else { Fn }, i);
            }
        }
    }
    for i in 1..t.n.len() {
        let usual: &[&str] = match t.n[i].kind {
            Mod => &["contract", "contract", ""],
            Struct => &["storage", "event", "event_v2", "storage_item", ""],
            Trait => &["trait_definition", "trait_definition", "chain_extension"],
            Impl => &["impl", "namespace", "unknown", ""],
            Fn => &["constructor", "message", "message", "test", "e2e_test", "extension", "function"],
            Field => &["topic"],
            File => &[],
        };
        let mut kinds: BTreeSet<&str> = BTreeSet::new();
        let n = *rng.pick(&[0, 1, 1, 1, 2, 3]);
        for _ in 0..n {
            let a = if rng.chance(4, 5) {
                let k = *rng.pick(usual);
                let c: Vec<usize> = (0..ATTRS.len()).filter(|a| ATTRS[*a].1 == k).collect();
                *rng.pick(&c)
            } else {
                rng.below(ATTRS.len())
            };
            let k = ATTRS[a].1;
            // an entity is declared once
            let misplaced = (k == "contract" && t.n[i].kind != Mod) || t.n[i].kind == Field && matches!(k, "impl" | "namespace" | "unknown");
            if !misplaced && (k.is_empty() || kinds.insert(k)) {
                t.n[i].attrs.push(a);
            }
        }
    }
    // impls of traits
    let traits: Vec<usize> = (0..t.n.len()).filter(|i| t.n[*i].kind == Trait).collect();
    for i in 1..t.n.len() {
        if t.n[i].kind != Impl || rng.chance(1, 3) {
            continue;
        }
        let here = t.home(i);
        let d = t.n[i].mod_path.len();
        let found = if traits.is_empty() || rng.chance(1, 8) {
            (rng.pick(&["Nope", "crate::Nope", "super::Nope", "self::m0::Nope", "nope::T1"]).to_string(), None)
        } else {
            let tr = *rng.pick(&traits);
            let path: Vec<String> = t.n[tr].mod_path.iter().map(|m| format!("m{m}::")).collect();
            let full = format!("crate::{}T{tr}", path.concat());
            let same = t.home(tr) == here;
            let text = if same && rng.chance(1, 2) {
                rng.pick(&[format!("T{tr}"), format!("self::T{tr}")]).clone()
            } else if d > 0 && rng.chance(1, 2) {
                format!("{}{}T{tr}", "super::".repeat(d), path.concat())
            } else if rng.chance(1, 3) {
                let u = t.uses.entry(here).or_default();
                if rng.chance(1, 2) {
                    let alias = format!("Q{}", i);
                    u.push(format!("use {full} as {alias};"));
                    alias
                } else {
                    if !same && !u.contains(&format!("use {full};")) {
                        u.push(format!("use {full};"));
                    }
                    format!("T{tr}")
                }
            } else {
                full
            };
            (text, Some(tr))
        };
        t.n[i].trait_ = Some(found);
    }
    t
}

fn render(t: &mut Tree, rng: &mut Rng, i: usize, out: &mut String, depth: usize) {
    let pad = "    ".repeat(depth);
    let gap = |rng: &mut Rng| *rng.pick(&["\n", "\n\n", "\n// note: #[ink(event)]\n\n", "\n/* #[ink::contract] */\n"]);
    if i != 0 {
        for a in t.n[i].attrs.clone() {
            *out += &format!("{pad}{}{}", ATTRS[a].0, if ATTRS[a].0.starts_with("///") { "\n" } else { *rng.pick(&["\n", "\n", " ", "\n// c\n", "/* c */\n"]) });
        }
        *out += &pad;
    }
    let (head, open, close) = match t.n[i].kind {
        File => (String::new(), "", ""),
        Mod => (format!("mod m{i} "), "{", "}"),
        Struct => (format!("pub struct S{i} "), "{", "}"),
        Trait => (format!("pub trait T{i} "), "{", "}"),
        Impl => (
            match &t.n[i].trait_ {
                Some((p, _)) => format!("impl {p} for S "),
                None => "impl S ".into(),
            },
            "{",
            "}",
        ),
        Fn if t.n[t.n[i].parent].kind == Trait && t.n[i].kids.is_empty() => (format!("fn f{i}(&self)"), "", ";"),
        Fn => (format!("pub fn f{i}(&self) "), "{", "}"),
        Field => (format!("x{i}: u8"), "", ""),
    };
    *out += &head;
    *out += open;
    for u in t.uses.get(&i).cloned().unwrap_or_default() {
        *out += &format!("\n{pad}    {u}");
    }
    for k in t.n[i].kids.clone() {
        *out += gap(rng);
        render(t, rng, k, out, depth + 1);
        if t.n[k].kind == Field {
            *out += ",";
        }
    }
    if !t.n[i].kids.is_empty() {
        *out += gap(rng);
        *out += &pad;
    }
    *out += close;
    t.n[i].end = out.len();
}

/// the items behind entities, by where they end in the source
fn ids<T: InkEntity>(t: &Tree, es: &[T]) -> Vec<usize> {
    es.iter().map(|e| id(t, e.syntax())).collect()
}
fn id(t: &Tree, node: &SyntaxNode) -> usize {
    let e = usize::from(node.text_range().end());
    t.n.iter().skip(1).position(|n| n.end == e).map_or(usize::MAX, |i| i + 1)
}
fn attr_ids(t: &Tree, a: impl Iterator<Item = ir::InkAttribute>) -> Vec<(usize, String)> {
    a.map(|a| (id(t, &a.syntax().parent().unwrap()), a.syntax().to_string())).collect()
}
fn want_attrs(t: &Tree, v: &[(usize, &'static str)]) -> Vec<(usize, String)> {
    v.iter().map(|(i, k)| (*i, t.n[*i].attrs.iter().find(|a| ATTRS[**a].1 == *k).map(|a| ATTRS[*a].0.to_string()).unwrap())).collect()
}

pub fn p11(run: &mut Run) {
    run.rule = "random trees of modules, types, impls, traits and functions with random attributes, layout and trait paths; distinct source texts".into();
    for code in [
        "type A = B; type B = A;\n#[ink::contract(env = A)]\nmod c {}",
        "type A = A;\n#[ink::contract(env = A)]\nmod c {}",
        "type A = crate::B; type B = self::A;\n#[ink::contract(env = crate::A)]\nmod c {}",
        "mod a { pub use super::b::Foo; }\nmod b { pub use super::a::Foo; }\n#[ink::contract]\nmod c { use crate::a::Foo; impl Foo for C {} }",
        "use self::X as X;\nimpl X for C {}\n#[ink::contract]\nmod c { use super::X; impl X for C {} }",
        "use crate::a as b; use crate::b as a;\n#[ink::contract(env = a::E)]\nmod c { impl crate::a::T for C {} }",
        "mod a { pub use super::*; }\nuse a::*;\n#[ink::contract(env = Q)]\nmod c { use super::*; impl Q for C {} }",
    ] {
        // an endless recursion ends the process, which the check reports with this input
        eprintln!("analyzing {code:?}");
        run.case(code, true);
        let got = guard(|| {
            let f = InkFile::parse(code);
            let e: Vec<bool> = f.contracts().iter().map(|c| ir::HasInkEnvironment::environment(c).is_some()).collect();
            (f.contracts().len(), e, f.contracts().iter().map(|c| c.impls().len()).sum::<usize>())
        });
        run.eq("cyclic names", got, Ok((1, vec![false], 0)), || code.to_string());
    }
    for _ in 0..run.scale(900) {
        let mut rng = run.rng.fork();
        let mut t = generate(&mut rng);
        let mut code = String::new();
        render(&mut t, &mut rng, 0, &mut code, 0);
        run.case(&code, true);
        let t = &t;
        let input = || code.clone();
        let got = match guard(|| InkFile::parse(&code)) {
            Ok(f) => f,
            Err(e) => {
                run.fail("panics", e, code.clone());
                continue;
            }
        };
        let f = &got;
        let through = |_: usize, k: &str| k == "contract";
        run.eq("file: contracts", ids(t, f.contracts()), t.near(0, "contract"), input);
        run.eq("file: events", ids(t, f.events_v2()), t.peek(0, "event_v2", through), input);
        run.eq("file: trait definitions", ids(t, f.trait_definitions()), t.peek(0, "trait_definition", through), input);
        run.eq("file: chain extensions", ids(t, f.chain_extensions()), t.peek(0, "chain_extension", through), input);
        run.eq("file: storage items", ids(t, f.storage_items()), t.peek(0, "storage_item", through), input);
        run.eq("file: tests", ids(t, f.tests()), t.near(0, "test"), input);
        run.eq("file: e2e tests", ids(t, f.e2e_tests()), t.near(0, "e2e_test"), input);
        for c in f.contracts() {
            let i = id(t, c.syntax());
            if i != usize::MAX {
                contract(run, t, c, i, &code);
            }
        }
        for (e, what) in f.trait_definitions().iter().zip(t.peek(0, "trait_definition", through)) {
            run.eq("trait definition: messages", ids(t, e.messages()), t.near(what, "message"), input);
        }
        for (e, what) in f.chain_extensions().iter().zip(t.peek(0, "chain_extension", through)) {
            run.eq("chain extension: extensions", ids(t, e.extensions()), t.near(what, "extension"), input);
            run.eq("chain extension: functions", ids(t, e.functions()), t.near(what, "function"), input);
        }
        for (e, what) in f.events_v2().iter().zip(t.peek(0, "event_v2", through)) {
            run.eq("event 2.0: topics", ids(t, e.topics()), t.near(what, "topic"), input);
        }
        // every item: its own attributes, the ones below and the ones above
        for node in f.syntax().descendants() {
            use ink_analyzer_ir::ast;
            if !(ast::Item::can_cast(node.kind()) || ast::RecordField::can_cast(node.kind())) || ast::Use::can_cast(node.kind()) {
                continue;
            }
            let i = id(t, &node);
            if i == usize::MAX {
                continue;
            }
            let own: Vec<(usize, &'static str)> = t.ink(i).into_iter().map(|k| (i, k)).collect();
            run.eq("own attributes", attr_ids(t, ir::ink_attrs(&node)), want_attrs(t, &own), input);
            run.eq("attributes below", attr_ids(t, ir::ink_attrs_descendants(&node)), want_attrs(t, &t.all(i)), input);
            run.eq("closest attributes below", attr_ids(t, ir::ink_attrs_closest_descendants(&node)), want_attrs(t, &t.closest(i)), input);
            let mut scope = own.clone();
            scope.extend(t.all(i));
            run.eq("attributes in scope", attr_ids(t, ir::ink_attrs_in_scope(&node)), want_attrs(t, &scope), input);
            run.eq("attributes above", attr_ids(t, ir::ink_attrs_ancestors(&node)), want_attrs(t, &t.above(i)), input);
            let near: Vec<(usize, &'static str)> = t.above(i).first().map_or(vec![], |(p, _)| t.ink(*p).into_iter().map(|k| (*p, k)).collect());
            run.eq("closest attributes above", attr_ids(t, ir::ink_attrs_closest_ancestors(&node)), want_attrs(t, &near), input);
            if let Some(a) = ir::ink_attrs(&node).next() {
                run.eq("attributes above an attribute", attr_ids(t, ir::ink_attrs_ancestors(a.syntax())), want_attrs(t, &t.above(i)), input);
                run.eq("closest attributes above an attribute", attr_ids(t, ir::ink_attrs_closest_ancestors(a.syntax())), want_attrs(t, &near), input);
            }
        }
    }
}

fn contract(run: &mut Run, t: &Tree, c: &Contract, i: usize, code: &str) {
    let input = || code.to_string();
    run.eq("contract: storage", c.storage().map(|s| id(t, s.syntax())), t.near(i, "storage").first().copied(), input);
    run.eq("contract: events", ids(t, c.events()), t.near(i, "event"), input);
    run.eq("contract: constructors", ids(t, c.constructors()), t.callables(i, "constructor"), input);
    run.eq("contract: messages", ids(t, c.messages()), t.callables(i, "message"), input);
    run.eq("contract: tests", ids(t, c.tests()), t.near(i, "test"), input);
    run.eq("contract: e2e tests", ids(t, c.e2e_tests()), t.near(i, "e2e_test"), input);
    let impls = ids(t, c.impls());
    run.eq("contract: impls", impls.iter().copied().collect::<BTreeSet<_>>(), t.impls(i), input);
    run.eq("contract: each impl once", impls.len(), t.impls(i).len(), input);
    for e in c.events() {
        run.eq("event: topics", ids(t, e.topics()), t.near(id(t, e.syntax()), "topic"), input);
    }
    for e in c.impls() {
        let k = id(t, e.syntax());
        if k == usize::MAX {
            continue;
        }
        run.eq("impl: constructors", ids(t, e.constructors()), t.near(k, "constructor"), input);
        run.eq("impl: messages", ids(t, e.messages()), t.near(k, "message"), input);
        run.eq("impl: marked", e.impl_attr().is_some(), t.ink(k).contains(&"impl"), input);
        let want = t.n[k].trait_.as_ref().and_then(|x| x.1).filter(|x| t.ink(*x).contains(&"trait_definition"));
        run.eq("impl: trait definition", e.trait_definition().map(|d| id(t, d.syntax())), want, input);
    }
}
