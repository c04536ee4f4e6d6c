//! P10: executable contracts of argument values, ids and selectors (independent oracle: Rust's literals, BLAKE2b and ink!'s rules).
use crate::attrs::{first_attr, noise};
use crate::core::*;
use ink_analyzer_ir::ast;
use ink_analyzer_ir::syntax::{AstNode, SourceFile};
use ink_analyzer_ir::{ChainExtension, Constructor, Extension, Function, InkAttribute, InkEntity, IsInkCallable, Message, Selector, SelectorArg};

/// BLAKE2b with a 32 byte digest, written from RFC 7693.
pub fn blake2b256(data: &[u8]) -> [u8; 32] {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    let blocks = data.chunks(128).count().max(1);
    for i in 0..blocks {
        let chunk = &data[(i * 128).min(data.len())..((i + 1) * 128).min(data.len())];
        let mut buf = [0u8; 128];
        buf[..chunk.len()].copy_from_slice(chunk);
        let m: Vec<u64> = buf.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= (i * 128 + chunk.len()) as u64;
        if i + 1 == blocks {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for j in 0..8 {
            h[j] ^= v[j] ^ v[j + 8];
        }
    }
    let mut out = [0; 32];
    for j in 0..4 {
        out[j * 8..j * 8 + 8].copy_from_slice(&h[j].to_le_bytes());
    }
    out
}

/// An integer literal and the number it denotes.
pub fn int_literal(rng: &mut Rng) -> (String, u128) {
    let n: u128 = match rng.range(0, 9) {
        0 => 0,
        1 => u16::MAX as u128,
        2 => u16::MAX as u128 + 1,
        3 => u32::MAX as u128,
        4 => u32::MAX as u128 + 1,
        5 => 0x9BAE9D5E,
        6 => rng.next() as u128 % 300,
        7 => rng.next() as u128 % 70_000,
        _ => rng.next() as u128 % (1 << 34),
    };
    let (p, mut d) = match rng.range(0, 5) {
        0 => ("0o", format!("{n:o}")),
        1 => ("0b", format!("{n:b}")),
        2 => ("0x", format!("{n:x}")),
        3 => ("0x", format!("{n:X}")),
        _ => ("", format!("{n}")),
    };
    if rng.chance(1, 4) {
        d = format!("{}{d}", "0".repeat(rng.range(1, 4)));
    }
    if rng.chance(1, 3) && d.len() > 1 {
        let i = rng.range(1, d.len());
        d.insert(i, '_');
    }
    if rng.chance(1, 6) {
        d.push('_');
    }
    let suffix = if rng.chance(1, 5) { *rng.pick(&["u32", "u16", "u64", "usize", "_u8"]) } else { "" };
    (format!("{p}{d}{suffix}"), n)
}

/// A string literal and the text it denotes.
pub fn str_literal(rng: &mut Rng, text: &str) -> String {
    match rng.range(0, 4) {
        0 => format!("r#\"{text}\"#"),
        1 if !text.contains('"') => format!("r\"{text}\""),
        _ => {
            let mut s = String::from("\"");
            for c in text.chars() {
                match c {
                    '"' => s += "\\\"",
                    '\\' => s += "\\\\",
                    '\n' => s += "\\n",
                    c if rng.chance(1, 8) => s += &format!("\\u{{{:x}}}", c as u32),
                    c if c.is_ascii() && rng.chance(1, 8) => s += &format!("\\x{:02x}", c as u32),
                    c => s.push(c),
                }
            }
            s + "\""
        }
    }
}

fn entities<T: InkEntity>(code: &str) -> Vec<T> {
    SourceFile::parse(code).tree().syntax().descendants().filter_map(T::cast).collect()
}

pub fn p10(run: &mut Run) {
    run.rule = "random literals, ids and callables with random selectors, namespaces, trait paths and layout; distinct source texts".into();
    // self check of the oracle: vectors from the repository's documentation of selectors
    assert_eq!(&blake2b256(b"my_message")[..4], &0x6A469E03u32.to_be_bytes());
    for _ in 0..run.scale(2500) {
        let mut rng = run.rng.fork();
        let (lit, n) = int_literal(&mut rng);
        let name = *rng.pick(&["selector", "extension", "function"]);
        let code = format!("#[ink({name}{}={}{lit}{})]\nfn f() {{}}", noise(&mut rng), noise(&mut rng), noise(&mut rng));
        run.case(&code, true);
        let got = guard(|| {
            let a = InkAttribute::cast(first_attr(&code)?)?;
            let arg = a.args().first()?.clone();
            let v = arg.value()?.clone();
            let s = SelectorArg::cast(arg.clone());
            let r = v.text_range();
            Some((
                v.as_u16(),
                v.as_u32(),
                (v.as_string(), v.as_bool(), v.is_wildcard(), v.is_at_symbol()),
                s.map(|s| (s.is_wildcard(), s.is_wildcard_complement(), s.as_u32())),
                code[usize::from(r.start())..usize::from(r.end())].to_string(),
            ))
        });
        let want = Some((
            u16::try_from(n).ok(),
            u32::try_from(n).ok(),
            (None, None, false, false),
            (name == "selector").then(|| (false, n == 0x9BAE9D5E, u32::try_from(n).ok())),
            lit.clone(),
        ));
        run.eq("integer value", got, Ok(want), || code.clone());
    }
    for _ in 0..run.scale(1500) {
        let mut rng = run.rng.fork();
        let n = rng.range(0, 12);
        let text: String = (0..n).map(|_| *rng.pick(&['a', 'b', '_', '9', ' ', '"', '\\', '\n', 'é', '😀', '=', ',', ')', '#'])).collect();
        let text = if text.contains("\"#") { text.replace('#', "") } else { text };
        let lit = str_literal(&mut rng, &text);
        let code = format!("#[ink(namespace{}={}{lit}{})]\nimpl X {{}}", noise(&mut rng), noise(&mut rng), noise(&mut rng));
        run.case(&code, true);
        let got = guard(|| {
            let a = InkAttribute::cast(first_attr(&code)?)?;
            let v = a.args().first()?.value()?.clone();
            Some((v.as_string(), v.as_u32(), v.as_bool(), v.is_wildcard(), if text.contains('😀') { None } else { v.as_ident().map(|i| i.to_string()) }))
        });
        // (emoji are left open: rust-analyzer's lexer recovers them as identifiers)
        // identifiers: a letter or underscore, then letters, digits, underscores; not only `_`
        let ident = text != "_" && text.chars().next().is_some_and(|c| c == 'a' || c == 'b' || c == '_' || c == 'é') && text.chars().all(|c| matches!(c, 'a' | 'b' | '_' | '9' | 'é'));
        run.eq("string value", got, Ok(Some((Some(text.clone()), None, None, false, ident.then(|| text.clone())))), || code.clone());
    }
    for hex in 0..run.scale(200) {
        let mut rng = run.rng.fork();
        let len = *rng.pick(&[0, 1, 31, 32, 32, 32, 33, 64]);
        let bytes: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
        let digits: String = bytes.iter().map(|b| if hex % 2 == 0 { format!("{b:02x}") } else { format!("{b:02X}") }).collect();
        let text = format!("{}{digits}", if rng.chance(1, 2) { "0x" } else { "" });
        let code = format!("#[ink(signature_topic = {})]\nstruct X;", str_literal(&mut rng, &text));
        run.case(&code, true);
        let got = guard(|| InkAttribute::cast(first_attr(&code)?)?.args().first()?.value()?.as_hex_32());
        run.eq("hex value", got, Ok(<[u8; 32]>::try_from(bytes).ok()), || code.clone());
    }
    for (v, want) in [("_", (true, false)), ("@", (false, true))] {
        for (pre, post) in [("", ""), (" ", " "), ("/* a */", "// b\n"), ("\n", "/* c */")] {
            let code = format!("#[ink(message, selector ={pre}{v}{post})]\nfn f(&self) {{}}");
            run.case(&code, true);
            let got = guard(|| {
                let a = InkAttribute::cast(first_attr(&code)?)?;
                let s = SelectorArg::cast(a.args().iter().find(|a| a.to_string().starts_with("selector"))?.clone())?;
                Some((s.is_wildcard(), s.is_wildcard_complement()))
            });
            run.eq("wildcards", got, Ok(Some(want)), || code.clone());
        }
    }
    for _ in 0..run.scale(600) {
        let mut rng = run.rng.fork();
        let (l, n) = int_literal(&mut rng);
        let (l2, n2) = int_literal(&mut rng);
        let v4 = format!("#[ink::chain_extension]\ntrait X {{\n    #[ink(extension = {l}, handle_status = false)]\n    fn f();\n}}");
        let v5 = format!("#[ink::chain_extension(extension = {l2})]\ntrait X {{\n    #[ink(handle_status = true, function = {l})]\n    fn f();\n}}");
        run.case(&v4, true);
        run.case(&v5, true);
        let got = guard(|| entities::<Extension>(&v4).first().map(|e| e.id()));
        run.eq("extension id", got, Ok(Some(u32::try_from(n).ok())), || v4.clone());
        let got = guard(|| entities::<Function>(&v5).first().map(|e| e.id()));
        run.eq("function id", got, Ok(Some(u16::try_from(n).ok())), || v5.clone());
        let got = guard(|| entities::<ChainExtension>(&v5).first().map(|e| e.id()));
        run.eq("chain extension id", got, Ok(Some(u16::try_from(n2).ok())), || v5.clone());
    }
    for _ in 0..run.scale(2500) {
        let mut rng = run.rng.fork();
        let names = ["flip", "get", "a", "my_message", "_x", "transfer_from", "new", "é", "r#type"];
        let f = *rng.pick(&names);
        let ns = if rng.chance(1, 3) { Some(*rng.pick(&["my_ns", "x", "Token", "r"])) } else { None };
        let trait_ = if rng.chance(2, 3) {
            let full = rng.chance(1, 3);
            let n = rng.range(1, 5);
            let segs: Vec<&str> = (0..n).map(|i| if i == 0 && !full && n > 1 && rng.chance(1, 4) { *rng.pick(&["crate", "self", "super"]) } else { *rng.pick(&["a", "erc20", "Flip", "Trait", "b1"]) }).collect();
            let generic = if rng.chance(1, 6) { "<u8>" } else { "" };
            let sp = |rng: &mut Rng| if rng.chance(1, 6) { *rng.pick(&[" ", "\n", "/* c */", " "]) } else { "" };
            let mut src = String::new();
            for (i, s) in segs.iter().enumerate() {
                if i > 0 || full {
                    src += "::";
                    src += sp(&mut rng);
                }
                src += s;
                src += if i + 1 < segs.len() { sp(&mut rng) } else { "" };
            }
            let src = format!("{src}{generic}");
            let want = if full { format!("::{}{generic}", segs.join("::")) } else { segs.last().unwrap().to_string() };
            Some((src, want))
        } else {
            None
        };
        let is_ctor = rng.chance(1, 3);
        let (sel, want_sel): (Option<String>, Option<u32>) = match rng.range(0, 6) {
            0 => {
                let (l, n) = int_literal(&mut rng);
                (Some(l), u32::try_from(n).ok())
            }
            1 => (Some("_".into()), None),
            2 => (Some("@".into()), Some(0x9BAE9D5E)),
            _ => (None, None),
        };
        let mut args = vec![if is_ctor { "constructor".to_string() } else { "message".to_string() }];
        if let Some(s) = &sel {
            args.push(format!("selector{}={}{s}", noise(&mut rng), noise(&mut rng)));
        }
        if rng.chance(1, 3) {
            args.push("payable".into());
        }
        if rng.chance(1, 2) {
            args.reverse();
        }
        let attrs = if rng.chance(1, 5) { args.iter().map(|a| format!("    #[ink({a})]\n")).collect::<String>() } else { format!("    #[ink({})]\n", args.join(", ")) };
        let ns_attr = ns.map_or(String::new(), |n| format!("#[ink(impl, namespace = {})]\n", str_literal(&mut rng, n)));
        let head = match &trait_ {
            Some((t, _)) => format!("impl {t} for Contract"),
            None => "impl Contract".to_string(),
        };
        let sig = if is_ctor { format!("pub fn {f}() -> Self {{ todo!() }}") } else { format!("pub fn {f}(&self) {{}}") };
        let code = format!("{ns_attr}{head} {{\n{attrs}    {sig}\n}}");
        run.case(&code, true);
        let parts: Vec<&str> = [ns, trait_.as_ref().map(|t| t.1.as_str()), Some(f)].into_iter().flatten().collect();
        let pre = parts.join("::");
        let hash = blake2b256(pre.as_bytes());
        let want = want_sel.unwrap_or(u32::from_be_bytes([hash[0], hash[1], hash[2], hash[3]]));
        let got = guard(|| {
            let s = if is_ctor { entities::<Constructor>(&code).first()?.composed_selector() } else { entities::<Message>(&code).first()?.composed_selector() };
            s.map(|s: Selector| (s.into_be_u32(), s.to_bytes()))
        });
        run.eq("selector", got, Ok(Some((want, want.to_be_bytes()))), || format!("{code}\n// selector text: {pre}"));
    }
    let _ = ast::SourceFile::can_cast;
}
