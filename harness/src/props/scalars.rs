//! C05-C08: quoted strings, heredocs, numbers, identifiers
use crate::frame::{Env, Prop, Rec};
use crate::gen;
use crate::rng::Rng;
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::number::Number;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::value::{self, Value};
use ferrous_chloride::AsOwned;
use serde::Deserialize;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unic_ucd_ident::{is_id_continue, is_id_start};

#[derive(Deserialize)]
struct S {
    a: String,
}

#[derive(Deserialize)]
struct Ss {
    a: Vec<String>,
}

// ---------------------------------------------------------------------------------------------

pub static C05: Prop = Prop {
    id: "C05",
    rule: "Exhaustive: each of the 1 112 064 characters, alone in a string, spelled raw and in every applicable escape form (\\x, \\u, \\U, octal), batched 256 at a time; each character after a backslash below U+0250; each of the 2048 surrogates. Random: strings of difficult characters with each character spelled in a randomly chosen way, in value, label and object key position, through the AST, the legacy interface and serde; digit runs around the greedy escape lengths; broken escapes, missing quotes and raw newlines in labels, which have to be rejected. Non-trivial: a string literal with at least one escape or non-ASCII character; distinct by text.",
    cases: (4352 + 40 + 200_000, 4352 + 40 + 3_000_000),
    threads: 8,
    run: run_c05,
    need: &["characters_raw", "characters_escaped", "escape_letters", "surrogates", "surrogate_pairs", "spelled_bytes", "round_trips", "rejections", "greedy", "long_labels"],
    exhaustive: true,
};

fn expect_strings(rec: &mut Rec, lits: &[String], want: &[String], sig: &str, legacy: bool) {
    let text = format!("a = [{}]\n", lits.join(", "));
    rec.input(&text);
    rec.eval();
    rec.nontrivial(text.as_bytes());
    match ferrous_chloride::parse_str(&text) {
        Err(e) => {
            // Find the literal
            for (l, w) in lits.iter().zip(want) {
                if Expression::parse(l).is_err() {
                    rec.input(l);
                    return rec.fail(sig, format!("literal of {:?} rejected", w));
                }
            }
            rec.fail(sig, format!("rejected: {}", e))
        }
        Ok(b) => {
            let got = match &b[..] {
                [BodyElement::Attribute((_, Expression::Tuple(t)))] => t.clone(),
                _ => return rec.fail(sig, "not a tuple"),
            };
            rec.check(got.len() == want.len(), sig, || format!("{} strings became {}", want.len(), got.len()));
            for ((g, w), l) in got.iter().zip(want).zip(lits) {
                let ok = match g {
                    Expression::String(s) => s.as_ref() == w.as_str(),
                    _ => false,
                };
                if !rec.check(ok, sig, || format!("literal {} should be {:?}, is {:?}", l, w, g)) {
                    return;
                }
            }
        }
    }
    if legacy {
        match value::from_str(&text, None) {
            Err(e) => rec.fail(sig, format!("rejected by the legacy interface: {}", e)),
            Ok(m) => {
                let l = m.get_single("a").and_then(|v| v.borrow_list().ok());
                let ok = l.map_or(false, |l| l.iter().zip(want).all(|(g, w)| g.borrow_str().ok() == Some(w.as_str())) && l.len() == want.len());
                rec.check(ok, sig, || format!("legacy interface: expected {:?}, got {:?}", want, l));
            }
        }
        match ferrous_chloride::from_str::<Ss>(&text) {
            Err(e) => rec.fail(sig, format!("rejected by serde: {}", e)),
            Ok(s) => {
                rec.check(s.a == want, sig, || format!("serde: expected {:?}, got {:?}", want, s.a));
            }
        }
    }
}

/// Mostly the high half comes first
fn v_order(high: &str, low: &str) -> bool {
    (high.len() + low.len()) % 3 != 1
}

fn all_reject(rec: &mut Rec, text: &str, sig: &str, why: &str) {
    rec.input(text);
    rec.eval();
    rec.count("rejections");
    let a = ferrous_chloride::parse_str(text).is_ok();
    let b = value::from_str(text, None).is_ok();
    let c = ferrous_chloride::from_str::<serde::de::IgnoredAny>(text).is_ok();
    rec.check(!(a || b || c), sig, || {
        format!("{}: accepted (AST {}, legacy {}, serde {})", why, a, b, c)
    });
}

fn run_c05(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    if i < 4352 {
        let base = (i as u32) * 256;
        let chars: Vec<char> = (base..base + 256).filter_map(std::char::from_u32).collect();
        if chars.is_empty() {
            return;
        }
        let want: Vec<String> = chars.iter().map(|c| c.to_string()).collect();
        let raw: Vec<String> = chars
            .iter()
            .map(|c| match c {
                '"' => "\"\\\"\"".to_string(),
                '\\' => "\"\\\\\"".to_string(),
                c => format!("\"{}\"", c),
            })
            .collect();
        expect_strings(rec, &raw, &want, "string-char", true);
        rec.add("characters_raw", chars.len() as u64);
        // One string of all of them, in the middle of text
        let one: String = chars.iter().filter(|c| **c != '"' && **c != '\\').collect();
        expect_strings(rec, &[format!("\"<{}>\"", one)], &[format!("<{}>", one)], "string-char", true);
        let mut forms: Vec<Box<dyn Fn(u32) -> Option<String>>> = vec![
            Box::new(|v| Some(format!("\\U{:08x}", v))),
            Box::new(|v| Some(format!("\\U{:X}", v))),
            Box::new(|v| if v <= 0xffff { Some(format!("\\u{:04X}", v)) } else { None }),
        ];
        if base <= 0x300 {
            forms.push(Box::new(|v| if v <= 0xffff { Some(format!("\\u{:x}", v)) } else { None }));
            forms.push(Box::new(|v| if v <= 0xff { Some(format!("\\x{:02x}", v)) } else { None }));
            forms.push(Box::new(|v| if v <= 0xff { Some(format!("\\x{:X}", v)) } else { None }));
            forms.push(Box::new(|v| if v <= 0o777 { Some(format!("\\{:03o}", v)) } else { None }));
            forms.push(Box::new(|v| if v <= 0o777 { Some(format!("\\{:o}", v)) } else { None }));
        }
        for f in &forms {
            let (mut lits, mut w) = (vec![], vec![]);
            for c in &chars {
                if let Some(e) = f(*c as u32) {
                    lits.push(format!("\"a{}z\"", e));
                    w.push(format!("a{}z", c));
                }
            }
            if !lits.is_empty() {
                rec.add("characters_escaped", lits.len() as u64);
                expect_strings(rec, &lits, &w, "escape", base < 0x1000);
            }
        }
        return;
    }
    if i < 4352 + 40 {
        let k = (i - 4352) as u32;
        // Escape letters
        for c in (k * 15..(k + 1) * 15).filter_map(std::char::from_u32) {
            if (c as u32) >= 0x250 {
                break;
            }
            rec.count("escape_letters");
            let named = match c {
                'a' => Some('\x07'),
                'b' => Some('\x08'),
                'f' => Some('\x0c'),
                'n' => Some('\n'),
                'r' => Some('\r'),
                't' => Some('\t'),
                'v' => Some('\x0b'),
                '\\' => Some('\\'),
                '"' => Some('"'),
                '?' => Some('?'),
                c @ '0'..='7' => std::char::from_u32(c as u32 - 0x30),
                _ => None,
            };
            match named {
                Some(n) => {
                    expect_strings(rec, &[format!("\"<\\{}>\"", c)], &[format!("<{}>", n)], "escape", true);
                    expect_strings(rec, &[format!("\"\\{}\"", c)], &[n.to_string()], "escape", true);
                }
                None => {
                    for t in &[format!("a = \"<\\{}>\"\n", c), format!("a = \"\\{}\"\n", c), format!("a \"\\{}\" {{\n}}\n", c)] {
                        all_reject(rec, t, "bad-escape", "no such escape");
                    }
                }
            }
        }
        // Surrogates, and beyond
        for v in 0xd800 + k * 52..(0xd800 + (k + 1) * 52).min(0xe000) {
            rec.count("surrogates");
            all_reject(rec, &format!("a = \"\\u{:04x}\"\n", v), "bad-escape", "a surrogate");
            all_reject(rec, &format!("a = \"x\\U{:08X}y\"\n", v), "bad-escape", "a surrogate");
        }
        // Two halves make no character, whichever way they are spelled
        for _ in 0..40 {
            rec.count("surrogate_pairs");
            let mut spell = |high: bool| {
                let v = if high { 0xd800 } else { 0xdc00 } + r.below(0x400) as u32;
                match r.below(4) {
                    0 => format!("\\u{:04x}", v),
                    1 => format!("\\u{:04X}", v),
                    2 => format!("\\U{:08X}", v),
                    _ => format!("\\U{:04x}", v),
                }
            };
            let t = match (spell(true), spell(false)) {
                (h, l) if v_order(&h, &l) => format!("{}{}", h, l),
                (h, l) => format!("{}{}", l, h),
            };
            for text in &[format!("a = \"{}\"\n", t), format!("a = \"x{}y\"\n", t), format!("b \"{}\" {{\n}}\n", t), format!("a = {{ \"{}\" = 1 }}\n", t)] {
                all_reject(rec, text, "bad-escape", "a pair of surrogates");
            }
        }
        // Escapes which spell the bytes of a character are as many characters
        for _ in 0..40 {
            rec.count("spelled_bytes");
            let range = if r.one_in(2) { 0x700 } else { 0x10_ff00 };
            let c = std::char::from_u32(0x80 + r.below(range) as u32).unwrap_or('é');
            let mut buffer = [0; 4];
            let bytes = c.encode_utf8(&mut buffer).as_bytes();
            let want: String = bytes.iter().map(|b| *b as char).collect();
            let form = r.below(4);
            let lit: String = bytes
                .iter()
                .map(|b| match form {
                    0 => format!("\\x{:02x}", b),
                    1 => format!("\\x{:02X}", b),
                    2 => format!("\\u{:04x}", b),
                    _ => format!("\\{:03o}", b),
                })
                .collect();
            expect_strings(rec, &[format!("\"{}\"", lit), format!("\"<{}>\"", lit)], &[want.clone(), format!("<{}>", want)], "escape", true);
        }
        for _ in 0..20 {
            let v = 0x110000 + r.below(0xffef_0000) as u32;
            all_reject(rec, &format!("a = \"\\U{:08x}\"\n", v), "bad-escape", "beyond the last code point");
        }
        return;
    }
    match i % 8 {
        0 => {
            // Greedy escapes: as many digits as there can be, not one more
            let hex = |r: &mut Rng| -> char { r.pickc(&['0', '1', '4', '7', '8', '9', 'a', 'e', 'f', 'A', 'E', 'F', '2']) };
            let (intro, max, radix) = r.pickc(&[("x", 2usize, 16u32), ("u", 4, 16), ("", 3, 8)]);
            let n = r.range(1, max + 3);
            let digits: String = (0..n)
                .map(|_| if radix == 8 { r.pickc(&['0', '1', '2', '3', '4', '5', '6', '7']) } else { hex(r) })
                .collect();
            let k = n.min(max);
            let v = u32::from_str_radix(&digits[..k], radix).unwrap();
            let follow = r.pick(&["", "g", "z", " ", "8", "9", "\\n", "é"]);
            // A digit which follows belongs to the escape when there is room for it
            if (radix == 16 || k == max) || !(follow == "8" || follow == "9") {
                if k < max && radix == 16 && (follow == "8" || follow == "9") {
                    return;
                }
                let lit = format!("\"{}\\{}{}{}\"", r.pick(&["", "p"]), intro, digits, follow);
                if let Some(c) = std::char::from_u32(v) {
                    let f = if follow == "\\n" { "\n" } else { follow };
                    let p = if lit.starts_with("\"p") { "p" } else { "" };
                    let want = format!("{}{}{}{}", p, c, &digits[k..], f);
                    expect_strings(rec, &[lit], &[want], "greedy-escape", true);
                    rec.count("greedy");
                }
            }
        }
        1 => {
            // Broken literals
            let s = gen::string(r);
            let q = gen::quote(r, &s, true, true);
            let body = &q[1..q.len() - 1];
            let bad = match r.below(8) {
                0 => format!("a = \"{}\n", body),
                1 => format!("a = {}\"\n", if body.is_empty() { "x" } else { body }),
                2 => format!("a = \"{}\\\"\n", body),
                3 => format!("a = \"{}\\x\"\n", body),
                4 => format!("a = \"{}\\u\"\n", body),
                5 => format!("a = \"{}\\U\"\n", body),
                6 => format!("a = \"{}\\{}\"\n", body, r.pick(&["xg", "ug", "UG", "8", "9", "e", "0\\", "$", "{", "'", " ", "\n", "N", "X41", "é"])),
                _ => {
                    let l = label_with_newline(r);
                    format!("a {} {{\n}}\n", l)
                }
            };
            // Unquoted remains may happen to be something else: only when no other quote pairs up
            let quotes = bad.matches('"').count();
            if r_is_surely_bad(&bad, quotes) {
                all_reject(rec, &bad, "bad-literal", "a broken string literal");
            }
        }
        2 | 3 => {
            let mut s = gen::label_text(r);
            if r.one_in(12) {
                // A long one
                for _ in 0..r.size(2000) {
                    s.push_str(&gen::label_text(r));
                }
                rec.count("long_labels");
            }
            let q = gen::quote(r, &s, false, true);
            let text = format!("t {} {{\n  b {} {{\n  }}\n}}\n", q, q);
            rec.input(&text);
            rec.eval();
            if q.contains('\\') || !q.is_ascii() {
                rec.nontrivial(text.as_bytes());
            }
            match ferrous_chloride::parse_str(&text) {
                Err(e) => rec.fail("label", format!("label {:?} rejected: {}", s, e)),
                Ok(b) => {
                    let ok = match &b[..] {
                        [BodyElement::Block(b)] => match (&b.labels[..], &b.body[..]) {
                            ([l], [BodyElement::Block(c)]) => {
                                let is = |l: &BlockLabel| match l {
                                    BlockLabel::StringLiteral(x) => *x == s && l.as_str() == s && l.as_cow() == s && *l == s,
                                    _ => false,
                                };
                                is(l) && c.labels.len() == 1 && is(&c.labels[0])
                            }
                            _ => false,
                        },
                        _ => false,
                    };
                    rec.check(ok, "label", || format!("label should be {:?}, got {:?}", s, b));
                }
            }
            match value::from_str(&text, None) {
                Err(e) => rec.fail("label", format!("label {:?} rejected by the legacy interface: {}", s, e)),
                Ok(m) => {
                    let ok = match m.get_single("t") {
                        Some(Value::Block(b)) => b.keys().next().map_or(false, |k| k.len() == 1 && k[0] == s),
                        _ => false,
                    };
                    rec.check(ok, "label", || format!("label should be {:?}, got {:?}", s, m));
                }
            }
            // As a key
            let text = format!("a = {{\n{} = 1\n}}\n", q);
            rec.input(&text);
            rec.eval();
            let ok = match ferrous_chloride::parse_str(&text).ok().as_ref().map(|b| &b[..]) {
                Some([BodyElement::Attribute((_, Expression::Object(o)))]) => match &o[..] {
                    [(ObjectElementIdentifier::Expression(t), _)] => match Expression::parse(t) {
                        Ok(Expression::String(x)) => x == s,
                        _ => false,
                    },
                    _ => false,
                },
                _ => false,
            };
            rec.check(ok, "key", || format!("key should be {:?}", s));
            let ok = match value::from_str(&text, None).ok().as_ref().and_then(|m| m.get_single("a").cloned()) {
                Some(Value::Object(o)) => o.len() == 1 && o[0].get_single(s.as_str()).is_some() && o[0].len() == 1,
                _ => false,
            };
            rec.check(ok, "key", || format!("legacy key should be {:?}", s));
            rec.count("round_trips");
        }
        _ => {
            let n = r.range(1, 4);
            let want: Vec<String> = (0..n).map(|_| gen::string(r)).collect();
            let lits: Vec<String> = want.iter().map(|s| gen::quote(r, s, true, true)).collect();
            if i < 4352 + 100 {
                rec.sample(&lits.join(", "));
            }
            expect_strings(rec, &lits, &want, "string", true);
            // Alone
            let text = format!("a = {}", lits[0]);
            rec.input(&text);
            rec.eval();
            let got = ferrous_chloride::from_str::<S>(&text).map(|s| s.a).map_err(|e| e.to_string());
            rec.check(got.as_ref() == Ok(&want[0]), "string", || format!("expected {:?}, got {:?}", want[0], got));
            rec.count("round_trips");
        }
    }
}

fn label_with_newline(r: &mut Rng) -> String {
    format!("\"x{}y\"", r.pick(&["\n", "\r\n", "\r"]))
}

/// Walk the literal at the first quote: broken when it does not end, or holds a broken escape
fn r_is_surely_bad(text: &str, _quotes: usize) -> bool {
    let mut it = text.chars().peekable();
    let label = !text.starts_with("a =");
    let mut before = String::new();
    while let Some(c) = it.next() {
        if c == '"' {
            break;
        }
        before.push(c);
        // No quote at the start: content which was meant to be quoted
        if before.len() > 4 {
            return false;
        }
    }
    loop {
        match it.next() {
            None => return true,
            Some('"') => break,
            Some('\n') | Some('\r') if label => return true,
            Some('\\') => match it.next() {
                None => return true,
                Some(c) if "abfnrtv\\\"?01234567".contains(c) => {}
                Some('x') | Some('u') | Some('U') => {
                    if !it.peek().map_or(false, |c| c.is_ascii_hexdigit()) {
                        return true;
                    }
                }
                Some(_) => return true,
            },
            Some(_) => {}
        }
    }
    false
}

// ---------------------------------------------------------------------------------------------

pub static C06: Prop = Prop {
    id: "C06",
    rule: "Random heredocs: 0-8 lines made of indentation, difficult characters, multibyte text, near-terminators (marker with a prefix, suffix, different case, or in the middle) and blank lines, LF or CRLF per line, lines which end in carriage returns of their own, plain or indented with terminators indented 0-9 spaces or tabs (now and then up to 600 lines, 9000 characters a line, 400 spaces), in every place an expression may be, through the AST, the legacy interface and serde. The value must be the lines verbatim, or with min(own leading spaces, terminator indentation) removed from each line. Heredocs without a terminator line, or with text before or after the marker, must be rejected. Non-trivial: at least one line; distinct by text.",
    cases: (900_000, 12_000_000),
    threads: 8,
    run: run_c06,
    need: &["plain", "indented", "near_terminators", "crlf", "rejections", "lines_shorter_than_indent", "large", "unicode_markers", "long_markers", "returns_at_line_end", "tabs_before_marker"],
    exhaustive: false,
};

/// Any letter or digit there is
fn alphanumeric(r: &mut Rng) -> char {
    if r.one_in(4) {
        // digits and numbers other than those of ASCII are rare
        return r.pickc(&['٣', '६', '９', '²', '½', 'Ⅷ', '①', '௰', '𝟘', '〇', '_', 'ª', 'ƻ', 'ǅ', 'ʰ', 'ё']);
    }
    loop {
        let c = match r.below(3) {
            0 => char::from_u32(r.below(0x250) as u32),
            1 => char::from_u32(r.below(0x10000) as u32),
            _ => char::from_u32(r.below(0x110000) as u32),
        };
        match c {
            Some(c) if c.is_alphanumeric() || c == '_' => return c,
            _ => {}
        }
    }
}

fn run_c06(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let id = r.pick(&["EOF", "E", "EOH", "_x", "藏", "END_1", "1", "é2", "eof", "MARKER_LONG_ONE"]).to_string();
    let id = if r.one_in(4) {
        rec.count("unicode_markers");
        (0..1 + r.below(4)).map(|_| alphanumeric(r)).collect()
    } else if r.one_in(40) {
        rec.count("long_markers");
        let n = r.pickc(&[30, 31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000, 4096]);
        (0..n).map(|k| (b'A' + (k % 26) as u8) as char).collect()
    } else {
        id
    };
    let indented = r.one_in(2);
    // Now and then many lines, lines far to the right, long lines
    let large = r.one_in(40);
    let far = large && r.one_in(2);
    let n = if large && r.one_in(2) { r.size(600) } else { r.below(9) };
    if large {
        rec.count("large");
    }
    let mut lines: Vec<(String, &str)> = vec![];
    let all_crlf = r.one_in(10);
    let mut near = false;
    for _ in 0..n {
        let mut l = String::new();
        let lead = match r.below(5) {
            0 => 0,
            1 => r.below(3),
            2 => r.below(12),
            3 if far => r.size(400),
            _ => r.below(6),
        };
        for _ in 0..lead {
            l.push(' ');
        }
        if r.one_in(15) {
            l.push(r.pickc(&['\t', '\u{a0}', '\u{3000}', '\u{2003}', '\x0b']));
        }
        match r.below(8) {
            0 => {}
            1 => {
                near = true;
                match r.below(7) {
                    0 => l.push_str(&format!("{}x", id)),
                    1 => l.push_str(&format!("x{}", id)),
                    2 => l.push_str(&format!("{} ", id)),
                    3 => l.push_str(&format!("x {}", id)),
                    4 => l.push_str(&id[..id.char_indices().last().unwrap().0]),
                    5 => l.push_str(&format!("{}{}", id, id)),
                    _ => l.push_str(&format!("<<{}", id)),
                }
            }
            2 => {
                for _ in 0..r.range(1, 6) {
                    let c = gen::special_char(r);
                    if c != '\n' && c != '\r' {
                        l.push(c);
                    }
                }
            }
            3 => l.push_str(r.pick(&["a = 1", "\"q\"", "# no comment", "}", "]", "/* x", "${x}", "\\n", "<<EOF", "line with spaces ", "é", "藏老", "\\", "\"\"\"", "😀 x"])),
            4 => {
                for _ in 0..r.size(if large { 9000 } else { 200 }) {
                    l.push(r.pickc(&['a', 'b', ' ', 'é']));
                }
            }
            _ => l.push_str(r.pick(&["word", "two words", "x", "foo: bar", "1", "- item"])),
        }
        if r.one_in(30) {
            l.push('\r');
            l.push('z');
        }
        let mut eol = if all_crlf || r.one_in(25) { "\r\n" } else { "\n" };
        if r.one_in(25) {
            // A carriage return of its own before the end of the line is content
            for _ in 0..r.range(1, 3) {
                l.push('\r');
            }
            eol = "\r\n";
            rec.count("returns_at_line_end");
        }
        // The line must not end the heredoc
        let core = l.trim_start_matches(|c| c == ' ' || c == '\t');
        if core.trim_end_matches('\r') == id {
            continue;
        }
        lines.push((l, eol));
    }
    let t = if r.one_in(3) {
        0
    } else if far {
        r.size(400)
    } else {
        r.below(10)
    };
    // Tabs count as one blank each
    let tabs = r.one_in(12);
    let first_eol = if all_crlf { "\r\n" } else { "\n" };
    let mut h = String::from(if indented { "<<-" } else { "<<" });
    h.push_str(&id);
    h.push_str(first_eol);
    for (l, eol) in &lines {
        h.push_str(l);
        h.push_str(eol);
    }
    for _ in 0..t {
        let tab = tabs && r.one_in(2);
        if tab {
            rec.count("tabs_before_marker");
        }
        h.push(if tab { '\t' } else { ' ' });
    }
    h.push_str(&id);
    // Value: lines without the last line ending
    let mut want = String::new();
    let mut short = false;
    for (k, (l, eol)) in lines.iter().enumerate() {
        let lead = l.bytes().take_while(|b| *b == b' ').count();
        let cut = if indented { lead.min(t) } else { 0 };
        short |= indented && lead < t;
        want.push_str(&l[cut..]);
        if k + 1 < lines.len() {
            want.push_str(eol);
        }
    }
    if r.one_in(5) {
        return broken_heredoc(r, rec, &id, &h, &lines);
    }
    let end_eol = if all_crlf { "\r\n" } else { "\n" };
    let (text, what) = match r.below(6) {
        0 => (format!("a = [1, {}{}, 2]{}", h, end_eol, end_eol), 1),
        1 => (format!("a = {{\n  k = {}{}}}{}", h, end_eol, end_eol), 2),
        2 => (format!("b {{\n  a = {}{}}}{}", h, end_eol, end_eol), 3),
        3 => (format!("a = {}{}z = 1\n", h, end_eol), 0),
        4 => (format!("x = 1\n# c\n  a   =   {}{}\n\n", h, end_eol), 0),
        _ => (format!("a = {}{}", h, end_eol), 0),
    };
    rec.input(&text);
    rec.eval();
    if !lines.is_empty() {
        rec.nontrivial(text.as_bytes());
    }
    if i < 40 {
        rec.sample(&text);
    }
    rec.count(if indented { "indented" } else { "plain" });
    if near {
        rec.count("near_terminators");
    }
    if short {
        rec.count("lines_shorter_than_indent");
    }
    if all_crlf {
        rec.count("crlf");
    }
    rec.max("lines", lines.len() as u64);
    let b = match ferrous_chloride::parse_str(&text) {
        Ok(b) => b,
        Err(e) => return rec.fail("heredoc", format!("rejected: {}", e)),
    };
    let str_of = |e: &Expression| -> Option<String> {
        match e {
            Expression::String(s) => Some(s.to_string()),
            _ => None,
        }
    };
    let find = |b: &[BodyElement]| -> Option<Expression<'static>> {
        b.iter().find_map(|el| match el {
            BodyElement::Attribute((n, e)) if *n == "a" => Some(e.as_owned()),
            _ => None,
        })
    };
    let got = match what {
        1 => match find(&b) {
            Some(Expression::Tuple(t)) if t.len() == 3 => str_of(&t[1]),
            _ => None,
        },
        2 => match find(&b) {
            Some(Expression::Object(o)) if o.len() == 1 => str_of(&o[0].1),
            _ => None,
        },
        3 => match &b[..] {
            [BodyElement::Block(b)] => find(&b.body).and_then(|e| str_of(&e)),
            _ => None,
        },
        _ => find(&b).and_then(|e| str_of(&e)),
    };
    rec.check(got.as_ref() == Some(&want), "heredoc", || format!("expected {:?}, got {:?}", want, got));
    // Legacy
    let got = value::from_str(&text, None).ok().and_then(|m| {
        let s = |v: &Value| v.borrow_str().ok().map(str::to_string);
        match what {
            1 => m.get_single("a").and_then(|v| v.borrow_list().ok()).and_then(|l| if l.len() == 3 { s(&l[1]) } else { None }),
            2 => m.get_single("a").and_then(|v| v.borrow_map().ok()).and_then(|l| l[0].get_single("k").and_then(s)),
            3 => m.get_single("b").and_then(|v| v.borrow_map().ok()).and_then(|l| l[0].get_single("a").and_then(s)),
            _ => m.get_single("a").and_then(s),
        }
    });
    rec.check(got.as_ref() == Some(&want), "heredoc-legacy", || format!("expected {:?}, got {:?}", want, got));
    if what == 0 {
        let got = ferrous_chloride::from_str::<S>(&text).map(|s| s.a).map_err(|e| e.to_string());
        rec.check(got.as_ref() == Ok(&want), "heredoc-serde", || format!("expected {:?}, got {:?}", want, got));
    }
}

fn broken_heredoc(r: &mut Rng, rec: &mut Rec, id: &str, h: &str, lines: &[(String, &str)]) {
    if lines.iter().any(|(l, _)| l.contains(id)) {
        return;
    }
    let head = &h[..h.find('\n').unwrap() + 1];
    let body: String = lines.iter().map(|(l, e)| format!("{}{}", l, e)).collect();
    let bad = match r.below(6) {
        0 => format!("a = {}{}", head, body),
        1 => format!("a = {}{}{} x\n", head, body, id),
        2 => format!("a = {}{}x {}\n", head, body, id),
        3 => format!("a = {}{}{}x\n", head, body, id),
        4 => format!("a = << {}\n{}{}\n", id, body, id),
        _ => format!("a = <<{} x\n{}{}\n", id, body, id),
    };
    all_reject(rec, &bad, "bad-heredoc", "a heredoc without an end or with a broken start");
}

// ---------------------------------------------------------------------------------------------

pub static C07: Prop = Prop {
    id: "C07",
    rule: "Exhaustive: each string of up to 6 characters over 0 1 . e E + - as an attribute value: accepted exactly when it is a number literal, text kept. Random and edge literals, among them the exact midpoints between neighbouring floats and their nearest decimal neighbours: conversion to each integer width is the exact value or an error (against decimal string arithmetic of the harness), conversion to f64/f32 the nearest float bit for bit, classification, legacy value (exact i64, else float); numbers made from each primitive type keep their value; equality is reflexive, symmetric, exact on integers, and tells apart floats that differ in sign or by more than 1e-9. Non-trivial: a literal of at least 2 characters; distinct by text.",
    cases: (343 + 600_000, 343 + 8_000_000),
    threads: 8,
    run: run_c07,
    need: &["short_accepted", "short_rejected", "int_conversions", "int_out_of_range", "float_conversions", "from_primitive", "comparisons", "huge_compared", "floats_told_apart", "midpoints"],
    exhaustive: true,
};

/// `[+-]?(d+(.d*)?|.d+)([eE][+-]?d+)?`
pub fn is_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let whole = i - d0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let f0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if whole == 0 && i == f0 {
            return false;
        }
    } else if whole == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let e0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == e0 {
            return false;
        }
    }
    i == b.len()
}

/// Exact value of an integer literal as (negative, digits without leading zeros)
pub fn int_parts(s: &str) -> Option<(bool, String)> {
    let neg = s.starts_with('-');
    let d = s.trim_start_matches(|c| c == '+' || c == '-');
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let d = d.trim_start_matches('0');
    if d.is_empty() {
        return Some((false, "0".into()));
    }
    Some((neg, d.to_string()))
}

/// Compare digit strings without leading zeros
fn le(a: &str, b: &str) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a <= b)
}

pub fn in_range(parts: &(bool, String), min: &str, max: &str) -> bool {
    if parts.0 {
        let min = min.trim_start_matches('-');
        min != "0" && le(&parts.1, min)
    } else {
        le(&parts.1, max)
    }
}

/// What a literal means to one integer type: the exact value, or nothing
fn check_int(rec: &mut Rec, lit: &str, name: &str, got: Option<String>, min: String, max: String) {
    let parts = int_parts(lit);
    let want = match &parts {
        None => None,
        // The sign of zero is allowed for any type that has signs
        Some(p) if in_range(p, &min, &max) => Some(format!("{}{}", if p.0 { "-" } else { "" }, p.1)),
        Some(_) => None,
    };
    // "-0" is no unsigned literal for Rust
    if lit.starts_with('-') && min == "0" {
        rec.check(got.is_none() || got.as_ref() == want.as_ref(), "int-conversion", || format!("{} of {}: expected {:?}, got {:?}", name, lit, want, got));
        return;
    }
    rec.count(if want.is_some() { "int_conversions" } else { "int_out_of_range" });
    rec.check(got == want, "int-conversion", || format!("{} of {}: expected {:?}, got {:?}", name, lit, want, got));
}

/// A literal at, just below or just above the middle between two neighbouring f32 or f64:
/// where reading a float takes all the digits
pub fn midpoint(r: &mut Rng) -> (String, bool) {
    let wide = r.one_in(2);
    // mantissa * 2^exp, exactly, in decimal digits; odd mantissas of one bit more are midpoints
    let bits = if wide { 54 } else { 25 };
    let m: u64 = match r.below(4) {
        0 => (1u64 << (bits - 1)) | 1,
        1 => (1u64 << bits) - 1,
        _ => (1u64 << (bits - 1)) | (r.next() & ((1u64 << (bits - 1)) - 1)) | 1,
    };
    let emin = if wide { -1075i32 } else { -150 };
    let e = match r.below(4) {
        0 => r.below(60) as i32 - 30 - bits as i32,
        1 => emin,
        2 => r.below(if wide { 900 } else { 90 }) as i32,
        _ => emin + r.below(if wide { 1900 } else { 220 }) as i32,
    };
    // At the smallest exponent the numbers are denormal: any odd mantissa is a midpoint
    let m = if e == emin { (m >> r.below(bits)) | 1 } else { m };
    let mut d: Vec<u8> = m.to_string().bytes().rev().map(|b| b - b'0').collect();
    let mul = |d: &mut Vec<u8>, k: u32| {
        let mut c = 0u32;
        for x in d.iter_mut() {
            let v = u32::from(*x) * k + c;
            *x = (v % 10) as u8;
            c = v / 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    };
    let mut point = 0i32;
    for _ in 0..e.abs() {
        if e > 0 {
            mul(&mut d, 2);
        } else {
            mul(&mut d, 5);
            point -= 1;
        }
    }
    let mut s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
    // point: decimal exponent of the last digit
    let nudge = r.below(3);
    match nudge {
        0 => {}
        1 => {
            let z = r.pickc(&[1, 3, 30]);
            for _ in 0..z - 1 {
                s.push('0');
            }
            s.push('1');
            point -= z as i32;
        }
        _ => {
            // one less in the last place, then nines
            let mut b: Vec<u8> = s.into_bytes();
            let mut k = b.len();
            loop {
                k -= 1;
                if b[k] > b'0' {
                    b[k] -= 1;
                    break;
                }
                b[k] = b'9';
            }
            let z = r.pickc(&[1, 3, 30]);
            for _ in 0..z {
                b.push(b'9');
            }
            point -= z as i32;
            s = String::from_utf8(b).unwrap();
        }
    }
    let n = s.len() as i32;
    let out = match r.below(3) {
        0 => format!("{}e{}", s, point),
        1 => format!("{}.{}e{}", &s[..1], &s[1..], point + n - 1),
        _ if point < 0 && -point < n => format!("{}.{}", &s[..(n + point) as usize], &s[(n + point) as usize..]),
        _ if point < 0 && point > -400 => format!("0.{}{}", "0".repeat((-point - n) as usize), s),
        _ => format!("{}e{}", s, point),
    };
    (if r.one_in(3) { format!("-{}", out) } else { out }, wide)
}

fn run_c07(r: &mut Rng, rec: &mut Rec, i: u64, env: &Env) {
    const AL: &[u8] = b"01.eE+-";
    if i < 343 {
        // First three characters fixed (as base 7), the rest enumerated
        let pre: Vec<u8> = vec![AL[(i / 49) as usize], AL[(i / 7 % 7) as usize], AL[(i % 7) as usize]];
        let mut all: Vec<Vec<u8>> = vec![pre.clone()];
        if i % 49 == 0 {
            all.push(pre[..1].to_vec());
        }
        if i % 7 == 0 {
            all.push(pre[..2].to_vec());
        }
        let mut level = vec![pre];
        let deep = if env.thorough { 3 } else { 3 };
        for _ in 0..deep {
            let mut next = vec![];
            for s in &level {
                for c in AL {
                    let mut t = s.clone();
                    t.push(*c);
                    next.push(t);
                }
            }
            all.extend(next.iter().cloned());
            level = next;
        }
        for s in all {
            let s = String::from_utf8(s).unwrap();
            let want = is_number(&s);
            let text = format!("a = {}\n", s);
            rec.input(&text);
            rec.eval();
            if s.len() >= 2 {
                rec.nontrivial(s.as_bytes());
            }
            rec.count(if want { "short_accepted" } else { "short_rejected" });
            let got = ferrous_chloride::parse_str(&text);
            match (&got, want) {
                (Ok(b), true) => {
                    let ok = match &b[..] {
                        [BodyElement::Attribute((_, Expression::Number(n)))] => &**n == s.as_str(),
                        _ => false,
                    };
                    rec.check(ok, "number-text", || format!("{} became {:?}", s, b));
                }
                (Err(_), false) => {}
                (g, w) => rec.fail("number-syntax", format!("{:?} is {}a number, result: {:?}", s, if w { "" } else { "not " }, g)),
            }
            let leg = value::from_str(&text, None);
            match (&leg, want) {
                (Ok(m), true) => {
                    let w = crate::model::num_to_v(&s);
                    let g = m.get_single("a").map(crate::model::v_from);
                    rec.check(g.as_ref() == Some(&w), "number-legacy", || format!("{}: expected {:?}, got {:?}", s, w, g));
                }
                (Err(_), false) => {}
                (g, w) => rec.fail("number-syntax-legacy", format!("{:?} is {}a number, result: {:?}", s, if w { "" } else { "not " }, g)),
            }
        }
        return;
    }
    let k = (i - 343) as usize;
    let lit = if k < gen::INT_EDGES.len() {
        gen::INT_EDGES[k].to_string()
    } else if k < gen::INT_EDGES.len() + gen::FLOAT_EDGES.len() {
        gen::FLOAT_EDGES[k - gen::INT_EDGES.len()].to_string()
    } else if k % 5 == 4 {
        let (l, _) = midpoint(r);
        rec.count("midpoints");
        l
    } else {
        gen::number(r)
    };
    rec.input(&lit);
    rec.eval();
    if lit.len() >= 2 {
        rec.nontrivial(lit.as_bytes());
    }
    if k > 120 && k < 160 {
        rec.sample(&lit);
    }
    let n = match Expression::parse(&lit) {
        Ok(Expression::Number(n)) => n.as_owned(),
        g => return rec.fail("number", format!("literal {} gives {:?}", lit, g)),
    };
    rec.check(&*n == lit.as_str(), "number-text", || format!("{} became {:?}", lit, n));
    let isint = int_parts(&lit).is_some();
    rec.check(n.is_float() != isint && n.is_signed() == isint, "number-class", || format!("{} float {} signed {}", lit, n.is_float(), n.is_signed()));
    rec.check(n.is_unsigned() == (isint && !lit.starts_with('-')), "number-class", || format!("{} unsigned {}", lit, n.is_unsigned()));
    macro_rules! ints {
        ($($m:ident $t:ty),*) => {$(
            check_int(rec, &lit, stringify!($m), n.$m().ok().map(|x| x.to_string()), <$t>::min_value().to_string(), <$t>::max_value().to_string());
        )*};
    }
    ints!(as_u8 u8, as_u16 u16, as_u32 u32, as_u64 u64, as_u128 u128, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_i128 i128);
    let f: f64 = lit.parse().expect("harness: literal");
    let g: f32 = lit.parse().expect("harness: literal");
    rec.check(n.as_f64().ok().map(f64::to_bits) == Some(f.to_bits()), "float-conversion", || format!("as_f64 of {}: {:?}", lit, n.as_f64()));
    rec.check(n.as_f32().ok().map(f32::to_bits) == Some(g.to_bits()), "float-conversion", || format!("as_f32 of {}: {:?}", lit, n.as_f32()));
    rec.count("float_conversions");
    // Equality
    rec.check(n == n.clone(), "number-eq", || format!("{} is not equal to itself", lit));
    let lit2 = match r.below(8) {
        // Other spellings of the same number, and neighbours
        4 | 5 if isint => {
            let neg = lit.starts_with('-');
            let d = lit.trim_start_matches(|c| c == '+' || c == '-');
            let z = "0".repeat(r.pickc(&[0, 1, 3, 19, 40]));
            format!("{}{}{}", if neg { "-" } else { r.pick(&["", "+"]) }, z, d)
        }
        6 if isint => {
            let mut d: Vec<u8> = lit.bytes().collect();
            let n = d.len();
            d[n - 1] = if d[n - 1] == b'9' { b'8' } else { d[n - 1] + 1 };
            String::from_utf8(d).unwrap()
        }
        4..=6 => lit.replace('e', "E").replace("E+", "e"),
        7 => lit.clone(),
        0 => gen::number(r),
        1 if !isint && r.one_in(2) && f.is_finite() => {
            // A bit more or less, at any magnitude
            let d = r.pickc(&[1e-13, 1e-10, 1e-6, 0.5, 1.0]);
            format!("{:e}", if r.one_in(2) { f * (1.0 + d) } else { f * (1.0 - d) })
        }
        1 => format!("{}0", lit),
        2 => {
            if lit.starts_with('-') {
                lit[1..].to_string()
            } else {
                format!("-{}", lit.trim_start_matches('+'))
            }
        }
        _ => r.pick(gen::INT_EDGES).to_string(),
    };
    if let Ok(Expression::Number(m)) = Expression::parse(&lit2) {
        rec.count("comparisons");
        rec.check((n == m) == (m == n), "number-eq", || format!("{} and {}: not symmetric", lit, lit2));
        let (p, q) = (int_parts(&lit), int_parts(&lit2));
        if let (Some(p), Some(q)) = (&p, &q) {
            rec.check((n == m) == (p == q), "number-eq", || format!("{} == {} is {}", lit, lit2, n == m));
            if !in_range(p, "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455") {
                rec.count("huge_compared");
            }
        } else {
            let f2: f64 = lit2.parse().expect("harness: literal");
            if f.to_bits() == f2.to_bits() {
                rec.check(n == m, "number-eq", || format!("{} != {}", lit, lit2));
            } else if f.is_finite() != f2.is_finite() && f.abs().min(f2.abs()) < 1e308
                || f.is_infinite() && f2.is_infinite()
                || f.is_finite() && f2.is_finite() && (f - f2).abs() > 1e-14 * f.abs().max(f2.abs())
            {
                rec.count("floats_told_apart");
                rec.check(n != m, "number-eq", || format!("{} == {}", lit, lit2));
            }
        }
    }
    // From primitives
    macro_rules! from_int {
        ($($t:ident $m:ident),*) => {$({
            let bits = (r.next() as u128) << 64 | r.next() as u128;
            let x: $t = match r.below(4) { 0 => <$t>::min_value(), 1 => <$t>::max_value(), 2 => (r.below(400) as i64 - 200) as $t, _ => bits as $t };
            let n = Number::from(x);
            rec.count("from_primitive");
            #[allow(unused_comparisons)]
            let neg = x < 0;
            let ok = &*n == x.to_string().as_str() && n.$m().ok() == Some(x) && !n.is_float() && n.is_unsigned() == !neg && n == n.clone()
                && match Expression::parse(&x.to_string()) { Ok(Expression::Number(p)) => p == n && n == p, _ => false }
                && Expression::from(x) == Expression::Number(n.clone());
            rec.check(ok, "number-from", || format!("Number::from({}{}) = {:?}", x, stringify!($t), n));
        })*};
    }
    from_int!(u8 as_u8, u16 as_u16, u32 as_u32, u64 as_u64, u128 as_u128, i8 as_i8, i16 as_i16, i32 as_i32, i64 as_i64, i128 as_i128);
    let x = f64::from_bits(r.next());
    for x in &[x, f, -f] {
        if x.is_finite() {
            let n = Number::from(*x);
            rec.count("from_primitive");
            rec.check(n.as_f64().ok().map(f64::to_bits) == Some(x.to_bits()) && n == n.clone(), "number-from", || format!("Number::from({:e}) = {:?}", x, n));
            let y = *x as f32;
            if y.is_finite() {
                let n = Number::from(y);
                rec.check(n.as_f32().ok().map(f32::to_bits) == Some(y.to_bits()), "number-from", || format!("Number::from({:e}f32) = {:?}", y, n));
            }
        }
    }
    // Numbers which are equal have to have equal hashes; fixed pairs of spellings
    if k < HASH_PAIRS.len() {
        let (a, b) = HASH_PAIRS[k];
        let num = |s: &str| match Expression::parse(s) {
            Ok(Expression::Number(n)) => n.as_owned(),
            g => panic!("harness: {:?}", g),
        };
        let h = |n: &Number| {
            let mut h = DefaultHasher::new();
            n.hash(&mut h);
            h.finish()
        };
        let (x, y) = (num(a), num(b));
        if x == y && h(&x) != h(&y) {
            rec.observed.push(format!("number-hash:{}:{}", a, b));
        }
    }
}

const HASH_PAIRS: &[(&str, &str)] = &[("1", "1"), ("1.5", "1.5"), ("-2", "-2"), ("1", "+1"), ("7", "007"), ("1.0", "1.00"), ("1.0", "1"), ("1e1", "10.0"), ("0.0", "-0.0")];

// ---------------------------------------------------------------------------------------------

pub static C08: Prop = Prop {
    id: "C08",
    rule: "Exhaustive: each of the 1 112 064 characters at the start and inside of an attribute name, a block type and a bare label: accepted exactly when the Unicode tables (ID_Start or underscore; ID_Continue or dash) say so, name kept whole. Random identifiers of any length as attribute names, block types, bare labels, object keys, through the AST, the legacy interface and serde. Non-trivial: a non-ASCII character or a name of at least 2 characters; distinct by text.",
    cases: (4352 + 40_000, 4352 + 600_000),
    threads: 8,
    run: run_c08,
    need: &["starts_accepted", "starts_rejected", "continues_accepted", "continues_rejected", "names"],
    exhaustive: true,
};

fn name_of(text: &str) -> Result<Vec<String>, ()> {
    let b = ferrous_chloride::parse_str(text).map_err(|_| ())?;
    Ok(match &b[..] {
        [BodyElement::Attribute((n, _))] => vec![n.to_string()],
        [BodyElement::Block(b)] => {
            let mut v = vec![b.r#type.to_string()];
            v.extend(b.labels.iter().map(|l| l.as_str().to_string()));
            v
        }
        [] => vec![],
        x => vec![format!("{} elements", x.len())],
    })
}

fn legacy_name(text: &str) -> Result<Vec<String>, ()> {
    let m = value::from_str(text, None).map_err(|_| ())?;
    Ok(m.keys().map(|k| k.to_string()).collect())
}

fn run_c08(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    if i < 4352 {
        let base = (i as u32) * 256;
        for c in (base..base + 256).filter_map(std::char::from_u32) {
            let ident_start = is_id_start(c) || c == '_';
            let ident_cont = is_id_continue(c) || c == '-';
            rec.count(if ident_start { "starts_accepted" } else { "starts_rejected" });
            rec.count(if ident_cont { "continues_accepted" } else { "continues_rejected" });
            // Layout is no part of names; a lone CR in layout is not specified
            if c == '\r' {
                continue;
            }
            let blank = c == ' ' || c == '\t';
            let start = |name: &str| -> Result<Vec<String>, ()> {
                if ident_start {
                    Ok(vec![format!("{}{}", c, name)])
                } else if blank || c == '\n' {
                    Ok(vec![name.to_string()])
                } else {
                    Err(())
                }
            };
            let cont = |a: &str, b: &str| -> Result<Vec<String>, ()> {
                if ident_cont {
                    Ok(vec![format!("{}{}{}", a, c, b)])
                } else if blank && b.is_empty() {
                    Ok(vec![a.to_string()])
                } else {
                    Err(())
                }
            };
            let label = if ident_start {
                Ok(vec!["t".to_string(), format!("{}b", c)])
            } else if blank {
                Ok(vec!["t".to_string(), "b".to_string()])
            } else {
                Err(())
            };
            let cases: [(String, Result<Vec<String>, ()>, bool); 5] = [
                // `#` begins a comment
                (format!("{}b = 1\n", c), if c == '#' { Ok(vec![]) } else { start("b") }, true),
                (format!("a{} = 1\n", c), cont("a", ""), true),
                (format!("a{}b = 1\n", c), cont("a", "b"), true),
                (format!("a{}b {{\n}}\n", c), if blank { Ok(vec!["a".into(), "b".into()]) } else { cont("a", "b") }, !blank),
                (format!("t {}b {{\n}}\n", c), label, false),
            ];
            for (text, want, legacy) in &cases {
                rec.input(text);
                rec.eval();
                let got = name_of(text);
                rec.check(got == *want, "identifier", || format!("U+{:04X}: expected {:?}, got {:?}", c as u32, want, got));
                if *legacy && base < 0x3100 {
                    let got = legacy_name(text);
                    rec.check(got == *want, "identifier-legacy", || format!("U+{:04X}: expected {:?}, got {:?}", c as u32, want, got));
                }
            }
            if !c.is_ascii() {
                rec.nontrivial(&(c as u32).to_le_bytes());
            }
        }
        return;
    }
    let names: Vec<String> = (0..4).map(|_| random_ident(r)).collect();
    let text = format!(
        "{} = 1\n{} {} \"q\" {} {{\n  {} = {{\n {} = 1, {}=2 }}\n}}\n",
        names[0], names[1], names[2], names[3], names[0], names[2], names[3]
    );
    rec.input(&text);
    rec.eval();
    rec.nontrivial(text.as_bytes());
    rec.count("names");
    if i < 4352 + 40 {
        rec.sample(&text);
    }
    let b = match ferrous_chloride::parse_str(&text) {
        Ok(b) => b,
        Err(e) => return rec.fail("identifier", format!("rejected: {}", e)),
    };
    let ok = match &b[..] {
        [BodyElement::Attribute((n, _)), BodyElement::Block(bl)] => {
            *n == names[0]
                && bl.r#type == names[1]
                && bl.labels.len() == 3
                && bl.labels[0].as_str() == names[2]
                && bl.labels[2].as_str() == names[3]
                && match (&bl.labels[0], &bl.labels[1]) {
                    (BlockLabel::Identifier(_), BlockLabel::StringLiteral(_)) => true,
                    _ => false,
                }
                && match &bl.body[..] {
                    [BodyElement::Attribute((n, Expression::Object(o)))] => {
                        *n == names[0]
                            && o.len() == 2
                            && match (&o[0].0, &o[1].0) {
                                (ObjectElementIdentifier::Identifier(x), ObjectElementIdentifier::Identifier(y)) => *x == names[2] && *y == names[3],
                                _ => false,
                            }
                    }
                    _ => false,
                }
        }
        _ => false,
    };
    rec.check(ok, "identifier", || format!("{:?} became {:?}", names, b));
    let text = format!("{} = 1\n{} \"q\" {{\n}}\n", names[0], names[1]);
    rec.input(&text);
    rec.eval();
    let got = legacy_name(&text);
    rec.check(got == Ok(vec![names[0].clone(), names[1].clone()]), "identifier-legacy", || format!("{:?} became {:?}", names, got));
    let got = ferrous_chloride::from_str::<std::collections::HashMap<String, i64>>(&format!("{} = 17\n", names[0]));
    let ok = got.as_ref().map(|m| m.len() == 1 && m.get(&names[0]) == Some(&17)).unwrap_or(false);
    rec.check(ok, "identifier-serde", || format!("{:?} became {:?}", names[0], got));
    // Things that are no identifiers
    let bad = r.pick(&["1a", "-a", "a.b", "a b c", "a$", "\u{301}a", "a\u{a0}b", "9", "a:b", "a'", "é+", "&", "@x", "a!"]);
    let t = format!("{} = 1\n", bad);
    if bad != "a b c" {
        all_reject(rec, &t, "identifier", "not an identifier");
    }
}

fn random_ident(r: &mut Rng) -> String {
    if r.one_in(2) {
        return gen::ident(r);
    }
    let mut s = String::new();
    loop {
        let c = gen::any_char(r);
        if is_id_start(c) || c == '_' {
            s.push(c);
            break;
        }
    }
    let n = r.size(30);
    let mut tries = 0;
    while s.chars().count() < n && tries < 2000 {
        tries += 1;
        let c = if r.one_in(4) { r.pickc(&['-', '_', '0', 'z']) } else { gen::any_char(r) };
        if is_id_continue(c) || c == '-' {
            s.push(c);
        }
    }
    s
}
