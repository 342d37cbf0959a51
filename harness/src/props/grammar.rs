//! C04: what is not a document is rejected, all of the input counts
use crate::frame::{Env, Prop, Rec};
use crate::gen::{self, Dialect, GenCfg, Style};
use crate::model::*;
use crate::refparse::{self, Verdict};
use crate::rng::Rng;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::value;
use serde::de::IgnoredAny;

pub static C04: Prop = Prop {
    id: "C04",
    rule: "Every string of up to 5 tokens over a 13-token alphabet, and of up to 4 tokens after each of 4 openings; 20 small documents which hold every construct with each of 198 characters (all of ASCII, and what looks like it) and 40 pieces put in at each place or instead of each character, each character doubled, each stretch left out; token-level and character-level mutations of generated documents and expressions; documents with a piece cut off, an unclosed construct, or something trailing. An independent recognizer of the documented grammar decides each text (document, malformed, or left open by the grammar); the crate has to reject each malformed text through every entry point and read each document as the recognizer does, for the AST and the legacy interface. Non-trivial: a text which the recognizer does not leave open and has at least 3 characters; distinct by text.",
    cases: (40_000, 800_000),
    threads: 8,
    run,
    need: &["rejected_as_expected", "accepted_as_expected", "legacy_rejected_as_expected", "legacy_accepted_as_expected", "expressions_rejected", "expressions_accepted", "exhaustive", "characters_put_in", "characters_replaced", "stretches_left_out"],
    exhaustive: true,
};

const TOKS: &[&str] = &["a", "=", "1", "\n", "{", "}", "[", "]", ",", "\"x\"", " ", "(", ")"];
const OPEN: &[&str] = &["a={", "a=[", "a{\n", "a "];
const EXH: u64 = 13 * 13;

/// Each construct there is, small
const SMALL: &[&str] = &[
    "a = 1\nbc = 2.5e+3\n",
    "a=\"x\"\nb = \"q\\n\\u00e9\"",
    "a = [1, \"x\",\n true ]\n",
    "a = [ 1, [ ], {}, ]\r\n",
    "a = {k = 1, l = 2}\n",
    "a = {\n k = 1\n \"q\" = 2\n}\n",
    "a = {k = 1,\n l = null\n,}\n",
    "t \"l\" m {\n a = 1\n}\n",
    "t {\n a = 1\n u {\n }\n}\n",
    "t {}\nu \"l\" {}\n",
    "t { a = 1 }\nb = 1\n",
    "# c\na = 1 // d\n/* e */ b = 2 /* f */\n",
    "a = <<E\nx\n  y\nE\nb = 1\n",
    "a = <<-E\n  x\n   y\n  E\nb = 1\n",
    "a = (1)\nb = ( \"x\" )\n",
    "a = -1\nb = +.5\nc = 1.\nd = 1e5\n",
    "a = {(\"k\") = 1}\nb = false\n",
    "a-b_c = null\n_x1 = true\n",
    "a = [<<E\nx\nE\n, 1]\n",
    "\n\n  a = 1\n\n\tb = 2\n \n",
];

/// What is put in: all of ASCII, and what looks like it, or like white space, elsewhere
const OTHERS: &[char] = &[
    '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '¬', '±', '·', '÷', '\u{2bc}', '\u{300}', '\u{34f}', '\u{37e}', '\u{5c3}', '\u{61b}', '\u{66a}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{2007}',
    '\u{2009}', '\u{200a}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{2013}', '\u{2018}', '“', '”', '\u{2024}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{202f}', '\u{2044}', '\u{205f}', '\u{2060}', '\u{2212}', '\u{2236}',
    '\u{2248}', '\u{2261}', '\u{3000}', '、', '「', '\u{fe0f}', '\u{feff}', '＂', '＃', '（', '，', '－', '．', '／', '０', '：', '；', '＝', '［', '｛', '｝', '\u{fffd}', '\u{ffff}', '😀', '\u{e0020}', '\u{10ffff}', '٣', '²', 'é', '藏',
];

fn places() -> u64 {
    SMALL.iter().map(|d| d.len() as u64 + 1).sum()
}

/// Every character at one place of a small document, in between and instead
fn characters(rec: &mut Rec, mut at: usize) {
    let doc = SMALL.iter().find(|d| {
        let here = at <= d.len();
        if !here {
            at -= d.len() + 1;
        }
        here
    });
    let doc = doc.expect("a place");
    for c in (0..128u8).map(char::from).chain(OTHERS.iter().copied()) {
        both(rec, &format!("{}{}{}", &doc[..at], c, &doc[at..]));
        rec.count("characters_put_in");
        if at < doc.len() {
            both(rec, &format!("{}{}{}", &doc[..at], c, &doc[at + 1..]));
            rec.count("characters_replaced");
        }
    }
    for s in &["\r\n", "\n\n", "\r", "//", "/*", "*/", "/**/", "=>", "==", ":=", "${", "%{", "()", "[]", "{}", "\"\"", "''", "``", ",,", ";;", "<<", "<<-", "<<E\n", "\\\n", "...", "--", "&&", "||", "!", "null", "true", " a ", " 1 ", " \"x\" ", ";\n", ": ", "- a\n", "\u{feff}\n", "# x\n", "// x\n", "/* x\n */"] {
        both(rec, &format!("{}{}{}", &doc[..at], s, &doc[at..]));
        rec.count("characters_put_in");
    }
    // One character less, or twice
    if at < doc.len() {
        both(rec, &format!("{}{}", &doc[..at], &doc[at + 1..]));
        both(rec, &format!("{}{}", &doc[..=at], &doc[at..]));
        // two exchanged, and everything after left out or doubled
        if at + 1 < doc.len() {
            let (x, y) = (&doc[at..=at], &doc[at + 1..at + 2]);
            both(rec, &format!("{}{}{}{}", &doc[..at], y, x, &doc[at + 2..]));
        }
        both(rec, &doc[..at]);
        both(rec, &doc[at..]);
        both(rec, &format!("{}{}", doc, &doc[at..]));
        both(rec, &format!("{}{}", &doc[..at], doc));
        // any stretch left out
        for to in at + 2..=doc.len() {
            both(rec, &format!("{}{}", &doc[..at], &doc[to..]));
            rec.count("stretches_left_out");
        }
    }
}

fn run(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    if i >= EXH && i < EXH + places() {
        return characters(rec, (i - EXH) as usize);
    }
    if i < EXH {
        let (x, y) = (TOKS[(i / 13) as usize], TOKS[(i % 13) as usize]);
        let two = format!("{}{}", x, y);
        if i % 13 == 0 {
            both(rec, x);
        }
        both(rec, &two);
        for o in OPEN {
            both(rec, &format!("{}{}", o, two));
        }
        for c in TOKS {
            let three = format!("{}{}", two, c);
            both(rec, &three);
            for d in TOKS {
                let four = format!("{}{}", three, d);
                both(rec, &four);
                rec.count("exhaustive");
                for o in OPEN {
                    both(rec, &format!("{}{}", o, four));
                    rec.count("exhaustive");
                }
                for e in TOKS {
                    both(rec, &format!("{}{}", four, e));
                    rec.count("exhaustive");
                }
            }
            for o in OPEN {
                both(rec, &format!("{}{}", o, three));
            }
        }
        return;
    }
    let legacy = r.one_in(2);
    let cfg = if legacy { GenCfg::COMMON } else { GenCfg::FULL };
    let mut st = Style::WILD;
    if legacy {
        st.dialect = Dialect::Legacy;
        st.parens = false;
    }
    if r.one_in(3) {
        st.wild = false;
    }
    if i % 8 == 0 {
        let mut budget = r.size(20) + 2;
        let e = gen::expr(r, &GenCfg::FULL, 1, &mut budget);
        let mut t = gen::render_expr(r, &e, Style { heredocs: false, ..Style::WILD });
        expr(rec, &t);
        for _ in 0..3 {
            t = if r.one_in(2) { super::total::mutate(r, &t) } else { tokmut(r, &t) };
            expr(rec, &t);
        }
        return;
    }
    let mut budget = r.size(30) + 2;
    let d = gen::body(r, &cfg, 1, &mut budget);
    let (t, _) = gen::render(r, &d, st);
    both(rec, &t);
    if i % 8 == 1 && t.len() < 400 {
        // cut off anywhere
        for (k, _) in t.char_indices() {
            both(rec, &t[..k]);
            rec.count("truncations");
        }
        return;
    }
    if i % 8 == 2 {
        // something before or after
        let g = r.pick(&["}", "]", ")", "\"", "=", ",", "{", "[", "(", "1", "a", "a =", "= 1", "a = ", "a b", "a {", "\"x\"", "\\", "$", "*/", "/*", ";", ":", "a = 1 b = 2", "a = 1, b = 2", "a {} b {}", "a = <<E\nx\n", "null", "a.b = 1", "\u{0}", "\u{feff}", "a = b", "a = 1 1", "a = \"x\" \"y\"", "a = 1x", "a = [1 2]", "a = {b = 1 c = 2}", "a = 0x10", "a = --1", "a = +-1", "a = 1e", "a = 1.2.3", "a = .", "a = -", "a = 'x'", "a : 1", "a = nul", "a = True", "a = [1", "a = {", "a = [1,,2]", "a = [,1]", "a = {,}", "a = {b}", "a = {b = }", "a = {= 1}", "= {}", "a = ()", "a = (1", "a = (1, 2)", "a {b = 1\n}", "a {\nb = 1}", "a {b {}}", "a {b = 1 c = 2}", "a b = 1", "a \"x\" = 1", "1 {}", "a 1 {}", "a [x] {}", "a {}}", "a = 1}", "a = \"\\q\"", "a = \"\\xg\"", "a = \"\\ud800\"", "a = \"\\U00110000\"", "a \"x\ny\" {}"]);
        let t2 = match r.below(3) {
            0 => format!("{}\n{}", t, g),
            1 => format!("{}\n{}", g, t),
            _ => format!("{}\n{}\n{}", t, g, t),
        };
        both(rec, &t2);
        both(rec, g);
        both(rec, &format!("{}\n", g));
        return;
    }
    let mut t = t;
    for _ in 0..4 {
        t = match r.below(3) {
            0 => super::total::mutate(r, &t),
            _ => tokmut(r, &t),
        };
        if i < EXH + 60 {
            rec.sample(&t);
        }
        both(rec, &t);
    }
}

/// Split into runs which look like tokens
fn tokens(t: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut last = 0;
    for c in t.chars() {
        let class = if c.is_alphanumeric() || c == '_' {
            1
        } else if c == ' ' {
            2
        } else {
            0
        };
        if class != 0 && class == last {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
        }
        last = class;
    }
    out
}

fn tokmut(r: &mut Rng, t: &str) -> String {
    let mut v = tokens(t);
    for _ in 0..r.range(1, 2) {
        if v.is_empty() {
            v.push("a".into());
        }
        let n = v.len();
        let i = r.below(n);
        match r.below(6) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = r.pick(TOKS).to_string();
                v.insert(i, x);
            }
            2 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            3 => {
                let j = r.below(n);
                v.swap(i, j);
            }
            4 => {
                v[i] = r.pick(&["{", "}", "[", "]", "(", ")", ",", "=", ":", ";", "|", "&", "!", "'", "`", ".", "?", "@", "~", "%", "^", "\n", "\"", " ", "#", "/*", "*/", "\\", "-", "1", "a", "<<E\n", "E\n", "\r\n", "\n\n"]).to_string();
            }
            _ => {
                // drop the next bracket or separator
                if let Some(k) = (i..n).find(|k| "{}[](),=\n\"".contains(v[*k].as_str())) {
                    v.remove(k);
                }
            }
        }
    }
    v.concat()
}

pub fn both(rec: &mut Rec, t: &str) {
    rec.input(t);
    rec.eval();
    let v = refparse::document(t);
    let got = ferrous_chloride::parse_str(t);
    let interesting = t.len() >= 3;
    match v {
        Verdict::Open(why, d) => {
            rec.count("left_open");
            if let (Ok(b), Some(d)) = (&got, &d) {
                match from_body(b) {
                    Err(e) => rec.fail("document-misread", e),
                    Ok(m) => {
                        if rec.check(m == *d, "document-misread", || format!("{}: {}", why, diff(d, &m))) {
                            rec.count("open_read_as_expected");
                        }
                    }
                }
            }
        }
        Verdict::Invalid => {
            if interesting {
                rec.nontrivial(t.as_bytes());
            }
            if rec.check(got.is_err(), "malformed-accepted", || {
                format!("malformed, but read as {:?}", got.as_ref().ok().map(|b| from_body(b)))
            }) {
                rec.count("rejected_as_expected");
            }
            if interesting {
                rec.check(ferrous_chloride::parse_slice(t.as_bytes()).is_err(), "malformed-accepted", || {
                    "malformed, but accepted as bytes".to_string()
                });
                rec.check(ferrous_chloride::from_str::<IgnoredAny>(t).is_err(), "malformed-accepted", || {
                    "malformed, but decoded".to_string()
                });
            }
        }
        Verdict::Valid(d) => {
            if interesting {
                rec.nontrivial(t.as_bytes());
            }
            match got {
                Err(e) => rec.fail("document-rejected", format!("a document, but rejected: {}", e)),
                Ok(b) => match from_body(&b) {
                    Err(e) => rec.fail("document-misread", e),
                    Ok(m) => {
                        if rec.check(m == d, "document-misread", || diff(&d, &m)) {
                            rec.count("accepted_as_expected");
                        }
                    }
                },
            }
        }
    }
    let got = value::from_str(t, None);
    match refparse::legacy(t) {
        Verdict::Open(why, m) => {
            rec.count("legacy_left_open");
            if let (Ok(v), Some(m)) = (&got, &m) {
                let v = m_from(v);
                if rec.check(v == *m, "document-misread-legacy", || format!("{}: {}", why, diff_text(&format!("{:?}", m), &format!("{:?}", v)))) {
                    rec.count("open_read_as_expected");
                }
            }
        }
        Verdict::Invalid => {
            if rec.check(got.is_err(), "malformed-accepted-legacy", || {
                format!("malformed, but read as {:?}", got.as_ref().ok().map(m_from))
            }) {
                rec.count("legacy_rejected_as_expected");
            }
        }
        Verdict::Valid(m) => match got {
            Err(e) => rec.fail("document-rejected-legacy", format!("a document, but rejected: {}", e)),
            Ok(v) => {
                let v = m_from(&v);
                if rec.check(v == m, "document-misread-legacy", || diff_text(&format!("{:?}", m), &format!("{:?}", v))) {
                    rec.count("legacy_accepted_as_expected");
                }
            }
        },
    }
}

fn expr(rec: &mut Rec, t: &str) {
    rec.input(t);
    rec.eval();
    let got = Expression::parse(t);
    match refparse::expression(t) {
        Verdict::Open(why, e) => {
            rec.count("left_open");
            if let (Ok(x), Some(e)) = (&got, &e) {
                let x = from_expr(x);
                if rec.check(x.as_ref() == Ok(e), "expression-misread", || format!("{}: should be {:?}, but is {:?}", why, e, x)) {
                    rec.count("open_read_as_expected");
                }
            }
        }
        Verdict::Invalid => {
            rec.nontrivial(t.as_bytes());
            if rec.check(got.is_err(), "malformed-expression", || {
                format!("malformed, but read as {:?}", got.as_ref().ok().map(|b| from_expr(b)))
            }) {
                rec.count("expressions_rejected");
            }
        }
        Verdict::Valid(e) => {
            rec.nontrivial(t.as_bytes());
            match got.map_err(|e| e.to_string()).and_then(|g| from_expr(&g)) {
                Err(err) => rec.fail("expression-rejected", format!("an expression, but rejected: {}", err)),
                Ok(m) => {
                    if rec.check(m == e, "expression-misread", || diff_text(&format!("{:?}", e), &format!("{:?}", m))) {
                        rec.count("expressions_accepted");
                    }
                }
            }
        }
    }
}
