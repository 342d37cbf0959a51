//! C23, C24, C25: where errors point, the splitting macro, and the parsers of single constructs
use crate::frame::{guard, Env, Prop, Rec};
use crate::gen::{self, GenCfg, Style};
use crate::model::*;
use crate::props::total;
use crate::refparse::{self, Verdict};
use crate::rng::Rng;
use failure::Fail;
use ferrous_chloride::nom;
use ferrous_chloride::serde::de as hcl;
use ferrous_chloride::parser::{attribute, block, body, boolean, expression, identifier, null, number, object, string, tuple, whitespace};
use ferrous_chloride::utils::{while_predicate1, SafeIndexing};
use ferrous_chloride::{parser, take_till_match, value, Error};
use nom::types::{CompleteByteSlice, CompleteStr, Input};
use nom::verbose_errors::Context;
use nom::{call, tag, ErrorKind, IResult, Needed};
use unic_ucd_ident::{is_id_continue, is_id_start};

// ---------------------------------------------------------------------------------------------
// C23

pub static C23: Prop = Prop {
    id: "C23",
    rule: "A readable document (random, in a random layout) is followed by a faulty element of one of some thirty kinds, at the top or inside of blocks, and by more text; a bad escape is planted in a string, label or key at any depth; random documents are damaged at random. What the parser reports as the place of the fault, found by address within the text, is compared with the place of the planted fault (after the backslash of a bad escape; else the start of the first top level element that cannot be read, everything before it being readable on its own), and the message of every entry point has to show the text from there on. Bytes that are no UTF-8 and readers that fail report their offset and cause. Arbitrary error values go through the public conversions, and what comes out is compared with a table: same class, same inputs, same order, kinds as named. Non-trivial: a refused text with readable elements before the fault; distinct by text.",
    cases: (120_000, 1_500_000),
    threads: 8,
    run: run_c23,
    need: &["fault_at_top", "fault_in_block", "bad_escape", "damaged", "damaged_failures", "legacy_messages", "utf8_offsets", "reader_errors", "conversions", "custom_lists", "named_errors", "prefix_elements", "errors_wrapped", "system_errors"],
    exhaustive: false,
};

/// Where an error points: its inputs are ends of the text
fn offset_in(text: &str, at: &str) -> Option<usize> {
    let (a, b) = (text.as_ptr() as usize, at.as_ptr() as usize);
    if b < a || b - a > text.len() || b - a + at.len() != text.len() {
        return None;
    }
    Some(b - a)
}

struct Fault {
    failure: bool,
    at: usize,
    rest: String,
}

fn first<'a>(c: &Context<CompleteStr<'a>, u32>) -> Option<&'a str> {
    match c {
        Context::Code(i, _) => Some(i.0),
        Context::List(l) => l.first().map(|x| (x.0).0),
    }
}

/// The fault the parser reports; `None`: it reads the text
fn fault_of(rec: &mut Rec, text: &str) -> Option<Result<Fault, ()>> {
    let (failure, context) = match parser::config_file(CompleteStr(text)) {
        Ok(_) => return None,
        Err(nom::Err::Incomplete(_)) => {
            rec.fail("incomplete", "a complete text is called incomplete");
            return Some(Err(()));
        }
        Err(nom::Err::Error(c)) => (false, c),
        Err(nom::Err::Failure(c)) => (true, c),
    };
    let inputs: Vec<&str> = match &context {
        Context::Code(i, _) => vec![i.0],
        Context::List(l) => l.iter().map(|x| (x.0).0).collect(),
    };
    for i in &inputs {
        if offset_in(text, i).is_none() {
            rec.fail("not-in-text", format!("the error holds {:?}, which is no end of the text", i));
            return Some(Err(()));
        }
    }
    match first(&context).and_then(|i| offset_in(text, i).map(|o| (o, i))) {
        Some((at, rest)) => Some(Ok(Fault {
            failure,
            at,
            rest: rest.to_string(),
        })),
        None => {
            rec.fail("no-place", "the error names no place");
            Some(Err(()))
        }
    }
}

fn snip(s: &str) -> String {
    s.chars().take(60).collect()
}

/// The messages of the entry points show the rest of the text
fn messages(rec: &mut Rec, text: &str, f: &Fault) {
    let shown = format!("{:?}", f.rest);
    let m = match parser::parse_str(text) {
        Ok(_) => return rec.fail("messages", "parse_str reads what config_file refuses"),
        Err(e) => e,
    };
    match &m {
        Error::ParseError(t) | Error::InvalidUnicodeCodePoint(t) => {
            rec.check(t.contains(&shown) || *t == f.rest, "message", || format!("message {:?} does not show {:?}", snip(t), snip(&shown)));
        }
        e => rec.fail("message-kind", format!("{:?}", e)),
    }
    let d = m.to_string();
    wrapped(rec, m);
    if let Err(e) = parser::config_file(CompleteStr(text)) {
        let e = hcl::Error::from(e);
        let shows = e.to_string().contains(&d);
        rec.check(shows && matches!(e, hcl::Error::ParseError(_)), "wrapped-nom", || format!("{:?} for {:?}", e, snip(&d)));
    }
    let others: Vec<(&str, String)> = vec![
        ("parse_slice", parser::parse_slice(text.as_bytes()).err().map_or_else(String::new, |e| e.to_string())),
        ("parse_reader", parser::parse_reader(text.as_bytes()).err().map_or_else(String::new, |e| e.to_string())),
        (
            "serde from_str",
            ferrous_chloride::from_str::<crate::anyv::A>(text).err().map_or_else(String::new, |e| e.to_string()),
        ),
    ];
    for (who, o) in others {
        rec.check(o.contains(&d), "message-differs", || format!("{} says {:?}, parse_str {:?}", who, snip(&o), snip(&d)));
    }
}

/// An error handed through the errors of serde keeps its kind, cause and message
fn wrapped(rec: &mut Rec, e: Error) {
    use std::mem::discriminant;
    rec.count("errors_wrapped");
    let (kind, said) = (discriminant(&e), e.to_string());
    let e = hcl::Error::from(e);
    let whole = e.to_string();
    let inner = |e: &hcl::Error| match e {
        hcl::Error::ParseError(p) => discriminant(p) == kind && p.to_string() == said,
        _ => false,
    };
    let caused = |e: &hcl::Error| e.cause().map(|c| c.to_string()).as_ref() == Some(&said);
    rec.check(inner(&e) && caused(&e) && whole.contains(&said), "wrapped", || format!("{:?} for {:?}", e, said));
    let c = hcl::Compat::from(e);
    rec.check(c.to_string() == whole, "wrapped-compat", || format!("{} for {}", c, whole));
    let e = hcl::Error::from(c);
    rec.check(inner(&e) && e.to_string() == whole, "wrapped-back", || format!("{:?} for {}", e, whole));
    if let hcl::Error::ParseError(p) = e {
        let e = hcl::Error::from(hcl::Compat::from(p));
        rec.check(inner(&e) && e.to_string() == whole, "wrapped-again", || format!("{:?} for {}", e, whole));
    }
}

/// Errors of the standard library and of visitors
fn wrapped_others(rec: &mut Rec, text: &str) {
    if let Err(i) = text.parse::<i64>() {
        let e = hcl::Error::from(i.clone());
        let ok = e.to_string().contains(&i.to_string()) && e.cause().map_or(false, |c| c.to_string() == i.to_string());
        rec.check(ok && matches!(&e, hcl::Error::ParseIntError(x) if *x == i), "wrapped-int", || format!("{:?} for {:?}", e, i));
    }
    if let Err(f) = text.parse::<f64>() {
        let e = hcl::Error::from(f.clone());
        let ok = e.to_string().contains(&f.to_string()) && e.cause().map_or(false, |c| c.to_string() == f.to_string());
        rec.check(ok && matches!(&e, hcl::Error::ParseFloatError(x) if *x == f), "wrapped-float", || format!("{:?} for {:?}", e, f));
    }
    let c = <hcl::Compat as serde::de::Error>::custom(text);
    rec.check(c.to_string().contains(text), "wrapped-custom", || format!("{} for {:?}", c, text));
    let e = hcl::Error::from(c);
    rec.check(matches!(&e, hcl::Error::Custom(t) if t == text), "wrapped-custom", || format!("{:?} for {:?}", e, text));
}

/// What is known without knowing where the fault was planted
fn general(rec: &mut Rec, text: &str, f: &Fault) {
    if f.failure {
        // Only escapes are reported this way: after the backslash, and no character is meant
        rec.count("damaged_failures");
        let before = text[..f.at].ends_with('\\');
        rec.check(before && bad_escape(&f.rest), "failure-place", || {
            format!("points at offset {} {:?}, which is no bad escape", f.at, snip(&f.rest))
        });
        return;
    }
    let prefix = &text[..f.at];
    match guard(|| parser::parse_str(prefix).map(|b| b.len()).map_err(|e| e.to_string())) {
        Ok(Ok(n)) => rec.add("prefix_elements", n as u64),
        Ok(Err(e)) => rec.fail("prefix-unreadable", format!("the text before offset {} cannot be read: {}", f.at, snip(&e))),
        Err(p) => rec.fail("panic", p),
    }
    // There is no element in front of the fault any more
    let c = f.rest.chars().next();
    rec.check(!matches!(c, Some(' ') | Some('\t') | Some('\n')), "layout-not-skipped", || {
        format!("points at layout: offset {} {:?}", f.at, snip(&f.rest))
    });
}

/// Text after a backslash which is no escape, or one with digits that denote no character
fn bad_escape(s: &str) -> bool {
    let mut it = s.chars();
    let max = match it.next() {
        None => return true,
        Some('x') => 2,
        Some('u') => 4,
        Some('U') => 8,
        Some(c) => return !"abfnrtv\\\"?01234567".contains(c),
    };
    let digits: String = it.take(max).take_while(|c| c.is_digit(16)).collect();
    match u32::from_str_radix(&digits, 16) {
        Ok(v) => std::char::from_u32(v).is_none(),
        Err(_) => true,
    }
}

/// Elements which cannot be read: text, and whether a newline ends the damage
const FAULTS: &[(&str, bool)] = &[
    ("= 1", true),
    ("k =", true),
    ("k", true),
    ("k = 1 2", true),
    ("k = 1, b = 2", true),
    ("k = [1, 2", false),
    ("k = [1 2]", true),
    ("k = [,]", true),
    ("k = {a = 1", false),
    ("k = {a 1}", true),
    ("k = {a = 1 b = 2}", true),
    ("k = (1", false),
    ("k = ()", true),
    ("k = (1 2)", true),
    ("k = \"abc", false),
    ("k = <<E x\n", true),
    ("k = <<E\nno end\n", false),
    ("k = <<E\nx\nE F\n", false),
    ("k = 1.2.3", true),
    ("k = 1e", true),
    ("k = -", true),
    ("k = tru", true),
    ("k = b", true),
    ("k == 1", true),
    ("k : 1", true),
    ("1k = 1", true),
    ("\"k\" = 1", true),
    ("k {", false),
    ("k { a = 1", false),
    ("k { a = 1\n}", true),
    ("k {\na = 1 }", true),
    ("k \"l\"", true),
    ("k \"l\" = 1", true),
    ("k \"l\n\" {}", true),
    ("k 1 {}", true),
    ("k {} b = 1", true),
    ("k { a = 1, b = 2 }", true),
    ("}", true),
    ("]", true),
    (",", true),
    ("@", true),
    ("/ comment", true),
    ("/* open", false),
    ("-k = 1", true),
];

const BAD: &[&str] = &["ud800", "uDFFF", "uDbc1x", "U0000d800", "U00110000", "Uffffffff", "U7fffffff", "ud9ab\\udc00", "U80000041", "q", "8", "9x", "xg", "x", "u", "ug041", "U", "é", " ", "\n", "N", "'", "$"];

fn run_c23(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    match i % 6 {
        0 | 1 => planted(r, rec, i),
        2 => escape_planted(r, rec),
        3 => damaged(r, rec),
        4 => bytes(r, rec),
        _ => conversions(r, rec),
    }
}

fn readable(r: &mut Rng) -> (String, usize) {
    let mut d = gen::doc(r, &GenCfg::FULL);
    if r.one_in(8) {
        d.clear();
    }
    let st = if r.one_in(4) { Style::CANON } else { Style::WILD };
    let (mut t, _) = gen::render(r, &d, st);
    if !d.is_empty() || !t.is_empty() {
        t.push('\n');
    }
    (t, d.len())
}

fn planted(r: &mut Rng, rec: &mut Rec, i: u64) {
    let (mut text, n) = readable(r);
    let depth = r.pickc(&[0usize, 0, 0, 1, 2, 3]);
    for _ in 0..r.below(4) {
        text.push_str(r.pick(&[" ", "\t", "\n", "# c\n", "/* c */", "// é\r\n"]));
    }
    let at = text.len();
    for k in 0..depth {
        text.push_str(r.pick(&["w {\n", "w \"l\" {\n", "w l m {\n"]));
        if r.one_in(2) {
            text.push_str(r.pick(&["a = 1\n", "b = [\n1,\n]\n", "v {}\n", "# {\n"]));
        }
        text.push_str(&" ".repeat(k));
    }
    let (mut f, mut local) = FAULTS[if i % 3 == 0 { (i / 6) as usize % FAULTS.len() } else { r.below(FAULTS.len()) }];
    if f == "}" && depth > 0 {
        f = "]";
        local = true;
    }
    text.push_str(f);
    if local && r.one_in(2) {
        text.push('\n');
        if r.one_in(2) {
            text.push_str("b = 1\n");
        }
        for _ in 0..depth {
            text.push_str("}\n");
        }
    }
    rec.input(&text);
    rec.eval();
    if i < 60 {
        rec.sample(&text);
    }
    rec.count(if depth == 0 { "fault_at_top" } else { "fault_in_block" });
    if n > 0 {
        rec.nontrivial(text.as_bytes());
    }
    match fault_of(rec, &text) {
        None => {
            // A fault at the end of the text can be mended by what was put around it
            if let Verdict::Invalid = refparse::document(&text) {
                rec.fail("accepted", format!("{:?} accepted", f));
            }
        }
        Some(Err(())) => {}
        Some(Ok(e)) => {
            if let Verdict::Invalid = refparse::document(&text) {
            } else {
                return;
            }
            rec.check(!e.failure, "class", || "a failure, not an error".to_string());
            rec.check(e.at == at, "place", || format!("points at offset {} {:?}, the fault is at {} {:?}", e.at, snip(&e.rest), at, snip(&text[at..])));
            general(rec, &text, &e);
            messages(rec, &text, &e);
        }
    }
}

/// A bad escape in a string at some depth
fn escape_planted(r: &mut Rng, rec: &mut Rec) {
    let (mut text, n) = readable(r);
    // Also readable through the value interface
    let mut plain = match refparse::legacy(&text) {
        Verdict::Valid(_) => true,
        _ => false,
    };
    for _ in 0..r.below(4) {
        let s = r.pick(&["w {\n", "w \"l\" {\n", "w l \"m\" {\n"]);
        plain = plain && !s.contains("w l");
        text.push_str(s);
    }
    let label = r.one_in(4);
    if label {
        text.push_str(r.pick(&["t ", "t \"a\" ", "t a b ", "t \"\\n\""]));
    } else {
        text.push_str(r.pick(&["k = ", "k=", "k = /* \\ */ "]));
        for _ in 0..r.below(4) {
            let s = r.pick(&["[", "[1, ", "{a = ", "{\na = 1\nb = ", "(", "{", "{a = 1, ", "[\"\\n\", "]);
            plain = plain && s != "(" && s != "{" && !text.ends_with("{a = 1, ");
            text.push_str(s);
        }
    }
    text.push('"');
    for _ in 0..r.below(5) {
        text.push_str(r.pick(&["a", "é", "\\n", "\\\\", "\\u0041", "\\\"", " ", "\\x41", "\\101", "𝒳", "\\udbff"]));
        if text.ends_with("udbff") {
            text.truncate(text.len() - 6);
        }
    }
    text.push('\\');
    let at = text.len();
    let bad = r.pick(BAD);
    text.push_str(bad);
    text.push_str(r.pick(&["", "\"", "\"\n", "z\"]\n", " \" = 1}\n", "\\ud800\"\n"]));
    rec.input(&text);
    rec.eval();
    rec.count("bad_escape");
    if n > 0 {
        rec.nontrivial(text.as_bytes());
    }
    match fault_of(rec, &text) {
        None => rec.fail("accepted", "a bad escape was accepted"),
        Some(Err(())) => {}
        Some(Ok(e)) => {
            rec.check(e.failure, "class", || "an error, not a failure".to_string());
            rec.check(e.at == at, "escape-place", || format!("points at offset {} {:?}, the bad escape is at {} {:?}", e.at, snip(&e.rest), at, snip(&text[at..])));
            general(rec, &text, &e);
            messages(rec, &text, &e);
        }
    }
    // The same through the value interface
    if plain && !label {
        legacy_message(rec, &text, Some(at));
    }
}

fn legacy_message(rec: &mut Rec, text: &str, at: Option<usize>) {
    let e = match value::from_str(text, None) {
        Ok(_) => return,
        Err(e) => e,
    };
    match (&e, at) {
        (Error::ParseError(t), Some(at)) => {
            let shown = format!("{:?}", &text[at..]);
            rec.count("legacy_messages");
            rec.check(t.contains(&shown), "legacy-message", || format!("message {:?} does not show {:?}", snip(t), snip(&shown)));
        }
        (Error::ParseError(_), None) => {}
        (e, _) => rec.fail("legacy-kind", format!("{:?}", e)),
    }
}

fn damaged(r: &mut Rng, rec: &mut Rec) {
    let d = gen::doc(r, &GenCfg::FULL);
    let (t, _) = gen::render(r, &d, Style::WILD);
    let text = total::mutate(r, &t);
    rec.input(&text);
    rec.eval();
    rec.count("damaged");
    match fault_of(rec, &text) {
        None => {}
        Some(Err(())) => {}
        Some(Ok(e)) => {
            if e.at > 0 {
                rec.nontrivial(text.as_bytes());
            }
            general(rec, &text, &e);
            messages(rec, &text, &e);
        }
    }
    // The fault of a text of the common language, in the value interface: the first element
    let (mut t, n) = readable(r);
    if refparse::legacy(&t) == Verdict::Invalid || n == 0 {
        t = "a = 1\nb = \"x\"\nc {\n d = [1]\n}\n".to_string();
    }
    if let Verdict::Valid(_) = refparse::legacy(&t) {
        let at = t.len();
        t.push_str(r.pick(&["= 1\n", "k =\n", "k = [1,,]\n", "k = {a = }\n", "]\n", "}\n", "k = 1 2\n"]));
        rec.input(&t);
        if value::from_str(&t, None).is_ok() {
            return rec.fail("legacy-accepted", "a faulty element was accepted");
        }
        legacy_message(rec, &t, Some(at));
    }
}

/// How a reader fails
#[derive(Clone, Copy, Debug)]
enum Failing {
    Cause(std::io::ErrorKind),
    Bare(std::io::ErrorKind),
    System(i32),
}

impl Failing {
    fn error(self) -> std::io::Error {
        match self {
            Failing::Cause(k) => std::io::Error::new(k, "the cause 4711"),
            Failing::Bare(k) => k.into(),
            Failing::System(n) => std::io::Error::from_raw_os_error(n),
        }
    }

    /// Whether an error is the one the reader gave
    fn same(self, e: &std::io::Error) -> bool {
        let own = self.error();
        e.kind() == own.kind()
            && e.raw_os_error() == own.raw_os_error()
            && e.to_string() == own.to_string()
            && e.get_ref().is_some() == own.get_ref().is_some()
    }
}

struct Broken<'a>(&'a [u8], Failing, bool);
impl<'a> std::io::Read for Broken<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            if self.2 {
                return Ok(0);
            }
            return Err(self.1.error());
        }
        let n = self.0.len().min(buf.len()).min(7);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Bytes which are no text, and readers which fail
fn bytes(r: &mut Rng, rec: &mut Rec) {
    let (mut t, n) = readable(r);
    if r.one_in(3) {
        // Any text counts up to where it breaks
        t = gen::odd_text(r, &t);
    }
    let mut b = t.clone().into_bytes();
    // Damage before the end of a character is found where that character begins
    let mut cut = r.below(b.len() + 1);
    while !t.is_char_boundary(cut) {
        cut -= 1;
    }
    let seq: &[u8] = r.pickc(&[
        &b"\xff"[..],
        b"\x80",
        b"\xc3",
        b"\xe2\x82",
        b"\xf0\x9f\x98",
        b"\xed\xa0\x80",
        b"\xc0\x80",
        b"\xf4\x90\x80\x80",
        b"\xe9 caf\xe9",
    ]);
    b.splice(cut..cut, seq.iter().cloned());
    rec.input_bytes(&b);
    rec.eval();
    if let Err(u) = std::str::from_utf8(&b) {
        rec.count("utf8_offsets");
        if n > 0 {
            rec.nontrivial(&b);
        }
        let k = u.valid_up_to();
        rec.check(k == cut, "harness-utf8", || "harness".to_string());
        let mut results: Vec<(&str, Result<(), Error>)> = vec![
            ("parse_slice", parser::parse_slice(&b).map(|_| ())),
            ("value::from_slice", value::from_slice(&b, None).map(|_| ())),
        ];
        for (who, x) in results.drain(..) {
            match x {
                Err(Error::InvalidUnicodeToParse(e)) => {
                    rec.check(e == u, "utf8-offset", || format!("{}: {:?}, expected {:?}", who, e, u));
                }
                x => rec.fail("utf8-kind", format!("{}: {:?}", who, x)),
            }
        }
        let results = vec![
            ("parse_reader", parser::parse_reader(&b[..]).map(|_| ())),
            ("value::from_reader", value::from_reader(&b[..], None).map(|_| ())),
        ];
        for (who, x) in results {
            match x {
                Err(Error::IOError(e)) => {
                    rec.check(e.kind() == std::io::ErrorKind::InvalidData, "utf8-kind", || format!("{}: {:?}", who, e));
                }
                x => rec.fail("utf8-kind", format!("{}: {:?}", who, x)),
            }
        }
    }
    // A reader that fails says why
    use std::io::ErrorKind as K;
    let kind = r.pickc(&[K::NotFound, K::PermissionDenied, K::BrokenPipe, K::TimedOut, K::Other, K::WouldBlock, K::UnexpectedEof]);
    let fault = match r.below(3) {
        0 => Failing::Bare(kind),
        1 => {
            rec.count("system_errors");
            Failing::System(r.pickc(&[1, 2, 5, 9, 11, 12, 13, 21, 22, 28, 32, 104, 110, 116, 121]))
        }
        _ => Failing::Cause(kind),
    };
    let upto = r.below(t.len() + 1);
    rec.count("reader_errors");
    let results = vec![
        ("parse_reader", parser::parse_reader(Broken(&t.as_bytes()[..upto], fault, false)).map(|_| ())),
        ("value::from_reader", value::from_reader(Broken(&t.as_bytes()[..upto], fault, false), None).map(|_| ())),
    ];
    for (who, x) in results {
        match x {
            Err(Error::IOError(e)) => {
                rec.check(fault.same(&e), "reader-error", || format!("{}: {:?}, expected {:?}", who, e, fault));
            }
            x => rec.fail("reader-error", format!("{}: {:?}", who, x.map_err(|e| e.to_string()))),
        }
    }
    if let Err(e) = parser::parse_slice(&b) {
        wrapped(rec, e);
    }
    if let Err(e) = parser::parse_reader(Broken(&t.as_bytes()[..upto], fault, false)) {
        wrapped(rec, e);
    }
    wrapped_others(rec, &t);
}

fn kind_of(r: &mut Rng) -> ErrorKind {
    match r.below(14) {
        0 => ErrorKind::Tag,
        1 => ErrorKind::Alt,
        2 => ErrorKind::Eof,
        3 => ErrorKind::Many0,
        4 => ErrorKind::TakeUntil,
        5 => ErrorKind::Digit,
        6 => ErrorKind::EscapedTransform,
        7 => ErrorKind::MapRes,
        _ => ErrorKind::Custom(r.pickc(&[0u32, 1, 2, 0, 1, 2, 3, 4, 255, 256, 1 << 31, u32::max_value()])),
    }
}

/// What an entry of an error becomes: the variant, and what it has to hold
fn entry(kind: &ErrorKind, text: Option<&str>, raw: &[u8]) -> (&'static str, String) {
    match kind {
        ErrorKind::Custom(0) => ("InvalidUnicodeCodePoint", text.unwrap_or("UNKNOWN").to_string()),
        ErrorKind::Custom(1) => ("InvalidUnicode", format!("{:?}", raw)),
        ErrorKind::Custom(2) => ("InvalidNumber", text.unwrap_or("UNKNOWN").to_string()),
        ErrorKind::Custom(_) => ("ParseError", "UNKNOWN".to_string()),
        k => ("ParseError", k.description().to_string()),
    }
}

fn shape(e: &Error) -> (&'static str, String) {
    match e {
        Error::InvalidUnicodeCodePoint(t) => ("InvalidUnicodeCodePoint", t.clone()),
        Error::InvalidUnicode(b) => ("InvalidUnicode", format!("{:?}", b)),
        Error::InvalidNumber(t) => ("InvalidNumber", t.clone()),
        Error::ParseError(t) => ("ParseError", t.clone()),
        e => ("other", format!("{:?}", e)),
    }
}

/// Entries of a converted error
fn entries<I: Clone>(c: &Context<I, Error>) -> Vec<(I, (&'static str, String))> {
    let one = |k: &ErrorKind<Error>| match k {
        ErrorKind::Custom(e) => shape(e),
        k => ("not custom", format!("{:?}", k)),
    };
    match c {
        Context::Code(i, k) => vec![(i.clone(), one(k))],
        Context::List(l) => l.iter().map(|(i, k)| (i.clone(), one(k))).collect(),
    }
}

/// Arbitrary error values through the public conversions
fn conversions(r: &mut Rng, rec: &mut Rec) {
    let text = gen::string(r);
    let mut raw = text.clone().into_bytes();
    if r.one_in(3) {
        raw.push(0xff);
        raw.extend_from_slice(b"tail");
    }
    let n = match r.below(5) {
        0 | 1 => 0,
        2 => 1,
        _ => r.range(2, 6),
    };
    let kinds: Vec<ErrorKind> = (0..n.max(1)).map(|_| kind_of(r)).collect();
    let class = r.below(5);
    rec.input(&format!("{:?} of {:?} class {} list {}", kinds, text, class, n));
    rec.eval();
    rec.count("conversions");
    if n > 1 {
        rec.count("custom_lists");
    }
    // Each entry has another input, an end of the text
    let cuts: Vec<usize> = kinds
        .iter()
        .map(|_| {
            let mut c = r.below(text.len() + 1);
            while !text.is_char_boundary(c) {
                c -= 1;
            }
            c
        })
        .collect();
    macro_rules! go {
        ($mk: expr, $custom: expr, $plain: expr, $texts: expr, $who: expr) => {{
            let inputs: Vec<_> = cuts.iter().map(|c| $mk(*c)).collect();
            let build = || {
                let context = if n == 0 {
                    Context::Code(inputs[0].clone(), kinds[0].clone())
                } else {
                    Context::List(inputs.iter().cloned().zip(kinds.iter().cloned()).collect())
                };
                match class {
                    0 => nom::Err::Incomplete(Needed::Size(n)),
                    1 => nom::Err::Incomplete(Needed::Unknown),
                    2 => nom::Err::Error(context),
                    _ => nom::Err::Failure(context),
                }
            };
            let want: Vec<_> = inputs.iter().zip(&kinds).zip(&cuts).map(|((i, k), c)| (i.clone(), entry(k, $texts(*c), &raw_of(*c, $who, &text, &raw)))).collect();
            match (class, $custom(build())) {
                (0, nom::Err::Incomplete(Needed::Size(s))) => {
                    rec.check(s == n, "convert-class", || format!("{}: size {} for {}", $who, s, n));
                }
                (1, nom::Err::Incomplete(Needed::Unknown)) => {}
                (2, nom::Err::Error(c)) | (3, nom::Err::Failure(c)) | (4, nom::Err::Failure(c)) => {
                    let list = match c {
                        Context::List(_) => true,
                        _ => false,
                    };
                    rec.check(list == (n > 0), "convert-shape", || format!("{}: list {}", $who, list));
                    let got = entries(&c);
                    rec.check(got == want, "convert-entries", || format!("{}: {:?} expected {:?}", $who, got, want));
                }
                (c, e) => rec.fail("convert-class", format!("{}: class {} became {:?}", $who, c, e)),
            }
            // One error for all
            let e = build();
            let got = shape(&$plain(&e));
            let deciding = want.last().cloned();
            match deciding {
                Some((_, w)) if class >= 3 && w.0 != "ParseError" => {
                    rec.count("named_errors");
                    rec.check(got == w, "convert-named", || format!("{}: {:?} expected {:?}", $who, got, w));
                }
                _ => {
                    rec.check(got.0 == "ParseError", "convert-plain", || format!("{}: {:?}", $who, got));
                    let all = class < 2 || inputs.iter().all(|i| got.1.contains(&format!("{:?}", i)));
                    rec.check(all, "convert-message", || format!("{}: {:?} does not show {:?}", $who, got, inputs));
                }
            }
        }};
    }
    go!(|c: usize| CompleteStr(&text[c..]), Error::make_custom_err_str, Error::from_err_str, |c: usize| Some(&text[c..]), "str");
    go!(|c: usize| &text[c..], Error::make_custom_err_str, Error::from_err_str, |c: usize| Some(&text[c..]), "str");
    go!(|c: usize| &raw[c..], Error::make_custom_err_bytes, Error::from_err_bytes, |c: usize| std::str::from_utf8(&raw[c..]).ok(), "bytes");
    go!(|c: usize| CompleteStr(&text[c..]), Error::make_custom_err_bytes, Error::from_err_bytes, |c: usize| Some(&text[c..]), "str");
}

fn raw_of(c: usize, who: &str, text: &str, raw: &[u8]) -> Vec<u8> {
    if who == "bytes" {
        raw[c..].to_vec()
    } else {
        text.as_bytes()[c..].to_vec()
    }
}

// ---------------------------------------------------------------------------------------------
// C24

pub static C24: Prop = Prop {
    id: "C24",
    rule: "take_till_match! runs over texts (str, CompleteStr, Input) and bytes (slices, CompleteByteSlice, Input) with a pattern of one string, of two (also one of which is cut off by the end of input that may go on), or of a parser; every text of up to 4 letters over a small alphabet with characters of 1 to 4 bytes comes first, then random ones of up to some thousand bytes, with the match at the start, at the end, half of it at the end, several times or missing. Compared with a naive search: everything before the first match, the match, and the rest. No match is an error, never a panic. while_predicate1 and the safe indices likewise. Non-trivial: a match that is not at the start; distinct by text and pattern.",
    cases: (300_000, 6_000_000),
    threads: 8,
    run: run_c24,
    need: &["str", "bytes", "complete_bytes", "input_str", "input_bytes", "found", "not_found", "half_at_end", "short_exhaustive", "wide_chars", "predicates", "indices", "either_open_str", "either_open_bytes", "match_behind_cut", "huge", "insists", "insists_bytes", "gives_up_before_match"],
    exhaustive: false,
};

const LETTERS: &[&str] = &["a", "b", "é", "藏", "😀", "\n"];

fn run_c24(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let n = LETTERS.len() as u64;
    let total: u64 = (0..5).map(|k| n.pow(k)).sum();
    let text = if i < total {
        rec.count("short_exhaustive");
        let (mut i, mut len) = (i, 0);
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(LETTERS[(i % n) as usize]);
            i /= n;
        }
        s
    } else if i % 20_000 == 19_999 {
        rec.count("huge");
        let k = r.pickc(&[70_000, 140_000, 300_000]);
        let fill = r.pick(&["a", "é", "a\n", "藏x"]);
        let mut s = fill.repeat(k / fill.len());
        s.push_str("b😀");
        one_split(rec, &s, "b😀", "b");
        one_split(rec, &s, "b", "😀!");
        s
    } else {
        match r.below(4) {
            0 => gen::string(r),
            1 => {
                let k = r.size(3000);
                (0..k).map(|_| r.pick(LETTERS)).collect()
            }
            _ => {
                let k = r.size(30);
                (0..k).map(|_| r.pick(LETTERS)).collect()
            }
        }
    };
    let mut pats: Vec<String> = vec![];
    if i < total {
        pats.extend(["a", "ab", "é", "éa", "藏", "😀", "aa", "\n😀"].iter().map(|s| s.to_string()));
    } else {
        for _ in 0..2 {
            let mut p: String = (0..r.range(1, 3)).map(|_| r.pick(LETTERS)).collect();
            if r.one_in(2) && !text.is_empty() {
                // Something that is there
                let c: Vec<char> = text.chars().collect();
                let a = r.below(c.len());
                let b = (a + r.range(1, 4)).min(c.len());
                p = c[a..b].iter().collect();
            }
            pats.push(p);
        }
        if r.one_in(4) {
            // A text which ends within the one pattern and holds the other
            let c: Vec<char> = text.chars().collect();
            if c.len() > 2 {
                let a = c.len() - r.range(2, 4).min(c.len());
                let b = r.range(a + 1, c.len());
                let mut p: String = c[a..].iter().collect();
                p.push('!');
                let q: String = c[b.min(c.len() - 1)..].iter().collect();
                one_split(rec, &text, &p, &q);
            }
        }
    }
    for p in &pats {
        one_split(rec, &text, p, &pats[0]);
    }
    predicates(r, rec, &text);
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    (0..hay.len()).find(|k| hay[*k..].starts_with(needle))
}

fn one_split(rec: &mut Rec, text: &str, p: &str, q: &str) {
    rec.input(&format!("{:?} at {:?}", text, p));
    rec.eval();
    if text.chars().any(|c| c.len_utf8() > 1) {
        rec.count("wide_chars");
    }
    // At characters or at bytes, what begins a character is the same place
    let at = find(text.as_bytes(), p.as_bytes());
    rec.count(if at.is_some() { "found" } else { "not_found" });
    if at.is_none() && (1..p.len()).any(|k| text.as_bytes().ends_with(&p.as_bytes()[..k])) {
        rec.count("half_at_end");
    }
    if at.map_or(false, |a| a > 0) {
        rec.nontrivial(format!("{}|{}", p, text).as_bytes());
    }
    let two = match (at, find(text.as_bytes(), q.as_bytes())) {
        (Some(a), Some(b)) if b < a => Some((b, q.len())),
        (Some(a), _) => Some((a, p.len())),
        (None, Some(b)) => Some((b, q.len())),
        _ => None,
    };
    let want = at.map(|a| (a, p.len()));
    macro_rules! judge {
        ($name: expr, $bytes: expr, $want: expr, $e: expr, $complete: expr) => {{
            rec.count($name);
            let got = guard(|| $e);
            match (got, $want) {
                (Err(p), _) => rec.fail("panic", format!("{}: {}", $name, p)),
                (Ok(Ok((rest, (before, m)))), Some((a, l))) => {
                    let t = text.as_bytes();
                    let (rest, before, m) = ($bytes(&rest), $bytes(&before), $bytes(&m));
                    let ok = before == t[..a].to_vec() && m == t[a..a + l].to_vec() && rest == t[a + l..].to_vec();
                    rec.check(ok, "split", || format!("{}: before {:?} match {:?} rest {:?}, the match is at {}", $name, before, m, rest, a));
                }
                (Ok(Ok((_, (before, _)))), None) => rec.fail("found-nothing", format!("{}: matched after {:?}", $name, $bytes(&before))),
                (Ok(Err(e)), Some((a, _))) => rec.fail("not-found", format!("{}: {:?}, the match is at {}", $name, e.is_incomplete(), a)),
                (Ok(Err(e)), None) => {
                    // What may be continued asks for more
                    rec.check(e.is_incomplete() != $complete, "class", || format!("{}: incomplete {}", $name, e.is_incomplete()));
                }
            }
        }};
    }
    let t = text;
    let b = text.as_bytes();
    judge!("str", |s: &&str| s.as_bytes().to_vec(), want, ttm_str(t, p), false);
    judge!("complete_str", |s: &CompleteStr| s.0.as_bytes().to_vec(), want, ttm_cstr(CompleteStr(t), p), true);
    judge!("bytes", |s: &&[u8]| s.to_vec(), want, ttm_bytes(b, p), false);
    judge!("complete_bytes", |s: &CompleteByteSlice| s.0.to_vec(), want, ttm_cbytes(CompleteByteSlice(b), p), true);
    for eof in &[false, true] {
        judge!("input_str", |s: &Input<&str>| s.inner.as_bytes().to_vec(), want, ttm_istr(Input { inner: t, at_eof: *eof }, p), *eof);
        judge!("input_bytes", |s: &Input<&[u8]>| s.inner.to_vec(), want, ttm_ibytes(Input { inner: b, at_eof: *eof }, p), *eof);
    }
    // Either of two, and through a function
    judge!("either", |s: &CompleteStr| s.0.as_bytes().to_vec(), two, ttm_two(CompleteStr(t), p, q), true);
    judge!("either_bytes", |s: &CompleteByteSlice| s.0.to_vec(), two, ttm_two_b(CompleteByteSlice(b), p, q), true);
    // On input which may go on, a pattern cut off by the end neither matches nor keeps the search from going on
    let cut = |k: usize, p: &str| t.len() - k < p.len() && p.as_bytes().starts_with(&b[k..]);
    let places = |bytes: bool| (0..b.len()).filter(move |k| bytes || t.is_char_boundary(*k));
    let open = |bytes: bool| {
        places(bytes).find_map(|k| match () {
            _ if b[k..].starts_with(p.as_bytes()) => Some((k, p.len())),
            _ if cut(k, p) => None,
            _ if b[k..].starts_with(q.as_bytes()) => Some((k, q.len())),
            _ => None,
        })
    };
    let (open_s, open_b) = (open(false), open(true));
    if open_s.map_or(false, |(k, _)| (0..k).any(|k| cut(k, p) || cut(k, q))) {
        rec.count("match_behind_cut");
    }
    judge!("either_open_str", |s: &&str| s.as_bytes().to_vec(), open_s, ttm_two_s(t, p, q), false);
    judge!("either_open_bytes", |s: &&[u8]| s.to_vec(), open_b, ttm_two_o(b, p, q), false);
    // An inner parser which insists, once it has begun, does not end the search where it gives up
    let k = p.chars().next().map_or(0, char::len_utf8);
    if k < p.len() {
        let (p1, p2) = p.split_at(k);
        if find(b, p1.as_bytes()).map_or(false, |f| at.map_or(true, |a| f < a)) {
            rec.count("gives_up_before_match");
        }
        judge!("insists", |s: &CompleteStr| s.0.as_bytes().to_vec(), want, ttm_insists(CompleteStr(t), p1, p2), true);
        judge!("insists_bytes", |s: &CompleteByteSlice| s.0.to_vec(), want, ttm_insists_b(CompleteByteSlice(b), p1, p2), true);
    }
    // An inner parser that only looks ahead, or takes nothing, matches where it stands
    let ahead = at.map(|a| (a, 0));
    match guard(|| ttm_peek(CompleteStr(t), p)) {
        Err(m) => rec.fail("panic", format!("peek: {}", m)),
        Ok(got) => {
            let ok = match (&got, ahead) {
                (Ok((rest, (before, m))), Some((a, _))) => before.0 == &t[..a] && m.0 == p && rest.0 == &t[a..],
                (Err(e), None) => !e.is_incomplete(),
                _ => false,
            };
            rec.check(ok, "split", || format!("looking ahead: {:?}, the match is at {:?}", got.map_err(|e| e.is_incomplete()), at));
        }
    }
    match guard(|| ttm_peek_b(b, p)) {
        Err(m) => rec.fail("panic", format!("peek: {}", m)),
        Ok(got) => {
            let ok = match (&got, ahead) {
                (Ok((rest, (before, m))), Some((a, _))) => *before == &b[..a] && *m == p.as_bytes() && *rest == &b[a..],
                (Err(e), None) => e.is_incomplete(),
                _ => false,
            };
            rec.check(ok, "split", || format!("looking ahead in bytes: {:?}, the match is at {:?}", got.map_err(|e| e.is_incomplete()), at));
        }
    }
    // What may match nothing does so at once; there is no place in an empty text
    match guard(|| ttm_opt(CompleteStr(t), p)) {
        Err(m) => rec.fail("panic", format!("opt: {}", m)),
        Ok(got) => {
            let n = if at == Some(0) { p.len() } else { 0 };
            let ok = match &got {
                Ok((rest, (before, m))) => !t.is_empty() && before.0.is_empty() && m.map(|m| m.0) == t.get(..n).filter(|m| !m.is_empty()) && rest.0 == &t[n..],
                Err(e) => t.is_empty() && !e.is_incomplete(),
            };
            rec.check(ok, "split", || format!("an optional match: {:?}, a match is at {:?}", got.map_err(|e| e.is_incomplete()), at));
        }
    }
    rec.count("look_ahead");
    judge!("called", |s: &CompleteStr| s.0.as_bytes().to_vec(), want, ttm_call(CompleteStr(t), p), true);
}

type Split<I> = IResult<I, (I, I)>;

fn ttm_str<'a>(i: &'a str, p: &str) -> Split<&'a str> {
    take_till_match!(i, tag!(p))
}
fn ttm_cstr<'a>(i: CompleteStr<'a>, p: &str) -> Split<CompleteStr<'a>> {
    take_till_match!(i, tag!(p))
}
fn ttm_bytes<'a>(i: &'a [u8], p: &str) -> Split<&'a [u8]> {
    take_till_match!(i, tag!(p))
}
fn ttm_cbytes<'a>(i: CompleteByteSlice<'a>, p: &str) -> Split<CompleteByteSlice<'a>> {
    take_till_match!(i, tag!(p))
}
fn ttm_istr<'a>(i: Input<&'a str>, p: &str) -> Split<Input<&'a str>> {
    take_till_match!(i, tag!(p))
}
fn ttm_ibytes<'a>(i: Input<&'a [u8]>, p: &str) -> Split<Input<&'a [u8]>> {
    take_till_match!(i, tag!(p))
}
fn ttm_two<'a>(i: CompleteStr<'a>, p: &str, q: &str) -> Split<CompleteStr<'a>> {
    use nom::alt;
    take_till_match!(i, alt!(tag!(p) | tag!(q)))
}
fn ttm_two_b<'a>(i: CompleteByteSlice<'a>, p: &str, q: &str) -> Split<CompleteByteSlice<'a>> {
    use nom::alt;
    take_till_match!(i, alt!(tag!(p) | tag!(q)))
}
fn ttm_two_s<'a>(i: &'a str, p: &str, q: &str) -> Split<&'a str> {
    use nom::alt;
    take_till_match!(i, alt!(tag!(p) | tag!(q)))
}
fn ttm_two_o<'a>(i: &'a [u8], p: &str, q: &str) -> Split<&'a [u8]> {
    use nom::alt;
    take_till_match!(i, alt!(tag!(p) | tag!(q)))
}
fn ttm_call<'a>(i: CompleteStr<'a>, p: &str) -> Split<CompleteStr<'a>> {
    fn f<'a>(i: CompleteStr<'a>, p: &str) -> IResult<CompleteStr<'a>, CompleteStr<'a>> {
        tag!(i, p)
    }
    take_till_match!(i, call!(f, p))
}

fn ttm_peek<'a>(i: CompleteStr<'a>, p: &str) -> Split<CompleteStr<'a>> {
    fn f<'a>(i: CompleteStr<'a>, p: &str) -> IResult<CompleteStr<'a>, CompleteStr<'a>> {
        use nom::peek;
        peek!(i, tag!(p))
    }
    take_till_match!(i, call!(f, p))
}
fn ttm_peek_b<'a>(i: &'a [u8], p: &str) -> Split<&'a [u8]> {
    fn f<'a>(i: &'a [u8], p: &str) -> IResult<&'a [u8], &'a [u8]> {
        use nom::peek;
        peek!(i, tag!(p))
    }
    take_till_match!(i, call!(f, p))
}
fn ttm_opt<'a>(i: CompleteStr<'a>, p: &str) -> IResult<CompleteStr<'a>, (CompleteStr<'a>, Option<CompleteStr<'a>>)> {
    fn f<'a>(i: CompleteStr<'a>, p: &str) -> IResult<CompleteStr<'a>, Option<CompleteStr<'a>>> {
        use nom::opt;
        opt!(i, tag!(p))
    }
    take_till_match!(i, call!(f, p))
}

fn ttm_insists<'a>(i: CompleteStr<'a>, p: &str, q: &str) -> Split<CompleteStr<'a>> {
    fn f<'a>(i: CompleteStr<'a>, p: &str, q: &str) -> IResult<CompleteStr<'a>, CompleteStr<'a>> {
        use nom::return_error;
        let (rest, _) = tag!(i, p)?;
        let (rest, _) = return_error!(rest, ErrorKind::Custom(7), tag!(q))?;
        Ok((rest, CompleteStr(&i.0[..i.0.len() - rest.0.len()])))
    }
    take_till_match!(i, call!(f, p, q))
}
fn ttm_insists_b<'a>(i: CompleteByteSlice<'a>, p: &str, q: &str) -> Split<CompleteByteSlice<'a>> {
    fn f<'a>(i: CompleteByteSlice<'a>, p: &str, q: &str) -> IResult<CompleteByteSlice<'a>, CompleteByteSlice<'a>> {
        use nom::return_error;
        let (rest, _) = tag!(i, p)?;
        let (rest, _) = return_error!(rest, ErrorKind::Custom(7), tag!(q))?;
        Ok((rest, CompleteByteSlice(&i.0[..i.0.len() - rest.0.len()])))
    }
    take_till_match!(i, call!(f, p, q))
}

/// The longest start of which a predicate holds; indices at which a text can be cut
fn predicates(r: &mut Rng, rec: &mut Rec, text: &str) {
    rec.count("predicates");
    rec.input(text);
    let set: Vec<char> = (0..r.range(1, 4)).map(|_| r.pick(LETTERS).chars().next().unwrap_or('a')).collect();
    let n: usize = text.chars().take_while(|c| set.contains(c)).map(char::len_utf8).sum();
    match while_predicate1(CompleteStr(text), |c| set.contains(&c)) {
        Ok((rest, start)) => {
            rec.check(n > 0 && start.0 == &text[..n] && rest.0 == &text[n..], "predicate", || format!("{:?}: {:?} and {:?}", set, start.0, rest.0));
        }
        Err(e) => {
            rec.check(n == 0 && !e.is_incomplete(), "predicate", || format!("{:?}: an error, {} bytes match", set, n));
        }
    }
    match while_predicate1(text, |c| set.contains(&c)) {
        Ok((rest, start)) => {
            rec.check(n > 0 && n < text.len() && start == &text[..n] && rest == &text[n..], "predicate", || format!("{:?}: {:?} and {:?}", set, start, rest));
        }
        Err(e) => {
            rec.check(e.is_incomplete() == (n == text.len()) && (n == 0 || n == text.len()), "predicate", || {
                format!("{:?}: an error, {} bytes match", set, n)
            });
        }
    }
    // Bytes, as characters of one byte
    let b = text.as_bytes();
    let m = b.iter().take_while(|c| set.contains(&(**c as char))).count();
    match while_predicate1(CompleteByteSlice(b), |c| set.contains(&c)) {
        Ok((rest, start)) => {
            rec.check(m > 0 && start.0 == &b[..m] && rest.0 == &b[m..], "predicate", || format!("{:?}: {:?}", set, start));
        }
        Err(e) => {
            rec.check(m == 0 && !e.is_incomplete(), "predicate", || format!("{:?}: an error, {} bytes match", set, m));
        }
    }
    rec.count("indices");
    let places: Vec<usize> = (0..text.len()).filter(|k| text.is_char_boundary(*k)).collect();
    let bytes: Vec<usize> = (0..text.len()).collect();
    let cap = text.len() + 10;
    let got: Vec<(&str, Vec<usize>, &Vec<usize>)> = vec![
        ("str", text.safe_indices().take(cap).collect(), &places),
        ("CompleteStr", CompleteStr(text).safe_indices().take(cap).collect(), &places),
        ("bytes", b.safe_indices().take(cap).collect(), &bytes),
        ("CompleteByteSlice", CompleteByteSlice(b).safe_indices().take(cap).collect(), &bytes),
        ("Input str", Input { inner: text, at_eof: true }.safe_indices().take(cap).collect(), &places),
        ("Input bytes", Input { inner: b, at_eof: false }.safe_indices().take(cap).collect(), &bytes),
    ];
    for (who, g, w) in got {
        // The end may be among them: nothing can go wrong there
        let mut g2 = g.clone();
        if g2.last() == Some(&text.len()) {
            g2.pop();
        }
        rec.check(g2 == *w, "indices", || format!("{}: {:?} expected {:?}", who, g, w));
    }
}

// ---------------------------------------------------------------------------------------------
// C25

pub static C25: Prop = Prop {
    id: "C25",
    rule: "Each public parser of a construct (identifier, number, boolean, null, string, string literal, heredoc, tuple, object, its elements and keys, brackets, expression, attribute, label, labels, one-line block, block, body element, body, the comments, newline and whitespace) gets a random construct in a random spelling followed by random text which cannot belong to it. It has to return what was written, and the rest of the input from exactly where the construct ends (after the layout, for those which take the layout along), as a slice of the input. The scanners of numbers, identifiers and quoted strings also get random texts, judged by an independent scanner. Constructs of thousands of parts are read likewise. A text which begins with no such construct, or with almost one, has to be an ordinary error, neither incomplete nor a failure. Non-trivial: construct with text behind it; distinct by parser and text.",
    cases: (240_000, 4_000_000),
    threads: 8,
    run: run_c25,
    need: &[
        "expression", "bracket_expression", "tuple", "object", "object_element", "object_key", "attribute", "block", "one_line_block", "block_label", "block_labels", "body_element", "body", "identifier",
        "number", "boolean", "null", "string", "string_literal", "heredoc", "inline_comment", "line_comment", "newline", "whitespace", "inline_whitespace", "scanned_numbers", "scanned_identifiers",
        "scanned_strings", "refused", "almost", "object_body", "every_character", "vast",
    ],
    exhaustive: false,
};

/// Text behind a construct. `first`: how it may begin
fn tail(r: &mut Rng, first: &[&str]) -> String {
    let mut t = String::new();
    if r.one_in(8) {
        return t;
    }
    t.push_str(r.pick(first));
    for _ in 0..r.below(4) {
        match r.below(4) {
            0 => t.push(gen::special_char(r)),
            1 => t.push_str(r.pick(TAILS)),
            2 => t.push_str(&gen::number(r)),
            _ => t.push_str(r.pick(&["a = 1\n", "\"", "b {\n}\n", "[1, 2]", "# c\n", "/* c */", "<<E\nE\n", "EOF\n", "E\n", " "])),
        }
    }
    t
}

/// Anything may follow a construct that delimits itself
const TAILS: &[&str] = &[
    "", " ", "  ", "\t", "\n", "\r\n", ",", "]", "}", ")", "=", "\"", "\\", "a", "é", "藏", "😀", "1", "-", ".", "e5", "/", "/*", "/* c */", "//", "#", "# c\n", "<", "<<E", "*", "{", "[", "(", "\0", "\r",
    "\u{a0}", "\u{2028}", "\u{feff}", "$", "null",
];
/// What may follow a word
const AFTER_WORD: &[&str] = &[" ", "\t", "\n", "\r\n", ",", "]", "}", ")", "=", "\"", "\\", ".", "/", "/* c */", "//", "#", "<", "{", "[", "(", "😀", "$", "*", "\u{2028}"];
/// What may follow a number
const AFTER_NUM: &[&str] = &[" ", "\t", "\n", ",", "]", "}", ")", "=", "\"", "\\", "/", "/* c */", "#", "<", "{", "[", "(", "a", "é", "x", "-", "+", "_"];

fn after<'x>(e: &E) -> &'x [&'x str] {
    match e {
        E::Num(_) => AFTER_NUM,
        E::Null | E::Bool(_) => AFTER_WORD,
        _ => TAILS,
    }
}

/// Without the layout within the line
fn skip_inline(mut s: &str) -> &str {
    loop {
        let t = s.trim_start_matches(|c| c == ' ' || c == '\t');
        let t = match (t.starts_with("/*"), t.get(2..).and_then(|x| x.find("*/"))) {
            (true, Some(k)) => &t[k + 4..],
            _ => t,
        };
        if t.len() == s.len() {
            return s;
        }
        s = t;
    }
}

/// Without any layout
fn skip_all(mut s: &str) -> &str {
    loop {
        let mut t = skip_inline(s).trim_start_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r');
        if t.starts_with('#') || t.starts_with("//") {
            if let Some(k) = t.find('\n') {
                t = &t[k..];
            }
        }
        if t.len() == s.len() {
            return s;
        }
        s = t;
    }
}

type Got<'a, T> = IResult<CompleteStr<'a>, T, u32>;

struct Case<'a> {
    name: &'static str,
    text: &'a str,
    rest: &'a str,
}

fn judge<'a, T, W, F>(rec: &mut Rec, c: &Case<'a>, got: Result<Got<'a, T>, String>, want: &W, conv: F)
where
    W: PartialEq + std::fmt::Debug,
    F: FnOnce(&T) -> Result<W, String>,
{
    rec.count(c.name);
    rec.eval();
    rec.input(c.text);
    if !c.rest.is_empty() {
        rec.nontrivial(format!("{}|{}", c.name, c.text).as_bytes());
    }
    match got {
        Err(p) => rec.fail("panic", format!("{}: {}", c.name, p)),
        Ok(Err(e)) => rec.fail("refused", format!("{}: {}", c.name, snip(&format!("{:?}", e)))),
        Ok(Ok((rest, v))) => {
            rec.check(rest.0 == c.rest, "rest", || format!("{}: leaves {:?}, expected {:?}", c.name, snip(rest.0), snip(c.rest)));
            rec.check(offset_in(c.text, rest.0).is_some(), "rest-elsewhere", || format!("{}: the rest is no part of the input", c.name));
            match conv(&v) {
                Err(e) => rec.fail("value", format!("{}: {}", c.name, e)),
                Ok(v) => {
                    rec.check(v == *want, "value", || diff_text(&format!("{:?}", want), &format!("{:?}", v)));
                }
            }
        }
    }
}

fn run_c25(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let plain = Style {
        heredocs: false,
        ..Style::WILD
    };
    let st = Style {
        heredocs: r.one_in(2),
        ..if r.one_in(6) { Style::CANON } else { Style::WILD }
    };
    let mut budget = 12;
    macro_rules! run {
        ($name: expr, $text: expr, $rest: expr, $f: expr, $want: expr, $conv: expr) => {{
            let text: &str = $text;
            let c = Case {
                name: $name,
                text,
                rest: $rest,
            };
            judge(rec, &c, guard(|| $f(CompleteStr(text))), $want, $conv)
        }};
    }
    if i < 0x11_0000 / 256 {
        behind(rec, i as u32 * 256);
    }
    if i % 2000 == 7 {
        vast(r, rec);
    }
    match i % 20 {
        0 | 1 => {
            let e = gen::expr(r, &GenCfg::FULL, 1, &mut budget);
            let x = gen::render_expr(r, &e, plain);
            // In parentheses anything can follow
            let t = tail(r, after(&e));
            let text = format!("{}{}", x, t);
            run!("expression", &text, &t, expression::expression, &e, from_expr);
            if i < 60 {
                rec.sample(&text);
            }
            let t = tail(r, TAILS);
            let gap = r.pick(&["", " ", "\n", "# c\n", "/* ) */", " \r\n\t"]);
            let text = format!("({}{}{}){}", gap, x, gap, t);
            run!("bracket_expression", &text, &t, expression::bracket_expression, &e, from_expr);
            run!("expression", &text, &t, expression::expression, &e, from_expr);
        }
        2 => {
            let v: Vec<E> = (0..r.below(5)).map(|_| gen::expr(r, &GenCfg::FULL, 2, &mut budget)).collect();
            let e = E::Tuple(v);
            let x = gen::render_expr(r, &e, Style { parens: false, ..st });
            let t = tail(r, TAILS);
            let text = format!("{}{}", x, t);
            run!("tuple", &text, &t, tuple::tuple, &e, |v: &Vec<_>| Ok(E::Tuple(v.iter().map(from_expr).collect::<Result<_, _>>()?)));
            run!("expression", &text, &t, expression::expression, &e, from_expr);
        }
        3 | 4 => {
            let mut e = gen::expr(r, &GenCfg::FULL, 0, &mut budget);
            for _ in 0..20 {
                if let E::Obj(_) = e {
                    break;
                }
                budget = 12;
                e = gen::expr(r, &GenCfg::FULL, 0, &mut budget);
            }
            let o = match &e {
                E::Obj(o) => o.clone(),
                _ => return,
            };
            let x = gen::render_expr(r, &e, Style { parens: false, ..st });
            let t = tail(r, TAILS);
            let text = format!("{}{}", x, t);
            let conv = |v: &object::Object| Ok(E::Obj(v.iter().map(|(k, e)| Ok((from_key(k)?, from_expr(e)?))).collect::<Result<_, String>>()?));
            run!("object", &text, &t, object::object, &e, conv);
            run!("expression", &text, &t, expression::expression, &e, from_expr);
            // What is between the braces
            let inner = format!("{}}}{}", &x[1..x.len() - 1], t);
            if !inner.starts_with(|c| c == ' ' || c == '\t' || c == '\n') || st.wild {
                let rest = format!("}}{}", t);
                run!("object_body", &inner, &rest, object::object_body, &e, conv);
            }
            // One element
            if let Some((k, v)) = o.first() {
                let one = E::Obj(vec![(k.clone(), v.clone())]);
                let x = gen::render_expr(
                    r,
                    &one,
                    Style {
                        wild: false,
                        parens: false,
                        heredocs: false,
                        ..st
                    },
                );
                // `{`, newline, element, newline, `}`
                let x = x[1..x.len() - 1].trim_matches('\n').to_string();
                let lead = r.pick(&["", " ", "\t", "/* c */"]);
                let t = tail(r, after(v));
                let text = format!("{}{}{}", lead, x, t);
                let want = (k.clone(), v.clone());
                let conv = |(k, v): &object::ObjectElement| Ok((from_key(k)?, from_expr(v)?));
                run!("object_element", &text, skip_inline(&t), object::object_element, &want, conv);
                // Its key
                if let K::Ident(s) = k {
                    let t = tail(r, AFTER_WORD);
                    let text = format!("{}{}", s, t);
                    run!("object_key", &text, &t, object::object_element_identifier, k, from_key);
                } else if let K::Expr(e @ E::Str(_)) = k {
                    let q = gen::render_expr(r, e, plain);
                    let t = tail(r, TAILS);
                    let text = format!("{}{}", q, t);
                    run!("object_key", &text, &t, object::object_element_identifier, k, from_key);
                }
            }
        }
        5 | 6 => {
            let e = gen::expr(r, &GenCfg::FULL, 1, &mut budget);
            let n = gen::ident(r);
            let x = gen::render_expr(r, &e, plain);
            let g = |r: &mut Rng| r.pick(&["", " ", "\t", "  ", "/* = */", " /**/ "]).to_string();
            let t = tail(r, after(&e));
            let text = format!("{}{}{}={}{}{}", g(r), n, g(r), g(r), x, t);
            let conv = |(k, v): &attribute::Attribute| Ok((k.to_string(), from_expr(v)?));
            run!("attribute", &text, skip_inline(&t), attribute::attribute, &(n.clone(), e.clone()), conv);
            let want = vec![El::Attr(n.clone(), e.clone())];
            run!("body_element", &text, skip_inline(&t), body::body_element, &want, |b: &body::BodyElement| from_body(&vec![b.clone()]));
            if let E::Num(_) | E::Null | E::Bool(_) = e {
                return;
            }
            // In a block of one line
            let l = gen::labels(r, &GenCfg::FULL);
            let ty = gen::ident(r);
            let mut head = ty.clone();
            for x in &l {
                head.push_str(if x.quoted && r.one_in(2) { "" } else { " " });
                head.push_str(&if x.quoted { gen::quote(r, &x.text, false, true) } else { x.text.clone() });
            }
            let t = tail(r, TAILS);
            let text = format!("{}{}{}{{{}{}{}={}{}{}}}{}", g(r), head, g(r), g(r), n, g(r), g(r), x, g(r), t);
            let want = Bl {
                ty,
                labels: l,
                body: want,
            };
            run!("one_line_block", &text, skip_inline(&t), block::one_line_block, &want, from_block);
            let el = vec![El::Block(want)];
            run!("body_element", &text, skip_inline(&t), body::body_element, &el, |b: &body::BodyElement| from_body(&vec![b.clone()]));
        }
        7 | 8 => {
            let b = Bl {
                ty: gen::ident(r),
                labels: gen::labels(r, &GenCfg::FULL),
                body: gen::body(r, &GenCfg::FULL, 2, &mut budget),
            };
            let d = vec![El::Block(b.clone())];
            // A document of one block, without the layout around it
            let (x, _) = gen::render(
                r,
                &d,
                Style {
                    wild: false,
                    ..st
                },
            );
            let x = x.trim_end_matches('\n').to_string();
            let t = tail(r, TAILS);
            let lead = r.pick(&["", " ", "\t/* c */"]);
            let text = format!("{}{}{}", lead, x, t);
            let rest = skip_inline(&t);
            run!("body_element", &text, rest, body::body_element, &d, |b: &body::BodyElement| from_body(&vec![b.clone()]));
            if x.ends_with("{}") {
                run!("one_line_block", &text, rest, block::one_line_block, &b, from_block);
            } else {
                run!("block", &text, rest, block::block, &b, from_block);
            }
        }
        9 => {
            let l = gen::labels(r, &GenCfg::FULL);
            let mut x = String::new();
            for (k, l) in l.iter().enumerate() {
                if k > 0 {
                    x.push_str(r.pick(&[" ", "\t", "/**/", "  "]));
                }
                let q = if l.quoted { gen::quote(r, &l.text, false, true) } else { l.text.clone() };
                let t = tail(r, if l.quoted { TAILS } else { AFTER_WORD });
                let one = format!("{}{}", q, t);
                run!("block_label", &one, &t, block::block_label, l, |l| Ok(from_label(l)));
                x.push_str(&q);
            }
            // What cannot be a label
            let t = format!("{}{}", r.pick(&["{", "=", "1", "\n", ",", " {", "/* c */{", "[", "\t=", "-"]), tail(r, TAILS));
            let t = if l.last().map_or(false, |l| !l.quoted) && (t.starts_with('-') || t.starts_with('1')) { " {".to_string() } else { t };
            let text = format!("{}{}", x, t);
            let rest = if l.is_empty() { &t[..] } else { skip_inline(&t) };
            run!("block_labels", &text, rest, block::block_labels, &l, |v: &Vec<_>| Ok(v.iter().map(from_label).collect::<Vec<_>>()));
        }
        10 | 11 => {
            let d = gen::doc(r, &GenCfg::FULL);
            let (mut x, _) = gen::render(r, &d, st);
            x.push('\n');
            let t = format!("{}{}", r.pick(&["}", "]", "=", "1", "\"", ",", "@", "-", "/* open"]), r.pick(TAILS));
            let t = if t.contains("*/") { "}".to_string() } else { t };
            let text = format!("{}{}", x, t);
            run!("body", &text, &t, body::body, &d, from_body);
        }
        12 => {
            // Numbers, by an independent scanner
            let mut s = if r.one_in(2) { gen::number(r) } else { String::new() };
            for _ in 0..r.below(8) {
                s.push(r.pickc(&['0', '1', '9', '.', 'e', 'E', '+', '-', ' ', 'a', '_', '٣', '½']));
            }
            let n = scan_number(&s);
            scanned(rec, "number", &s, n, number::number, |x| x.to_string());
            rec.count("scanned_numbers");
            let x = gen::number(r);
            let t = tail(r, AFTER_NUM);
            let text = format!("{}{}", x, t);
            run!("number", &text, &t, number::number, &x, |n: &number::Number| Ok(n.to_string()));
        }
        13 => {
            let mut s = if r.one_in(2) { gen::ident(r) } else { String::new() };
            for _ in 0..r.below(5) {
                match r.below(3) {
                    0 => s.push(gen::special_char(r)),
                    1 => s.push(gen::any_char(r)),
                    _ => s.push(r.pickc(&['a', '-', '_', '1', ' ', '.', '٣', '\u{300}', '·', 'ª', '℘', '=', '{'])),
                }
            }
            let first = s.chars().next();
            let n = if first.map_or(false, |c| is_id_start(c) || c == '_') {
                Some(s.chars().take_while(|c| is_id_continue(*c) || *c == '-').map(char::len_utf8).sum())
            } else {
                None
            };
            scanned(rec, "identifier", &s, n, identifier::identifier, |x| x.to_string());
            rec.count("scanned_identifiers");
            let x = gen::ident(r);
            let t = tail(r, AFTER_WORD);
            let text = format!("{}{}", x, t);
            run!("identifier", &text, &t, identifier::identifier, &x, |n: &identifier::Identifier| Ok(n.to_string()));
        }
        14 => {
            let b = r.one_in(2);
            let t = tail(r, AFTER_WORD);
            let text = format!("{}{}", b, t);
            run!("boolean", &text, &t, boolean::boolean, &b, |b: &bool| Ok(*b));
            let text = format!("null{}", t);
            run!("null", &text, &t, null::null, &(), |_: &()| Ok(()));
        }
        15 | 16 => {
            let s = gen::string(r);
            let t = tail(r, TAILS);
            let text = format!("{}{}", gen::quote(r, &s, true, true), t);
            run!("string", &text, &t, string::string, &s, |s: &std::borrow::Cow<str>| Ok(s.to_string()));
            let text = format!("{}{}", gen::quote(r, &s, false, true), t);
            run!("string_literal", &text, &t, string::string_literal, &s, |s: &String| Ok(s.clone()));
            run!("string", &text, &t, string::string, &s, |s: &std::borrow::Cow<str>| Ok(s.to_string()));
            // Any text behind a quote, by an independent scanner
            let mut s = String::from("\"");
            for _ in 0..r.below(8) {
                match r.below(4) {
                    0 => s.push(gen::special_char(r)),
                    1 => s.push_str(r.pick(&["\\", "\"", "\\\"", "\\\\", "\n", "\r\n", "\\n", "\\x4", "\\u41", "\\8", "\\q", "\\101", "\\U0001f600"])),
                    _ => s.push(r.pickc(&['a', '"', 'é', '1', ' '])),
                }
            }
            rec.count("scanned_strings");
            strings(rec, &s);
        }
        17 => {
            let s = gen::string(r);
            if let Some(h) = gen::heredoc_of(r, &s) {
                let eol = r.pick(&["\n", "\r\n"]);
                let t = format!("{}{}", eol, tail(r, TAILS));
                let text = format!("{}{}", h, t);
                run!("heredoc", &text, &t, string::heredoc_string, &s, |s: &std::borrow::Cow<str>| Ok(s.to_string()));
                run!("heredoc", &text, &t, string::string, &s, |s: &std::borrow::Cow<str>| Ok(s.to_string()));
                run!("heredoc", &text, &t, expression::expression, &E::Str(s.clone()), from_expr);
            }
        }
        18 => comments(r, rec),
        _ => refusals(r, rec),
    }
}

/// Every character behind every construct which cannot go on with it
fn behind(rec: &mut Rec, from: u32) {
    for c in (from..from + 256).filter_map(std::char::from_u32) {
        let word = is_id_continue(c) || c == '-' || c == '_';
        let gap = c == ' ' || c == '\t';
        let line = gap || c == '\n' || c == '\r' || c == '#' || c == '/';
        let start = is_id_start(c) || c == '_';
        let mut done = 0;
        macro_rules! one {
            ($m: ident :: $f: ident, $when: expr, $text: expr, $rest: expr, $ok: expr) => {
                if $when {
                    let text = format!("{}{}", $text, c);
                    let rest = &text[$text.len() - $rest..];
                    rec.input(&text);
                    done += 1;
                    match guard(|| $m::$f(CompleteStr(&text)).map(|(l, v)| (l.0, $ok(&v)))) {
                        Err(p) => rec.fail("panic", format!("{}: {}", stringify!($f), p)),
                        Ok(Err(e)) => rec.fail("behind-refused", format!("{}: {:?}: {}", stringify!($f), text, snip(&format!("{:?}", e)))),
                        Ok(Ok((l, v))) => {
                            rec.check(v, "behind-value", || format!("{}: {:?} is read as something else", stringify!($f), text));
                            rec.check(l == rest && l.as_ptr() == rest.as_ptr(), "behind-rest", || format!("{}: {:?} leaves {:?}, expected {:?}", stringify!($f), text, l, rest));
                        }
                    }
                }
            };
        }
        macro_rules! none {
            ($($m: ident :: $f: ident),* when $when: expr) => { $(
                if $when {
                    let text = format!("{}", c);
                    rec.input(&text);
                    done += 1;
                    match guard(|| $m::$f(CompleteStr(&text)).map(|(l, _)| l.0.len())) {
                        Err(p) => rec.fail("panic", format!("{}: {}", stringify!($f), p)),
                        Ok(Ok(_)) => rec.fail("behind-accepted", format!("{}: accepts {:?}", stringify!($f), text)),
                        Ok(Err(e)) => {
                            rec.check(ordinary(&e), "behind-class", || format!("{}: {:?}: {:?}", stringify!($f), text, e));
                        }
                    }
                }
            )* };
        }
        use ferrous_chloride::parser::expression::Expression as X;
        one!(boolean::boolean, !word, "true", 0, |b: &bool| *b);
        one!(boolean::boolean, !word, "false", 0, |b: &bool| !*b);
        one!(null::null, !word, "null", 0, |_: &()| true);
        one!(identifier::identifier, !word, "a-b", 0, |n: &identifier::Identifier| n.to_string() == "a-b");
        one!(number::number, !(c.is_ascii_digit() || c == '.'), "-12", 0, |n: &number::Number| n.to_string() == "-12");
        one!(number::number, !(c.is_ascii_digit() || c == 'e' || c == 'E'), "1.5", 0, |n: &number::Number| n.to_string() == "1.5");
        one!(string::string, true, "\"a\"", 0, |s: &std::borrow::Cow<str>| s == "a");
        one!(string::string_literal, true, "\"a\"", 0, |s: &String| s == "a");
        one!(string::heredoc_string, true, "<<E\na\nE\n", 1, |s: &std::borrow::Cow<str>| s == "a" || s == "a\n");
        one!(tuple::tuple, true, "[1]", 0, |v: &Vec<_>| v.len() == 1);
        one!(object::object, true, "{}", 0, |o: &object::Object| o.iter().count() == 0);
        one!(object::object_element_identifier, !word, "k", 0, |k: &object::ObjectElementIdentifier| from_key(k).map_or(false, |k| k == K::Ident("k".to_string())));
        one!(expression::bracket_expression, true, "(1)", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Num("1".to_string())));
        one!(expression::expression, true, "(1)", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Num("1".to_string())));
        one!(expression::expression, true, "\"a\"", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Str("a".to_string())));
        one!(expression::expression, true, "[]", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Tuple(vec![])));
        one!(expression::expression, true, "{}", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Obj(vec![])));
        one!(expression::expression, !word, "null", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Null));
        one!(expression::expression, !word, "true", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Bool(true)));
        one!(expression::expression, !(c.is_ascii_digit() || c == '.'), "1", 0, |e: &X| from_expr(e).map_or(false, |e| e == E::Num("1".to_string())));
        one!(block::block_label, true, "\"l\"", 0, |_: &_| true);
        one!(block::block_label, !word, "l", 0, |_: &_| true);
        one!(block::block_labels, !(gap || start || c == '"' || c == '/'), "\"l\"", 0, |v: &Vec<_>| v.len() == 1);
        one!(block::one_line_block, !(gap || c == '/'), "b {}", 0, |_: &_| true);
        one!(block::block, !(gap || c == '/'), "b {\n}", 0, |_: &_| true);
        one!(attribute::attribute, !(gap || c == '/'), "a = \"x\"", 0, |_: &_| true);
        one!(body::body, !(line || start), "a = 1\n", 0, |b: &body::Body| b.len() == 1);
        one!(whitespace::inline_comment, true, "/* c */", 0, |s: &CompleteStr| s.0 == " c ");
        one!(whitespace::hash_comment, true, "# c\n", 0, |s: &CompleteStr| s.0 == " c");
        one!(whitespace::slash_comment, true, "// c\n", 0, |s: &CompleteStr| s.0 == " c");
        one!(whitespace::line_comment, true, "# c\r\n", 0, |s: &CompleteStr| s.0 == " c");
        one!(whitespace::newline, !(line && !gap), "\n", 0, |_: &_| true);
        one!(whitespace::whitespace, !line, " \t\n", 0, |_: &_| true);
        one!(whitespace::whitespace, !line, "", 0, |_: &_| true);
        one!(whitespace::inline_whitespace, !gap, " \t", 0, |_: &_| true);
        one!(whitespace::inline_whitespace, !gap, "", 0, |_: &_| true);
        none!(identifier::identifier, block::block_label, object::object_element_identifier when !start && c != '"' && !c.is_ascii_digit());
        none!(number::number when !c.is_ascii_digit());
        none!(
            boolean::boolean, null::null, string::string, string::string_literal, string::heredoc_string, tuple::tuple, object::object, object::object_element, expression::bracket_expression, attribute::attribute,
            block::block, block::one_line_block, body::body_element, whitespace::inline_comment, whitespace::hash_comment, whitespace::slash_comment, whitespace::line_comment when true
        );
        none!(expression::expression when !c.is_ascii_digit());
        none!(whitespace::newline when c != '\n');
        rec.add("every_character", done);
    }
}

fn scan_number(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut k = 0;
    if k < b.len() && (b[k] == b'+' || b[k] == b'-') {
        k += 1;
    }
    let digits = |mut k: usize| {
        while k < b.len() && b[k].is_ascii_digit() {
            k += 1;
        }
        k
    };
    let w = digits(k);
    let whole = w > k;
    k = w;
    if k < b.len() && b[k] == b'.' {
        let f = digits(k + 1);
        if whole || f > k + 1 {
            k = f;
        } else {
            return None;
        }
    } else if !whole {
        return None;
    }
    if k < b.len() && (b[k] == b'e' || b[k] == b'E') {
        let mut j = k + 1;
        if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
            j += 1;
        }
        let e = digits(j);
        if e > j {
            k = e;
        }
    }
    Some(k)
}

fn scanned<'a, T, F, G>(rec: &mut Rec, name: &str, s: &'a str, want: Option<usize>, f: F, show: G)
where
    F: FnOnce(CompleteStr<'a>) -> Got<'a, T>,
    G: FnOnce(&T) -> String,
{
    rec.input(s);
    rec.eval();
    let got = guard(|| f(CompleteStr(s)));
    match (got, want) {
        (Err(p), _) => rec.fail("panic", format!("{}: {}", name, p)),
        (Ok(Ok((rest, v))), Some(n)) => {
            let v = show(&v);
            rec.check(v == s[..n] && rest.0 == &s[n..], "scan", || format!("{}: {:?} and {:?}, expected {:?} and {:?}", name, v, rest.0, &s[..n], &s[n..]));
        }
        (Ok(Ok((rest, v))), None) => rec.fail("scan", format!("{}: {:?} and {:?}, expected an error", name, show(&v), rest.0)),
        (Ok(Err(e)), Some(n)) => rec.fail("scan", format!("{}: {:?}, expected {:?}", name, e, &s[..n])),
        (Ok(Err(e)), None) => {
            rec.check(ordinary(&e), "scan-class", || format!("{}: {:?}", name, e));
        }
    }
}

fn ordinary<I>(e: &nom::Err<I>) -> bool {
    match e {
        nom::Err::Error(_) => true,
        _ => false,
    }
}

/// The string parsers on any text that begins with a quote: up to the quote that ends it
fn strings(rec: &mut Rec, s: &str) {
    rec.input(s);
    rec.eval();
    // The first quote that is not escaped
    let mut esc = false;
    let mut end = None;
    for (k, c) in s.char_indices().skip(1) {
        if esc {
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if c == '"' {
            end = Some(k + 1);
            break;
        }
    }
    for multi in &[true, false] {
        let want = end.and_then(|n| match refparse::expression(&s[..n]) {
            Verdict::Valid(E::Str(v)) if *multi || !s[..n].contains(|c| c == '\n' || c == '\r') => Some((n, v)),
            _ => None,
        });
        let got = guard(|| {
            if *multi {
                string::string(CompleteStr(s)).map(|(r, v)| (r.0, v.into_owned()))
            } else {
                string::string_literal(CompleteStr(s)).map(|(r, v)| (r.0, v))
            }
        });
        match (got, want) {
            (Err(p), _) => rec.fail("panic", p),
            (Ok(Ok((rest, v))), Some((n, w))) => {
                rec.check(v == w && rest == &s[n..], "scan", || format!("string: {:?} and {:?}, expected {:?}", v, rest, w));
            }
            (Ok(Ok((rest, v))), None) => rec.fail("scan", format!("string: {:?} and {:?}, expected an error", v, rest)),
            (Ok(Err(e)), Some((_, w))) => rec.fail("scan", format!("string: {:?}, expected {:?}", e, w)),
            (Ok(Err(e)), None) => {
                rec.check(!e.is_incomplete(), "scan-class", || format!("string: {:?}", e));
            }
        }
    }
}

/// Comments and other layout
fn comments(r: &mut Rng, rec: &mut Rec) {
    macro_rules! run {
        ($name: expr, $text: expr, $rest: expr, $f: expr, $want: expr, $conv: expr) => {{
            let text: &str = $text;
            let c = Case {
                name: $name,
                text,
                rest: $rest,
            };
            judge(rec, &c, guard(|| $f(CompleteStr(text))), $want, $conv)
        }};
    }
    let mut c = String::new();
    for _ in 0..r.below(6) {
        match r.below(3) {
            0 => c.push(gen::special_char(r)),
            1 => c.push(gen::any_char(r)),
            _ => c.push_str(r.pick(TAILS)),
        }
    }
    let t = tail(r, TAILS);
    let inline = c.replace("*/", "* /");
    // `/*/` does not end, nor does `**` before a slash
    let inline = if inline.ends_with('*') { format!("{} ", inline) } else { inline };
    let text = format!("/*{}*/{}", inline, t);
    run!("inline_comment", &text, &t, whitespace::inline_comment, &inline, |s: &CompleteStr| Ok(s.0.to_string()));
    // A carriage return alone ends no line
    let line: String = c.chars().filter(|c| *c != '\n').collect();
    let line = line.trim_end_matches('\r');
    let line = if r.one_in(4) { format!("{}\rx", line) } else { line.to_string() };
    let eol = r.pick(&["\n", "\r\n"]);
    let text = format!("#{}{}{}", line, eol, t);
    run!("line_comment", &text, &t, whitespace::hash_comment, &line, |s: &CompleteStr| Ok(s.0.to_string()));
    run!("line_comment", &text, &t, whitespace::line_comment, &line, |s: &CompleteStr| Ok(s.0.to_string()));
    let text = format!("//{}{}{}", line, eol, t);
    run!("line_comment", &text, &t, whitespace::slash_comment, &line, |s: &CompleteStr| Ok(s.0.to_string()));
    run!("line_comment", &text, &t, whitespace::line_comment, &line, |s: &CompleteStr| Ok(s.0.to_string()));
    // Sequences
    let mut nl = String::new();
    for _ in 0..r.range(1, 4) {
        match r.below(5) {
            0 => nl.push_str(&format!("#{}{}", line, eol)),
            1 => nl.push_str(&format!("//{}{}", line, eol)),
            2 => nl.push_str(&format!("/*{}*/{}", inline, eol)),
            _ => nl.push_str(eol),
        }
    }
    let t = format!("{}{}", r.pick(&["a", "}", " ", "\t", "=", "1", "/", "\"", "é", "*", " \n"]), r.pick(&["", "x = 1\n", "}", "\n"]));
    if t.starts_with("//") {
        return;
    }
    let text = format!("{}{}", nl, t);
    run!("newline", &text, &t, whitespace::newline, &(), |_: &Vec<CompleteStr>| Ok(()));
    let mut ws = String::new();
    for _ in 0..r.below(5) {
        match r.below(6) {
            0 => ws.push_str(&format!("/*{}*/", inline)),
            1 => ws.push_str(&nl),
            _ => ws.push_str(r.pick(&[" ", "\t", "  ", "\n", "\r\n"])),
        }
    }
    let text = format!("{}{}", ws, t);
    run!("whitespace", &text, skip_all(&t), whitespace::whitespace, &(), |_: &Vec<CompleteStr>| Ok(()));
    let mut ws = String::new();
    for _ in 0..r.below(5) {
        match r.below(4) {
            0 => ws.push_str(&format!("/*{}*/", inline)),
            _ => ws.push_str(r.pick(&[" ", "\t", "  "])),
        }
    }
    let text = format!("{}{}", ws, t);
    run!("inline_whitespace", &text, skip_inline(&t), whitespace::inline_whitespace, &(), |_: &Vec<CompleteStr>| Ok(()));
}

/// Constructs of a great many parts
fn vast(r: &mut Rng, rec: &mut Rec) {
    rec.count("vast");
    macro_rules! run {
        ($name: expr, $text: expr, $rest: expr, $f: expr, $want: expr, $conv: expr) => {{
            let text = format!("{}{}", $text, $rest);
            let c = Case {
                name: $name,
                text: &text,
                rest: $rest,
            };
            judge(rec, &c, guard(|| $f(CompleteStr(&text))), $want, $conv)
        }};
    }
    let n = r.range(257, 5000);
    // Of which one is odd
    let odd = r.below(n);
    let pieces = |usual: &str, other: &str| (0..n).map(|i| if i == odd { other } else { usual }).collect::<String>();
    let eol = r.pick(&["\n", "\r\n"]);
    let nl = pieces(eol, r.pick(&["# c\n", "// c\r\n", "/* c */\n", "\r\n", "\n"]));
    run!("newline", nl, "a", whitespace::newline, &(), |_: &Vec<CompleteStr>| Ok(()));
    let nl = pieces(r.pick(&["# c\n", "// c\n", "/* c */\n"]), eol);
    run!("newline", nl, "}", whitespace::newline, &(), |_: &Vec<CompleteStr>| Ok(()));
    let ws = pieces(r.pick(&[" ", "/**/", "\t", "# c\n", "\n", " //\r\n"]), r.pick(&["/* c */", "\n", "\r\n"]));
    run!("whitespace", ws, "=", whitespace::whitespace, &(), |_: &Vec<CompleteStr>| Ok(()));
    let ws = pieces(r.pick(&[" ", "/**/", "\t", "/* # */ "]), r.pick(&["/* \n */", " \t"]));
    run!("inline_whitespace", ws, "\n", whitespace::inline_whitespace, &(), |_: &Vec<CompleteStr>| Ok(()));
    let c = pieces(r.pick(&["x", "*", "é", "\n", "/"]), " ") + " ";
    run!("inline_comment", format!("/*{}*/", c), "*/", whitespace::inline_comment, &c, |s: &CompleteStr| Ok(s.0.to_string()));
    let c = pieces(r.pick(&["x", "#", "é", "\r", "/"]), " ") + " ";
    run!("line_comment", format!("#{}{}", c, eol), "\n", whitespace::hash_comment, &c, |s: &CompleteStr| Ok(s.0.to_string()));
    run!("line_comment", format!("//{}{}", c, eol), "\n", whitespace::slash_comment, &c, |s: &CompleteStr| Ok(s.0.to_string()));
    let x = pieces(r.pick(&["x", "é", "藏"]), r.pick(&["-", "1", "_", "é"]));
    let x = format!("i{}", x);
    run!("identifier", x, " = 1", identifier::identifier, &x, |i: &identifier::Identifier| Ok(i.to_string()));
    let x = format!("1{}", pieces(r.pick(&["0", "9", "7"]), "3"));
    let want = E::Num(x.clone());
    run!("number", x, "\n", expression::expression, &want, from_expr);
    let (usual, decoded) = *r.pick(&[&("x", "x"), &("\\n", "\n"), &("\\u00e9", "é"), &("\\\"", "\""), &("藏", "藏"), &("\\101", "A")]);
    let (other, odd_decoded) = *r.pick(&[&("\\\\", "\\"), &("😀", "😀"), &("\\t", "\t"), &("}", "}")]);
    let text = format!("\"{}\"", pieces(usual, other));
    let want = pieces(decoded, odd_decoded);
    run!("string", text, "\"", string::string, &want, |s: &std::borrow::Cow<str>| Ok(s.to_string()));
    run!("string_literal", text, "]", string::string_literal, &want, |s: &string::StringLiteral| Ok(s.to_string()));
    // Lines
    let lines: Vec<&str> = (0..n).map(|i| if i == odd { "" } else { "line" }).collect();
    let want = lines.join("\n");
    let text = format!("<<EOF\n{}\nEOF", want);
    if !lines.last().map_or(true, |l| l.is_empty()) {
        run!("heredoc", text, "\n", string::heredoc_string, &want, |s: &std::borrow::Cow<str>| Ok(s.to_string()));
    }
    // Parts, and what is between them
    let n = n.min(3000);
    let odd = odd.min(n - 1);
    let num = |i: usize| if i == odd { E::Str("odd".to_string()) } else { E::Num(i.to_string()) };
    let show = |i: usize| if i == odd { "\"odd\"".to_string() } else { i.to_string() };
    let sep = r.pick(&[",", ", ", " ,\n", ",# c\n"]);
    let close = r.pick(&["]", ",]", "\n]"]);
    let text = format!("[{}{}", (0..n).map(show).collect::<Vec<_>>().join(sep), close);
    run!("tuple", text, "]", expression::expression, &E::Tuple((0..n).map(num).collect()), from_expr);
    let sep = r.pick(&[",", ",\n", "\n", "\n# c\n\n", ", "]);
    let text = format!("{{{}}}", (0..n).map(|i| format!("k{} = {}", i % 1000, show(i))).collect::<Vec<_>>().join(sep));
    let want = E::Obj((0..n).map(|i| (K::Ident(format!("k{}", i % 1000)), num(i))).collect());
    run!("object", text, "}", expression::expression, &want, from_expr);
    let labels: Vec<L> = (0..n)
        .map(|i| L {
            quoted: i != odd,
            text: format!("l{}", i),
        })
        .collect();
    let text: String = (0..n).map(|i| if i == odd { format!(" l{} ", i) } else { format!("\"l{}\"", i) }).collect();
    run!("block_labels", text.trim_start(), "{", block::block_labels, &labels, |v: &Vec<_>| Ok(v.iter().map(from_label).collect::<Vec<_>>()));
    let want: Doc = (0..n)
        .map(|i| {
            if i % 7 == 3 {
                El::Block(Bl {
                    ty: "b".to_string(),
                    labels: vec![],
                    body: vec![El::Attr("a".to_string(), num(i))],
                })
            } else {
                El::Attr(format!("a{}", i % 1000), num(i))
            }
        })
        .collect();
    let mut text = String::new();
    for i in 0..n {
        if i % 7 == 3 {
            text.push_str(&format!("b {{ a = {} }}", show(i)));
        } else {
            text.push_str(&format!("a{} = {}", i % 1000, show(i)));
        }
        text.push_str(eol);
    }
    run!("body", text, "}", body::body, &want, from_body);
    run!("block", format!("t {{{}{}}}", eol, text), "}", block::block, &Bl { ty: "t".to_string(), labels: vec![], body: want.clone() }, from_block);
}

/// Texts that do not begin with the construct
fn refusals(r: &mut Rng, rec: &mut Rec) {
    let bad = r.pick(&["", "=", "@", "}", "]", ")", ",", "*", "$", "😀", "\u{301}", "\0", ":", "^a", "|", "&", "?", "'", "\u{2028}", "%{", "!", "~", ";", "`"]);
    let text = format!("{}{}", bad, if bad.is_empty() { String::new() } else { tail(r, TAILS) });
    rec.input(&text);
    rec.eval();
    let s = CompleteStr(&text);
    macro_rules! no {
        ($($m: ident :: $f: ident),*) => { $(
            match guard(|| $m::$f(s).map(|(r, _)| r.0.len())) {
                Err(p) => rec.fail("panic", format!("{}: {}", stringify!($f), p)),
                Ok(Ok(n)) => rec.fail("accepted", format!("{}: accepts, leaving {} bytes", stringify!($f), n)),
                Ok(Err(e)) => {
                    rec.count("refused");
                    rec.check(ordinary(&e), "refusal-class", || format!("{}: {:?}", stringify!($f), e));
                }
            }
        )* }
    }
    no!(
        expression::expression,
        expression::bracket_expression,
        tuple::tuple,
        object::object,
        object::object_element,
        object::object_element_identifier,
        attribute::attribute,
        block::block,
        block::one_line_block,
        block::block_label,
        body::body_element,
        identifier::identifier,
        number::number,
        boolean::boolean,
        null::null,
        string::string,
        string::string_literal,
        string::heredoc_string,
        whitespace::inline_comment,
        whitespace::hash_comment,
        whitespace::slash_comment,
        whitespace::line_comment,
        whitespace::newline
    );
    // What begins like the construct and is none
    macro_rules! almost {
        ($texts: expr => $($m: ident :: $f: ident),*) => {{
            let text = r.pick($texts);
            rec.input(text);
            rec.eval();
            rec.count("almost");
            let s = CompleteStr(text);
            $(
                match guard(|| $m::$f(s).map(|(r, _)| r.0.len())) {
                    Err(p) => rec.fail("panic", format!("{}: {}", stringify!($f), p)),
                    Ok(Ok(n)) => rec.fail("accepted", format!("{}: accepts {:?}, leaving {} bytes", stringify!($f), text, n)),
                    Ok(Err(e)) => {
                        rec.check(ordinary(&e), "refusal-class", || format!("{}: {:?}: {:?}", stringify!($f), text, e));
                    }
                }
            )*
        }}
    }
    almost!(&["<<EOT \nx\nEOT\n", "<<EOT\t\nx\nEOT\n", "<<EOT\nx\nEOT", "<<EOT\nEOT", "<<EOT x\nEOT\n", "<<-\nx\n-\n", "<<\nx\n\n", "<< EOT\nx\nEOT\n", "<<- EOT\nx\nEOT\n", "<<EOT\nx\nEOT \n", "<<EOT\nx\nEOT;\n",
        "<<EOT\nx\nEOTT\n", "<<EOT\nx\nyEOT\n", "<<EOT\nx\neot\n", "<<EOT#\nx\nEOT#\n", "<<\"EOT\"\nx\nEOT\n", "<<'EOT'\nx\nEOT\n", "<EOT\nx\nEOT\n", "<<--EOT\nx\nEOT\n", "<<EO-T\nx\nEO-T\n", "<<EOT,\nx\nEOT\n", "<<~EOT\nx\nEOT\n", "<<<EOT\nx\nEOT\n", "<<EOT", "<<", "<<EOT\n", "<<EOT\nEO\nT\n"]
        => string::heredoc_string, string::string, expression::expression, object::object_element_identifier);
    almost!(&["\"x", "\"", "\"x\\\"", "'x'", "“x”", "\"x'", "\"x\\\"y\n", "`x`", "\\\"x\""] => string::string_literal, string::string, expression::expression, block::block_label);
    almost!(&["\"x\ny\"", "\"\n\"", "\"x\r\n\"", "\"\r\""] => string::string_literal, block::block_label);
    almost!(&["[1", "[1 2]", "[,]", "[1,,2]", "[,1]", "[=]", "[1;2]", "[1}", "[1)", "[a]", "[1, a]", "[\"x\" \"y\"]", "[[1]", "[", "[1,", "[{a = 1]", "[1 /* ]", "[1 # ]"] => tuple::tuple, expression::expression);
    almost!(&["{a = 1", "{a 1}", "{a : 1}", "{a = 1 b = 2}", "{,}", "{a}", "{= 1}", "{a = }", "{a = 1]", "{a = b}", "{", "{a = 1,,}", "{a = 1,, b = 2}", "{a == 1}", "{a = 1; b = 2}", "{a = {b = 1}", "{a = 1 /* }", "{a = 1 # }"] => object::object, expression::expression);
    almost!(&["(1", "()", "(1]", "(a)", "( )", "(1,2)", "(", "((1)", "(1 2)", "(= 1)"] => expression::bracket_expression, expression::expression);
    almost!(&["a 1", "a", "a =", "a = ", "a == 1", "a := 1", "a = b", "a.b = 1", "\"a\" = 1", "1 = 1", "a : 1", "a b = 1", "a += 1", "-a = 1", "a = =1", "a = /* 1", "a = # 1"] => attribute::attribute, body::body_element);
    almost!(&["a", "a {", "a {}", "a 1 {\n}", "a {\nb = 1", "a {\nb = 1}", "a {\nb = 1 c = 2\n}", "a [x] {\n}", "a = {\n}", "a \"x\ny\" {\n}", "{\n}", "\"a\" {\n}", "a {\n]", "a (\n)", "a, b {\n}", "a {\nb {\n}", "a {\nb {}}", "a {\n1\n}", "a {\nb = c\n}", "a {\n)"] => block::block);
    almost!(&["a {b = 1 c = 2}", "a {b {}}", "a {", "a {b = 1\n}", "a {b}", "a {b = 1,}", "a {b = 1, c = 2}", "a {1}", "a 1 {}", "a = {}", "\"a\" {}", "{}", "a {]", "a [x] {}", "a {b = }", "a {= 1}", "a {b = c}", "a {b 1}", "a {;}"] => block::one_line_block);
    almost!(&["-a", "1a", "\"a\"", "'a'", "\u{b7}a", "\u{301}a", "\u{200d}a", "٣a", "$a", "@a", ".a", "①", "\u{203f}a", "\u{2060}a", "\u{feff}a", "\u{a0}a", "😀"] => identifier::identifier, attribute::attribute, block::one_line_block);
    almost!(&["-", "e5", "-a", "- 1", "--1", "x1", "_1", "-e5", "−1", "١", "１", "½", "²", "Infinity", "NaN", "inf", ".", "-\n1", "#1", "$1"] => number::number);
    almost!(&["tru", "TRUE", "True", "yes", "no", "t", "fals", "FALSE", "False", "on", "off", "t rue", "1", "0", "\"true\"", "ｔrue", "nul"] => boolean::boolean);
    almost!(&["nul", "NULL", "Null", "nil", "none", "n ull", "\"null\"", "0", "undefined", "ｎull", "nu"] => null::null);
    almost!(&["/*", "/* x", "/* x *", "/*/", "/ * x */", "//x", "# x", "/* x * /", "/* /* ", "*/", "* x */", "/**", "/* x //", "/"] => whitespace::inline_comment);
    almost!(&["/x\n", "/*x*/\n", "/ /x\n", "\\\\x\n", "--x\n", ";x\n", "%x\n", "!x\n", "'x\n", "/", "<!-- x -->\n"] => whitespace::slash_comment, whitespace::hash_comment, whitespace::line_comment);
    almost!(&["//x\n", "/x\n", "＃x\n", "$x\n"] => whitespace::hash_comment);
    almost!(&["#x\n", "/x\n", "／／x\n", "/#x\n"] => whitespace::slash_comment);
    // One kind where another is expected
    let s = CompleteStr(r.pick(&["1", "\"x\"", "[1]", "{a = 1}", "(1)", "null", "-1"]));
    rec.input(s.0);
    no!(attribute::attribute, block::block, block::one_line_block, body::body_element, whitespace::newline, whitespace::line_comment);
}
