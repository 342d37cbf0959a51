//! C02, C03, C09, C10, C16: what a document means, however it is spelled, read and owned
use crate::anyv::A;
use crate::frame::{Env, Prop, Rec};
use crate::gen::{self, Dialect, GenCfg, Style};
use crate::model::*;
use crate::rng::Rng;
use ferrous_chloride::parser::Expression;
use ferrous_chloride::value;
use ferrous_chloride::value::{MapValues, Value};
use ferrous_chloride::{AsOwned, KeyValuePairs, MergeBehaviour};
use serde::Deserialize;
use std::io::Read;

fn note(rec: &mut Rec, d: &Doc, feats: u32) {
    for (bit, name) in &[
        (gen::F_HEREDOC, "heredocs"),
        (gen::F_ESCAPE, "escapes"),
        (gen::F_PAREN, "parentheses"),
        (gen::F_COMMENT, "comments"),
        (gen::F_ONELINE, "one_line_blocks"),
        (gen::F_CRLF, "crlf"),
        (gen::F_TRAILCOMMA, "trailing_commas"),
        (gen::F_RETURN, "returns_in_comments"),
    ] {
        if feats & bit != 0 {
            rec.count(&format!("docs_with_{}", name));
        }
    }
    rec.max("depth", depth(d) as u64);
    rec.max("elements", count_elems(d) as u64);
}

/// Parse and compare with what the document means
pub fn expect_doc(rec: &mut Rec, text: &str, d: &Doc, sig: &str) -> bool {
    rec.input(text);
    rec.eval();
    match ferrous_chloride::parse_str(text) {
        Err(e) => {
            rec.fail(sig, format!("well formed document rejected: {}", e));
            false
        }
        Ok(b) => match from_body(&b) {
            Err(e) => {
                rec.fail(sig, e);
                false
            }
            Ok(m) => rec.check(m == *d, sig, || diff(d, &m)),
        },
    }
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: "A random document model (attributes, one-line and multi-line blocks, labels, every kind of expression, wide and deep shapes) is written out as HCL in a random layout, parsed, and the parsed tree compared with the model element by element, in order; two documents are also written one after the other. Non-trivial: a document with at least 2 elements; distinct by text.",
    cases: (100_000, 3_000_000),
    threads: 8,
    run: run_c02,
    need: &["elements_compared", "concatenations", "docs_with_heredocs", "docs_with_one_line_blocks", "large", "very_large"],
    exhaustive: false,
};

fn run_c02(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let mut d = gen::doc(r, &GenCfg::FULL);
    let mut st = if r.one_in(6) { Style::CANON } else { Style::WILD };
    if let Some(l) = gen::large_case(i, 100) {
        rec.count("large");
        d = l;
    } else if i < 2 * gen::LARGE_KINDS as u64 && i % 2 == 0 {
        // Beyond what 16 bits count
        rec.count("very_large");
        // (blocks take time that grows with the square of their number)
        d = gen::large(i as usize / 2, if i == 2 || i == 36 { 17_000 } else { 66_000 });
        st = Style::CANON;
    }
    let (text, feats) = gen::render(r, &d, st);
    note(rec, &d, feats);
    if i < 2 * gen::LARGE_KINDS as u64 {
        expect_doc(rec, &text, &d, "structure");
        return;
    }
    if count_elems(&d) >= 2 {
        rec.nontrivial(text.as_bytes());
    }
    if i < 80 {
        rec.sample(&text);
    }
    if !expect_doc(rec, &text, &d, "structure") {
        return;
    }
    rec.add("elements_compared", count_elems(&d) as u64);
    // One document after another is both
    if r.one_in(3) {
        let d2 = gen::doc(r, &GenCfg::FULL);
        let (t2, _) = gen::render(r, &d2, Style::WILD);
        let both = format!("{}\n{}", text, t2);
        let mut dd = d.clone();
        dd.extend(d2);
        expect_doc(rec, &both, &dd, "concatenation");
        rec.count("concatenations");
    }
    // The body of a block is a document of its own
    if r.one_in(4) {
        let (t, _) = gen::render(r, &d, Style::WILD);
        let l = gen::labels(r, &GenCfg::FULL);
        let w = vec![El::Block(Bl {
            ty: "wrap".into(),
            labels: l.clone(),
            body: d.clone(),
        })];
        let mut head = String::from("wrap");
        for x in &l {
            head.push(' ');
            if x.quoted {
                head.push_str(&gen::quote(r, &x.text, false, false));
            } else {
                head.push_str(&x.text);
            }
        }
        expect_doc(rec, &format!("{} {{\n{}\n}}\n", head, t), &w, "wrapped");
        rec.count("wrapped");
    }
}

pub static C03: Prop = Prop {
    id: "C03",
    rule: "One document model is written in 4 independently chosen layouts (blank lines, spaces, tabs, CRLF, comments of the three kinds, parentheses, trailing commas, commas or newlines between object entries, one-line or multi-line blocks) and all of them have to parse to the same tree; likewise the common subset through the legacy interface. A document of one-token-per-place also gets a comment or whitespace inserted at each separate place in turn, and things that only look like layout, which the recognizer of C04 judges; and one piece of layout of up to 256 KiB. Non-trivial: texts that differ from each other and hold at least 2 elements; distinct by text.",
    cases: (240_000, 3_000_000),
    threads: 8,
    run: run_c03,
    need: &["layouts_compared", "legacy_layouts_compared", "places_varied", "docs_with_comments", "docs_with_parentheses", "docs_with_crlf", "docs_with_returns_in_comments", "docs_with_trailing_commas", "not_layout", "long_layout"],
    exhaustive: false,
};

/// Places of a fixed document where a layout element may be inserted: `~` inline whitespace or
/// inline comments, `^` any whitespace and comments, `@` something which makes up a newline
const PLACES: &[(&str, bool)] = &[
    ("^a~=~1~@^b~=~[^1^,^\"x\"^,^null^]~@^", true),
    ("^a~=~{^k~=~1~,^l~=~[^]~@^m~=~\"s\"~@^}~@^b~=~true~@^", true),
    ("^t~\"l1\"~\"l2\"~{~@^a~=~-1.5e3~@^n~{~@^b~=~false~@^}~@^}~@^c~=~0~@^", true),
    ("^t~l1~\"l2\"~{~a~=~1~}~@^u~{~}~@^a~=~(^1^)~@^b~=~(^[^(^2^)^]^)~@^", false),
    ("^a~=~{^\"q\"~=~1~,^(^\"p\"^)~=~2~}~@^b~=~[^{^k~=~1^}^,^{^}^,^]~@^", false),
    ("^a~=~[^<<E\nx\n y\nE\n^,^<<-E\n  x\n  E\n^]~@^b~=~1~@^", true),
];

fn run_c03(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    if i < (PLACES.len() * 4) as u64 {
        return places(r, rec, i as usize);
    }
    if i % 64 == 5 {
        return long_places(r, rec, i / 64);
    }
    let legacy = i % 3 == 0;
    let cfg = if legacy { GenCfg::COMMON } else { GenCfg::FULL };
    let mut budget = r.size(80) + 3;
    let d = if r.one_in(30) { gen::doc(r, &cfg) } else { gen::body(r, &cfg, 0, &mut budget) };
    let base = {
        let mut st = Style::CANON;
        if legacy {
            st.dialect = Dialect::Common;
        }
        gen::render(r, &d, st).0
    };
    let mut texts = vec![base.clone()];
    for _ in 0..3 {
        let mut st = Style::WILD;
        if legacy {
            st.dialect = Dialect::Common;
            st.parens = false;
        }
        let (t, feats) = gen::render(r, &d, st);
        note(rec, &d, feats);
        texts.push(t);
    }
    // Lines around the document
    let frame = r.pick(&["\n\n", "# c\n", "// c\r\n", "/* c */\n", " \t\n", "/* a */ /* b\n */\r\n\n  # x\n"]);
    texts.push(format!("{}{}\n{}", frame, base, frame));
    let plain_keys = !format!("{:?}", d).contains("Expr(");
    let mut first: Option<(Doc, String)> = None;
    let mut first_legacy: Option<M> = None;
    for t in &texts {
        rec.input(t);
        rec.eval();
        if count_elems(&d) >= 2 && *t != base {
            rec.nontrivial(t.as_bytes());
        }
        let b = match ferrous_chloride::parse_str(t) {
            Err(e) => {
                rec.fail("layout", format!("this layout of a document is rejected: {}\nother layout:\n{}", e, base));
                return;
            }
            Ok(b) => b,
        };
        let m = match from_body(&b) {
            Err(e) => return rec.fail("layout", e),
            Ok(m) => m,
        };
        let dbg = if plain_keys { format!("{:?}", b) } else { String::new() };
        match &first {
            None => first = Some((m, dbg)),
            Some((m0, dbg0)) => {
                let ok = rec.check(*m0 == m, "layout", || format!("layouts disagree: {}\nother layout:\n{}", diff(m0, &m), base));
                if ok && plain_keys && !t.contains("<<") {
                    rec.check(*dbg0 == dbg, "layout", || format!("layouts disagree: {}\nother layout:\n{}", diff_text(dbg0, &dbg), base));
                }
                rec.count("layouts_compared");
            }
        }
        if legacy {
            match value::from_str(t, None) {
                Err(e) => {
                    rec.fail("layout-legacy", format!("this layout of a document is rejected: {}\nother layout:\n{}", e, base));
                    return;
                }
                Ok(v) => {
                    let m = m_from(&v);
                    match &first_legacy {
                        None => first_legacy = Some(m),
                        Some(m0) => {
                            rec.check(*m0 == m, "layout-legacy", || {
                                format!("{}\nother layout:\n{}", diff_text(&format!("{:?}", m0), &format!("{:?}", m)), base)
                            });
                            rec.count("legacy_layouts_compared");
                        }
                    }
                }
            }
        }
    }
    if i < 100 {
        rec.sample(&texts[1]);
    }
}

/// A piece of layout of `n` bytes and a bit
fn long_layout(r: &mut Rng, kind: usize, n: usize) -> String {
    match kind {
        0 => format!("/*{}*/", "x".repeat(n)),
        1 => format!("/*{}*/", "é \n* /".repeat(n / 7 + 1)),
        2 => r.pick(&[" ", "\t", " \t"]).repeat(n),
        3 => "/* c */ ".repeat(n / 8 + 1),
        4 => format!("# {}\n", "x".repeat(n)),
        5 => format!("// {}\r\n", "藏 = ".repeat(n / 6 + 1)),
        6 => r.pick(&["\n", "\r\n", " \n"]).repeat(n / 2 + 1),
        _ => r.pick(&["#\n", "// c\n", "# c\r\n\n"]).repeat(n / 5 + 1),
    }
}

/// Layout of any length, at any place
fn long_places(r: &mut Rng, rec: &mut Rec, i: u64) {
    let (tpl, _) = PLACES[r.below(PLACES.len())];
    let kind = (i % 8) as usize;
    let n = {
        let top = if r.one_in(12) { 1 << 18 } else { 1 << r.range(7, 16) };
        let near: isize = r.range(0, 6) as isize - 3;
        (top as isize + near) as usize
    };
    let usable = |c: char| if kind < 4 { "~^" } else { "@^" }.contains(c);
    let k = r.below(tpl.chars().filter(|c| usable(*c)).count());
    let mut seen = 0;
    let (mut plain, mut t) = (String::new(), String::new());
    let piece = long_layout(r, kind, n);
    for c in tpl.chars() {
        let least = match c {
            '@' => "\n",
            '~' | '^' => "",
            c => {
                plain.push(c);
                t.push(c);
                continue;
            }
        };
        plain.push_str(least);
        if usable(c) {
            t.push_str(if seen == k { &piece } else { least });
            seen += 1;
        } else {
            t.push_str(least);
        }
    }
    let fix = |s: String| s.replacen("tl1", "t l1", 1);
    let (plain, t) = (fix(plain), fix(t));
    rec.input(&t);
    rec.eval();
    rec.nontrivial(t.as_bytes());
    let body = |s: &str| ferrous_chloride::parse_str(s).map_err(|e| e.to_string().chars().take(300).collect::<String>()).and_then(|b| from_body(&b));
    match (body(&plain), body(&t)) {
        (Ok(want), Ok(m)) => {
            rec.check(m == want, "layout", || format!("{} bytes of layout (kind {}) change the meaning of {:?}: {}", piece.len(), kind, plain, diff(&want, &m)));
        }
        (Ok(_), Err(e)) => rec.fail("layout", format!("rejected with {} bytes of layout (kind {}) in {:?}: {}", piece.len(), kind, plain, e)),
        (Err(e), _) => rec.fail("layout", format!("plain document {:?} rejected: {}", plain, e)),
    }
    let old = |s: &str| value::from_str(s, None).map(|v| m_from(&v)).map_err(|e| e.to_string().chars().take(300).collect::<String>());
    if let Ok(want) = old(&plain) {
        match old(&t) {
            Ok(m) => {
                rec.check(m == want, "layout-legacy", || format!("{} bytes of layout (kind {}) change the meaning of {:?}", piece.len(), kind, plain));
            }
            // Only where the interface takes some layout of this kind
            Err(e) => {
                let mut short = plain.clone();
                if t.len() > piece.len() {
                    let at = t.find(&piece).unwrap_or(0);
                    let small = long_layout(r, kind, 3);
                    short = format!("{}{}{}", &t[..at], small, &t[at + piece.len()..]);
                }
                if old(&short).is_ok() {
                    rec.fail("layout-legacy", format!("rejected with {} bytes of layout (kind {}), accepted with few, in {:?}: {}", piece.len(), kind, plain, e));
                }
            }
        }
    }
    rec.count("long_layout");
}

fn places(r: &mut Rng, rec: &mut Rec, i: usize) {
    let (tpl, both) = PLACES[i / 4];
    let plain: String = tpl
        .chars()
        .filter_map(|c| match c {
            '~' | '^' => None,
            '@' => Some('\n'),
            c => Some(c),
        })
        .collect();
    // Identifiers need something in between
    let plain = plain.replace("tl1", "t l1");
    let want = match ferrous_chloride::parse_str(&plain).map_err(|e| e.to_string()).and_then(|b| from_body(&b)) {
        Ok(m) => m,
        Err(e) => {
            rec.input(&plain);
            rec.eval();
            return rec.fail("layout", format!("plain document rejected: {}", e));
        }
    };
    let want_legacy = if both { value::from_str(&plain, None).ok().map(|v| m_from(&v)) } else { None };
    const INLINE: &[&str] = &[" ", "\t", "   ", "/**/", "/* c */", " /* a */ /* b */ ", "/* two\nlines */", "/*/*/", "/* # // \" { */", "/***/", "/* é藏😀 */"];
    const LINE: &[&str] = &["\n", "\r\n", "\n\n\n", " # c\n", "# c\r\n", "// c\n", "#\n", "//\n", "\n/* c */\n", "# \"{[(\n", "# /* \n", "// */\n", "/* c */\n", "\n \t \n", "# é藏😀\n", "//#\n", "#//\n"];
    let n = tpl.chars().filter(|c| "~^@".contains(*c)).count();
    for k in 0..n {
        let kind = tpl.chars().filter(|c| "~^@".contains(*c)).nth(k).unwrap();
        let mut options: Vec<&str> = vec![];
        if kind != '@' {
            options.extend(INLINE);
        }
        if kind != '~' {
            options.extend(LINE);
        }
        for o in &options {
            // 0: vary one place alone; 1..: vary the others at random too
            let mut t = String::new();
            let mut seen = 0;
            for c in tpl.chars() {
                if !"~^@".contains(c) {
                    t.push(c);
                    continue;
                }
                if seen == k {
                    t.push_str(o);
                } else if i % 4 == 0 || r.one_in(2) {
                    t.push_str(if c == '@' { "\n" } else { "" });
                } else {
                    t.push_str(match c {
                        '~' => r.pick(INLINE),
                        '@' => r.pick(LINE),
                        _ => if r.one_in(2) { r.pick(INLINE) } else { r.pick(LINE) },
                    });
                }
                seen += 1;
            }
            let t = t.replace("tl1", "t l1");
            rec.input(&t);
            rec.eval();
            rec.nontrivial(t.as_bytes());
            rec.count("places_varied");
            match ferrous_chloride::parse_str(&t) {
                Err(e) => rec.fail("layout", format!("rejected with {:?} at place {}: {}", o, k, e)),
                Ok(b) => match from_body(&b) {
                    Err(e) => rec.fail("layout", e),
                    Ok(m) => {
                        rec.check(m == want, "layout", || format!("{:?} at place {} changes the meaning: {}", o, k, diff(&want, &m)));
                    }
                },
            }
            if i % 4 != 0 && r.one_in(3) {
                // What only looks like layout counts
                let bad = r.pick(&["*/", "/", "/* a */*/", "/*/", "/* a * /", "\u{a0}", "\u{b}", "\u{c}", "\u{feff}", "\u{2028}", "\\\n", ";", "-- x\n", "\u{3000}", "/ /\n", "/* a */ */"]);
                let t2 = t.replacen(o, bad, 1);
                super::grammar::both(rec, &t2);
                rec.count("not_layout");
            }
            if let Some(w) = &want_legacy {
                match value::from_str(&t, None) {
                    Err(e) => rec.fail("layout-legacy", format!("rejected with {:?} at place {}: {}", o, k, e)),
                    Ok(v) => {
                        rec.check(m_from(&v) == *w, "layout-legacy", || format!("{:?} at place {} changes the meaning", o, k));
                    }
                }
                rec.count("legacy_layouts_compared");
            }
        }
    }
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "One input through every entry point: string, byte slice and reader (delivered in random pieces, with interruptions), both interfaces, merging or not; expressions alone or as an attribute; decoding from the text, from the deserializer of the text, from a parsed body, and from a parsed expression. All have to agree on acceptance and result; a reader that fails after any number of bytes, and bytes that are not UTF-8, have to be errors. Inputs are generated documents and mutations of them. Non-trivial: an input of at least 8 bytes; distinct by content.",
    cases: (100_000, 2_500_000),
    threads: 8,
    run: run_c09,
    need: &["accepted", "rejected", "reads", "interrupts", "io_errors", "invalid_utf8", "large_inputs", "edge_sizes", "expressions", "decodings", "marks"],
    exhaustive: false,
};

/// Delivers the bytes in pieces; may be interrupted; may fail for good
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub at: usize,
    pub r: Rng,
    pub fail_at: Option<usize>,
    /// The longest piece
    pub piece: usize,
    pub reads: u64,
    pub interrupts: u64,
}

impl<'a> Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.r.one_in(4) {
            self.interrupts += 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let end = self.fail_at.unwrap_or_else(|| self.data.len());
        if self.at >= end {
            if self.fail_at.is_some() {
                // Once only, now and then: then there is more
                if self.r.one_in(3) {
                    self.fail_at = None;
                }
                return Err(failure(&mut self.r));
            }
            return Ok(0);
        }
        let most = self.piece;
        let n = self.r.range(1, most).min(end - self.at).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A failure of any kind but `Interrupted`
fn failure(r: &mut Rng) -> std::io::Error {
    use std::io::ErrorKind as K;
    let kinds = [
        K::Other,
        K::WouldBlock,
        K::TimedOut,
        K::UnexpectedEof,
        K::BrokenPipe,
        K::ConnectionReset,
        K::ConnectionAborted,
        K::NotConnected,
        K::InvalidData,
        K::InvalidInput,
        K::NotFound,
        K::PermissionDenied,
        K::WriteZero,
        K::AlreadyExists,
        K::AddrInUse,
        K::OutOfMemory,
    ];
    let kind = r.pickc(&kinds);
    match r.below(3) {
        0 => kind.into(),
        1 => std::io::Error::new(kind, "injected failure"),
        _ => std::io::Error::from_raw_os_error(r.pickc(&[libc::EIO, libc::EAGAIN, libc::ETIMEDOUT, libc::EPIPE, libc::ECONNRESET, libc::EISDIR, libc::ENOSPC])),
    }
}

fn chunks<'a>(r: &mut Rng, data: &'a [u8], fail_at: Option<usize>) -> Chunks<'a> {
    Chunks {
        data,
        at: 0,
        r: Rng::new(r.next(), "chunks", 0),
        fail_at,
        piece: if data.len() > 20_000 {
            r.pickc(&[900, 5000, 70_000, 1 << 22])
        } else {
            r.pickc(&[1, 7, 7, 60, 5000])
        },
        reads: 0,
        interrupts: 0,
    }
}

fn same<T: PartialEq + std::fmt::Debug>(rec: &mut Rec, sig: &str, a: &Result<T, String>, b: &Result<T, String>) {
    let ok = match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    rec.check(ok, sig, || {
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        diff_text(&x, &y)
    });
}

fn legacy_of(r: Result<value::Body, ferrous_chloride::Error>) -> Result<M, String> {
    r.map(|v| m_from(&v)).map_err(|e| e.to_string())
}

fn run_c09(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let common = r.one_in(3);
    let cfg = if common { GenCfg::COMMON } else { GenCfg::FULL };
    let mut budget = r.size(60) + 2;
    let mut d = if r.one_in(30) { gen::doc(r, &cfg) } else { gen::body(r, &cfg, 0, &mut budget) };
    let mut st = Style::WILD;
    if let Some(l) = gen::large_case(i, 100) {
        rec.count("edge_sizes");
        d = l;
    }
    if common {
        st.dialect = Dialect::Common;
        st.parens = false;
    }
    let (mut text, _) = gen::render(r, &d, st);
    if r.one_in(4) {
        text = super::total::mutate(r, &text);
    }
    if i % 400 == 11 {
        // Larger than the buffers anybody might read into, with wide characters at every offset
        let n = (1usize << if i % 8000 == 11 { r.range(17, 22) } else { r.range(10, 17) }) + r.below(9) - 4;
        let (open, close) = r.pickc(&[("/*", "*/\n"), ("# ", "\n"), ("pad = \"", "\"\n"), ("pad = <<P\n", "\nP\n"), ("pad {\n", "\n}\n")]);
        let mut fill = String::new();
        let unit = if close == "\n}\n" { "x = \"é€\"\n" } else { r.pickc(&["x", "é", "€x", "\u{1d11e}", "xyé"]) };
        // (many elements take time that grows with the square of the length)
        let n = if close == "\n}\n" { n.min(1 << 15) } else { n };
        while fill.len() < n {
            fill.push_str(unit);
        }
        if r.one_in(2) && open != "pad {\n" {
            fill.push('x');
        }
        text = if r.one_in(2) { format!("{}{}{}{}", open, fill, close, text) } else { format!("{}\n{}{}{}", text, open, fill, close) };
        rec.count("large_inputs");
    }
    if r.one_in(8) {
        // What some reader might take off, at the start, at the end or at the end of a line
        const MARKS: &[&str] = &[
            "\u{1a}", "\u{4}", "\0", "\u{feff}", "\u{fffe}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{200b}", "\u{a0}", "\u{7f}", "\u{1b}[0m", "\r", "\r\r\n", "\n\r", "\n\0", "#!x\n", "\u{fffd}", " ", "\t", "---\n",
        ];
        let mark = if r.one_in(4) { gen::special_char(r).to_string() } else { r.pick(MARKS).to_string() };
        let mark = mark.repeat(r.pickc(&[1, 1, 1, 2, 3]));
        match r.below(4) {
            0 => text.insert_str(0, &mark),
            1 => {
                let at = text.find('\n').unwrap_or(0);
                text.insert_str(at, &mark);
            }
            _ => text.push_str(&mark),
        }
        rec.count("marks");
    }
    rec.input(&text);
    rec.eval();
    if text.len() >= 8 {
        rec.nontrivial(text.as_bytes());
    }
    if i < 100 {
        rec.sample(&text);
    }
    // The AST interface. Texts of object keys are compared too, by comparing the debug output
    let ast = |x: Result<ferrous_chloride::parser::Body, ferrous_chloride::Error>| -> Result<String, String> {
        x.map(|b| format!("{:?}", b)).map_err(|e| e.to_string())
    };
    let a = ast(ferrous_chloride::parse_str(&text));
    rec.count(if a.is_ok() { "accepted" } else { "rejected" });
    let b = ast(ferrous_chloride::parse_slice(text.as_bytes()));
    same(rec, "str-vs-slice", &a, &b);
    let mut rd = chunks(r, text.as_bytes(), None);
    let c = ast(ferrous_chloride::parse_reader(&mut rd));
    rec.add("reads", rd.reads);
    rec.add("interrupts", rd.interrupts);
    same(rec, "str-vs-reader", &a, &c);
    // The legacy interface
    for merge in &[None, Some(MergeBehaviour::Error)] {
        let a = legacy_of(value::from_str(&text, *merge));
        let b = legacy_of(value::from_slice(text.as_bytes(), *merge));
        same(rec, "legacy-str-vs-slice", &a, &b);
        let mut rd = chunks(r, text.as_bytes(), None);
        let c = legacy_of(value::from_reader(&mut rd, *merge));
        same(rec, "legacy-str-vs-reader", &a, &c);
        if merge.is_some() {
            // Merging while reading or afterwards
            let c: Result<M, String> = match value::from_str(&text, None) {
                Err(e) => Err(e.to_string()),
                Ok(v) => legacy_of(v.merge()),
            };
            same(rec, "legacy-merge-later", &a, &c);
        }
        if a.is_ok() {
            rec.count("legacy_accepted");
        }
    }
    // Failing readers, and broken encodings
    let k = r.below(text.len() + 1);
    let mut rd = chunks(r, text.as_bytes(), Some(k));
    let e = ferrous_chloride::parse_reader(&mut rd).is_err();
    rec.check(e, "io-error-swallowed", || format!("reader failed after {} bytes, yet the result is Ok", k));
    let mut rd = chunks(r, text.as_bytes(), Some(k));
    let e = value::from_reader(&mut rd, None).is_err();
    rec.check(e, "io-error-swallowed", || format!("reader failed after {} bytes, yet the result is Ok", k));
    rec.add("io_errors", 2);
    let mut bytes = text.clone().into_bytes();
    let bad: &[&[u8]] = &[b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", b"\xc3"];
    let bad = bad[r.below(bad.len())];
    let mut k = r.below(bytes.len() + 1);
    while k < bytes.len() && bytes[k] & 0xc0 == 0x80 {
        k += 1;
    }
    for (j, b) in bad.iter().enumerate() {
        bytes.insert(k + j, *b);
    }
    if std::str::from_utf8(&bytes).is_err() {
        let all = [
            ferrous_chloride::parse_slice(&bytes).is_err(),
            ferrous_chloride::parse_reader(&bytes[..]).is_err(),
            value::from_slice(&bytes, None).is_err(),
            value::from_reader(&bytes[..], None).is_err(),
        ];
        rec.check(all.iter().all(|x| *x), "invalid-utf8-accepted", || format!("not UTF-8 at byte {}: errors {:?}", k, all));
        rec.count("invalid_utf8");
    }
    // Decoding
    let via_str: Result<A, String> = ferrous_chloride::from_str(&text).map_err(|e| e.to_string());
    let via_de: Result<A, String> = ferrous_chloride::serde::de::Deserializer::from_str(&text)
        .map_err(|e| e.to_string())
        .and_then(|d| A::deserialize(d).map_err(|e| e.to_string()));
    let via_body: Result<A, String> = ferrous_chloride::parse_str(&text)
        .map_err(|e| e.to_string())
        .and_then(|b| A::deserialize(ferrous_chloride::serde::de::Deserializer::new(b)).map_err(|e| e.to_string()));
    let via_owned: Result<A, String> = ferrous_chloride::parse_reader(text.as_bytes())
        .map_err(|e| e.to_string())
        .and_then(|b| A::deserialize(ferrous_chloride::serde::de::Deserializer::new(b)).map_err(|e| e.to_string()));
    let via_str = via_str.map(|v| v.sorted());
    same(rec, "decode-str-vs-deserializer", &via_str, &via_de.map(|v| v.sorted()));
    same(rec, "decode-str-vs-body", &via_str, &via_body.map(|v| v.sorted()));
    same(rec, "decode-str-vs-reader", &via_str, &via_owned.map(|v| v.sorted()));
    if via_str.is_ok() {
        rec.count("decodings");
    }
    // An expression alone, or in place
    let mut budget = r.size(20) + 1;
    let e = gen::expr(r, &GenCfg::FULL, 1, &mut budget);
    let mut et = gen::render_expr(r, &e, Style::WILD);
    if r.one_in(4) {
        et = super::total::mutate(r, &et);
    }
    expr_agree(rec, &et);
}

/// `a = <text>` against the expression alone
fn expr_agree(rec: &mut Rec, et: &str) {
    // What ends the attribute early is not an expression; layout around it neither
    let lead = et.starts_with(|c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '#' || c == '/');
    let trail = et.ends_with(|c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '/');
    if lead || trail || et.is_empty() {
        return;
    }
    let placed = format!("a = {}\n", et);
    rec.input(&placed);
    rec.eval();
    rec.count("expressions");
    let alone = Expression::parse(et);
    let body = ferrous_chloride::parse_str(&placed);
    match &alone {
        Ok(e) => match &body {
            Ok(b) => {
                let want = format!("[Attribute((\"a\", {:?}))]", e);
                let got = format!("{:?}", b);
                rec.check(want == got, "expression-vs-attribute", || diff_text(&want, &got));
                // and decoded
                let x: Result<A, String> = A::deserialize(e.clone()).map(|v| v.sorted()).map_err(|e| e.to_string());
                let y: Result<A, String> = ferrous_chloride::from_str::<One>(&placed)
                    .map(|o| o.a.sorted())
                    .map_err(|e| e.to_string());
                same(rec, "decode-expression-vs-attribute", &x, &y);
            }
            // A heredoc takes its newline from what follows
            Err(err) => rec.fail("expression-vs-attribute", format!("accepted alone, rejected as an attribute: {}", err)),
        },
        Err(err) => {
            if let Ok(b) = &body {
                // One attribute which spans the text: a heredoc at the end needs the newline, line
                // comments and further elements may be part of the text
                if b.len() == 1 && !et.contains("<<") && !et.contains('#') && !et.contains("//") && !et.contains("*/") {
                    rec.fail("expression-vs-attribute", format!("accepted as an attribute, rejected alone: {}", err));
                }
            }
        }
    }
}

#[derive(Deserialize)]
struct One {
    a: A,
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "Parse from a buffer, take the owned copy, overwrite and free the buffer, and only then compare the copy with the document model and with a rendering taken before; for both interfaces, merged or not, for bodies, blocks, expressions, numbers, labels and keys. Non-trivial: a document with at least 2 elements; distinct by text.",
    cases: (120_000, 3_000_000),
    threads: 8,
    run: run_c10,
    need: &["owned_bodies", "owned_legacy", "owned_merged", "owned_printed", "reader_results", "large"],
    exhaustive: false,
};

fn scribble(mut s: String) {
    unsafe {
        for b in s.as_bytes_mut() {
            *b = b'Z';
        }
    }
    drop(s);
}

fn run_c10(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let common = r.one_in(2);
    let cfg = if common { GenCfg::COMMON } else { GenCfg::FULL };
    let mut budget = r.size(80) + 3;
    let mut d = if r.one_in(30) { gen::doc(r, &cfg) } else { gen::body(r, &cfg, 0, &mut budget) };
    if let Some(l) = gen::large_case(i, 100) {
        rec.count("large");
        d = l;
    }
    let mut st = Style::WILD;
    if common {
        st.dialect = Dialect::Common;
        st.parens = false;
    }
    let (text, _) = gen::render(r, &d, st);
    rec.input(&text);
    rec.eval();
    if count_elems(&d) >= 2 {
        rec.nontrivial(text.as_bytes());
    }
    if i < 60 {
        rec.sample(&text);
    }
    let buf = text.clone();
    let (owned, before, parts) = {
        let b = match ferrous_chloride::parse_str(&buf) {
            Ok(b) => b,
            Err(e) => return rec.fail("rejected", format!("well formed document rejected: {}", e)),
        };
        let owned = b.as_owned();
        let eq: bool = owned == b && b == owned;
        rec.check(eq, "owned-not-equal", || "the owned copy does not equal its original".to_string());
        let again = owned.as_owned();
        rec.check(again == owned, "owned-not-equal", || "owning twice changes the value".to_string());
        let parts: Vec<_> = b.iter().map(|el| el.as_owned()).collect();
        (owned, format!("{:?}", b), parts)
    };
    scribble(buf);
    let after = format!("{:?}", owned);
    rec.check(before == after, "owned-changed", || diff_text(&before, &after));
    rec.check(format!("{:?}", parts) == before, "owned-changed", || "owning element by element differs".to_string());
    match from_body(&owned) {
        Ok(m) => {
            rec.check(m == d, "owned-changed", || diff(&d, &m));
        }
        Err(e) => rec.fail("owned-changed", e),
    }
    rec.count("owned_bodies");
    // What a reader returns
    let data = text.clone().into_bytes();
    let got = ferrous_chloride::parse_reader(&data[..]);
    drop(data);
    match got {
        Ok(b) => {
            rec.check(format!("{:?}", b) == before, "reader-result", || "reader result differs".to_string());
            rec.count("reader_results");
        }
        Err(e) => rec.fail("reader-result", e.to_string()),
    }
    if !common {
        return;
    }
    for merge in &[None, Some(MergeBehaviour::Error)] {
        let buf = text.clone();
        let (owned, before, want, shown) = {
            let v = match value::from_str(&buf, *merge) {
                Ok(v) => v,
                Err(e) => {
                    if merge.is_none() {
                        rec.fail("rejected", format!("well formed document rejected: {}", e));
                    }
                    continue;
                }
            };
            let o = v.as_owned();
            rec.check(no_nan(&m_from(&v)) && o == v, "owned-not-equal", || {
                "the owned copy of the legacy value does not equal its original".to_string()
            });
            (o, m_from(&v), format!("{:?}", merge), debug_m(&v))
        };
        scribble(buf);
        let shown_after = debug_m(&owned);
        rec.check(shown == shown_after, "owned-changed", || format!("merge {}: prints differently: {}", want, diff_text(&shown, &shown_after)));
        rec.add("owned_printed", shown.len() as u64);
        let after = m_from(&owned);
        rec.check(before == after, "owned-changed", || format!("merge {}: {}", want, diff_text(&format!("{:?}", before), &format!("{:?}", after))));
        rec.count("owned_legacy");
        if merge.is_some() {
            rec.count("owned_merged");
        } else {
            let w = m_of_doc(&d);
            rec.check(w == after, "owned-changed", || diff_text(&format!("{:?}", w), &format!("{:?}", after)));
        }
        if let Ok(x) = value::from_reader(text.as_bytes(), *merge) {
            rec.check(m_from(&x) == after, "reader-result", || "reader result differs".to_string());
        } else {
            rec.fail("reader-result", "reader fails where a string does not");
        }
    }
}

/// How a legacy value prints, with the entries of hash maps sorted by key
fn debug_m(m: &MapValues) -> String {
    match m {
        KeyValuePairs::Unmerged(v) => {
            let v: Vec<String> = v.iter().map(|(k, v)| format!("{:?} {} = {}", k, &**k, debug_v(v))).collect();
            format!("Unmerged{{{}}}", v.join(";"))
        }
        KeyValuePairs::Merged(h) => {
            let mut v: Vec<(String, String)> =
                h.iter().map(|(k, v)| (k.to_string(), format!("{:?} {} = {}", k, &**k, debug_v(v)))).collect();
            v.sort();
            let v: Vec<String> = v.into_iter().map(|x| x.1).collect();
            format!("Merged{{{}}}", v.join(";"))
        }
    }
}

fn debug_v(v: &Value) -> String {
    match v {
        Value::List(l) => format!("List[{}]", l.iter().map(debug_v).collect::<Vec<_>>().join(",")),
        Value::Object(l) => format!("Object[{}]", l.iter().map(debug_m).collect::<Vec<_>>().join(",")),
        Value::Block(KeyValuePairs::Unmerged(b)) => {
            format!("Block[{}]", b.iter().map(|(l, m)| format!("{:?}{}", l, debug_m(m))).collect::<Vec<_>>().join(","))
        }
        Value::Block(KeyValuePairs::Merged(b)) => {
            let mut v: Vec<String> = b.iter().map(|(l, m)| format!("{:?}{}", l, debug_m(m))).collect();
            v.sort();
            format!("MergedBlock[{}]", v.join(","))
        }
        v => format!("{:?}", v),
    }
}

/// There is no NaN in HCL
fn no_nan(_m: &M) -> bool {
    true
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "Documents from the subset of HCL that both interfaces share are written in random layouts; the legacy interface has to return exactly the values of the document model (integers, floats bit for bit, strings, lists, maps, blocks with labels, in order), which is also compared with what the AST interface returns for the same text. Legacy-only forms (commas between elements, quoted attribute names) are generated as well. Non-trivial: a document with at least 2 elements; distinct by text.",
    cases: (120_000, 3_000_000),
    threads: 8,
    run: run_c16,
    need: &["legacy_values_compared", "agreements_with_ast", "legacy_only_forms", "large"],
    exhaustive: false,
};

fn run_c16(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    let mut d = gen::doc(r, &GenCfg::COMMON);
    if let Some(l) = gen::large_case(i, 100) {
        rec.count("large");
        d = l;
    }
    let only = r.one_in(3);
    let st = Style {
        dialect: if only { Dialect::Legacy } else { Dialect::Common },
        wild: !r.one_in(5),
        parens: false,
        heredocs: true,
        escapes: true,
    };
    let (mut text, feats) = gen::render(r, &d, st);
    note(rec, &d, feats);
    let mut want = m_of_doc(&d);
    if only {
        rec.count("legacy_only_forms");
        if r.one_in(3) {
            // Quoted attribute names
            let k = gen::label_text(r);
            let q = gen::quote(r, &k, false, true);
            let mut budget = 6;
            let e = gen::expr(r, &GenCfg::COMMON, 2, &mut budget);
            let t = gen::render_expr(r, &e, Style { heredocs: false, ..st });
            text = format!("{} = {}\n{}", q, t, text);
            want.entries.insert(0, (k, v_of_expr(&e)));
        }
    }
    rec.input(&text);
    rec.eval();
    if count_elems(&d) >= 2 {
        rec.nontrivial(text.as_bytes());
    }
    if i < 80 {
        rec.sample(&text);
    }
    let got = match value::from_str(&text, None) {
        Ok(v) => m_from(&v),
        Err(e) => return rec.fail("legacy", format!("well formed document rejected: {}", e)),
    };
    if !rec.check(got == want, "legacy", || diff_text(&format!("{:?}", want), &format!("{:?}", got))) {
        return;
    }
    rec.add("legacy_values_compared", scalars_m(&want) as u64);
    if !only {
        match ferrous_chloride::parse_str(&text).map_err(|e| e.to_string()).and_then(|b| from_body(&b)) {
            Ok(m) => {
                let m = m_of_doc(&m);
                if rec.check(m == got, "interfaces-disagree", || diff_text(&format!("{:?}", m), &format!("{:?}", got))) {
                    rec.count("agreements_with_ast");
                }
            }
            Err(e) => rec.fail("interfaces-disagree", format!("accepted by the legacy interface only: {}", e)),
        }
    }
}
