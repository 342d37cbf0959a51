//! C01: every entry point ends with a value or an error, for every input
use super::exercise as ex;
use crate::frame::{guard, Env, Prop, Rec};
use crate::gen::{self, GenCfg, Style};
use crate::rng::Rng;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::expression::Expression;
use std::process::Command;

pub static C01: Prop = Prop {
    id: "C01",
    rule: "Inputs: every text of up to two bytes, every string of up to 3 tokens over a 36-token alphabet (bare and after `a=`), random byte strings, token soup, escapes and number literals of any length, heredoc soup, unclosed nests of up to 100 levels, all truncations of small documents (also within a character), what files begin with, and character/token/line mutations of generated documents. Each input goes through every parsing and decoding entry point and everything callable on the results (formatting, owning, grouping, merging, accessors); a panic, abort, or 60 s of CPU time is a violation. Non-trivial: an input of at least 3 bytes; distinct by content.",
    cases: (9000, 160000),
    threads: 8,
    run,
    need: &["accepted", "rejected", "bytes_invalid_utf8", "deep_ok", "exhaustive_short", "escapes_and_digits", "heredocs", "short_bytes", "byte_truncations"],
    exhaustive: false,
};

const TOKS: &[&str] = &[
    "a", "=", "1", "\n", "{", "}", "[", "]", "(", ")", ",", "\"", "\\", "<<E", "<<-E", "E", "#",
    "//", "/*", "*/", " ", "\r\n", "null", "true", "-", ".", "\"x\"", "é", "\t", "e", "\\u", "\r",
    "0x1", "\"\\", "藏", "\u{0}",
];

pub fn soup(r: &mut Rng) -> String {
    let n = if r.one_in(20) { r.size(400) } else { r.range(1, 25) };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(14) {
            12 => s.push_str(&escapes(r)),
            13 => s.push_str(&digits(r)),
            0 => s.push(gen::special_char(r)),
            1 => s.push_str(&gen::ident(r)),
            2 => s.push_str(&gen::number(r)),
            3 => s.push_str("a = "),
            4 => s.push_str("\nE\n"),
            _ => s.push_str(r.pick(TOKS)),
        }
    }
    s
}

/// A quoted string of escapes, each with too few, enough or too many digits
pub fn escapes(r: &mut Rng) -> String {
    let mut s = String::from("\"");
    for _ in 0..r.range(1, 4) {
        s.push('\\');
        s.push(r.pickc(&['x', 'u', 'U', 'u', 'U', 'X', '0', '1', '7', '8', 'n', 'a', 'N', '\n', 'é']));
        if r.one_in(6) {
            s.push('{');
        }
        let zeros = r.one_in(2);
        for k in 0..r.below(14) {
            s.push(if zeros && k < 4 { '0' } else { r.pickc(&['0', '1', '7', '8', '9', 'a', 'd', 'D', 'f', 'F', 'e', '2']) });
        }
        if r.one_in(6) {
            s.push('}');
        }
        if r.one_in(4) {
            s.push(gen::special_char(r));
        }
    }
    if !r.one_in(8) {
        s.push('"');
    }
    s
}

/// Something like a number, of any length
pub fn digits(r: &mut Rng) -> String {
    let mut s = String::from(r.pick(&["", "-", "+", "0x", "--", "-0", "."]));
    for part in 0..3 {
        let n = match r.below(4) {
            0 => 0,
            1 => r.below(4),
            2 => r.below(45),
            _ => r.size(1200),
        };
        let c = r.pickc(&['0', '9', '1', '_', '5']);
        let same = r.one_in(2);
        for _ in 0..n {
            s.push(if same { c } else { (b'0' + r.below(10) as u8) as char });
        }
        if part == 0 {
            s.push_str(r.pick(&["", ".", "e", "_", ".."]));
        } else if part == 1 {
            s.push_str(r.pick(&["", "e", "E-", "e+", "E"]));
        }
    }
    s
}

/// A complete heredoc: any amount of content, any indentation, each line with its own
fn heredoc_any(r: &mut Rng) -> String {
    let mut s = String::from(r.pick(&["a = ", "a = [", "a = {\nk = "]));
    let tail = if s.ends_with('[') { "\n]\n" } else if s.ends_with("k = ") { "\n}\n" } else { "\n" };
    let marker = r.pick(&["E", "藏", "E_1"]);
    s.push_str(r.pick(&["<<", "<<-", "<<-", "<<-"]));
    s.push_str(marker);
    let blanks = |r: &mut Rng, s: &mut String| {
        let n = match r.below(5) {
            0 => 0,
            1 | 2 => r.below(5),
            3 => r.below(40),
            _ => r.size(300),
        };
        for _ in 0..n {
            s.push(if r.one_in(30) { r.pickc(&['\t', '\u{a0}', '\u{3000}', '\r']) } else { ' ' });
        }
    };
    for _ in 0..r.pickc(&[0, 0, 1, 1, 1, 2, 3, 8]) {
        s.push_str(r.pick(&["\n", "\n", "\n", "\r\n"]));
        blanks(r, &mut s);
        for _ in 0..r.pickc(&[0, 0, 1, 2, 5]) {
            s.push(if r.one_in(2) { 'x' } else { gen::special_char(r) });
        }
    }
    s.push_str(r.pick(&["\n", "\n", "\n", "\r\n"]));
    blanks(r, &mut s);
    s.push_str(marker);
    s.push_str(tail);
    s
}

pub fn heredoc_soup(r: &mut Rng) -> String {
    if r.one_in(2) {
        return heredoc_any(r);
    }
    let mut s = String::from(r.pick(&["a = ", "", "a = [", "a = {\nk = "]));
    s.push_str(r.pick(&["<<E", "<<-E", "<<-E", "<<藏", "<<-藏_", "<<", "<<-", "<< E", "<<--E", "<<-E "]));
    s.push_str(r.pick(&["\n", "\n", "\r\n", "", "\r"]));
    for _ in 0..r.below(8) {
        for _ in 0..r.below(6) {
            s.push(r.pickc(&[' ', ' ', ' ', '\t', '\u{a0}', '\u{3000}']));
        }
        for _ in 0..r.below(4) {
            s.push(gen::special_char(r));
        }
        s.push_str(r.pick(&["\n", "\n", "\r\n", "\n\n", "\nE x\n", "\r"]));
    }
    for _ in 0..r.below(8) {
        s.push(r.pickc(&[' ', ' ', ' ', '\t']));
    }
    s.push_str(r.pick(&["E", "E", "藏", "藏_", "", "Ex"]));
    s.push_str(r.pick(&["\n", "\n", "", "\r\n", "]\n", "\n]\n", "\n}\n"]));
    s
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = c.len();
        if n == 0 {
            c.push('a');
            continue;
        }
        let i = r.below(n);
        match r.below(9) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, gen::special_char(r)),
            2 => c[i] = gen::special_char(r),
            3 => c.truncate(i),
            4 => {
                let j = r.below(n);
                c.swap(i, j);
            }
            5 => {
                // duplicate a span
                let j = (i + r.size(40)).min(n);
                let span: Vec<char> = c[i..j].to_vec();
                let at = r.below(n);
                for (k, x) in span.into_iter().enumerate() {
                    c.insert(at + k, x);
                }
            }
            6 => {
                let j = (i + r.size(40)).min(n);
                c.drain(i..j);
            }
            7 => {
                for (k, x) in r.pick(TOKS).chars().enumerate() {
                    c.insert(i + k, x);
                }
            }
            _ => {
                let j = (i + r.size(10)).min(n);
                c[i..j].reverse();
            }
        }
    }
    c.into_iter().collect()
}

fn one(rec: &mut Rec, s: &str, full: bool) {
    rec.input(s);
    rec.eval();
    if s.len() >= 3 {
        rec.nontrivial(s.as_bytes());
    }
    let ok = ex::str_entry_points(s);
    if full {
        ex::low_level(s);
        ex::bytes_entry_points(s.as_bytes());
    }
    rec.count(if ok > 0 { "accepted" } else { "rejected" });
    rec.max("input_bytes", s.len() as u64);
}

fn one_bytes(rec: &mut Rec, b: &[u8]) {
    rec.input_bytes(b);
    rec.eval();
    if b.len() >= 3 {
        rec.nontrivial(b);
    }
    ex::bytes_entry_points(b);
}

/// What a file may begin with
const HEADS: &[&[u8]] = &[
    &[0xef, 0xbb, 0xbf], &[0xff, 0xfe], &[0xfe, 0xff], &[0xff, 0xfe, 0, 0], &[0, 0, 0xfe, 0xff], b"#!", &[0x1f, 0x8b], &[0xe2, 0x80, 0xa8],
    &[0xf0, 0x9f, 0x98, 0x80], &[0xc2, 0x85], b"\r\n", b"/*", b"<<-E",
];

/// 36 + 36^2 + 36^3 strings, spread over the first cases
const EXH_CASES: u64 = 36;

fn run(r: &mut Rng, rec: &mut Rec, i: u64, env: &Env) {
    if i == 0 {
        return deep(rec, env);
    }
    if i <= EXH_CASES {
        // Every text of up to two bytes
        for x in (0..256usize).filter(|x| *x as u64 % EXH_CASES == i - 1) {
            one_bytes(rec, &[x as u8]);
            for y in 0..256usize {
                one_bytes(rec, &[x as u8, y as u8]);
                rec.count("short_bytes");
            }
        }
        if i == 1 {
            one_bytes(rec, &[]);
        }
        let a = TOKS[(i - 1) as usize];
        for pre in &["", "a="] {
            one(rec, &format!("{}{}", pre, a), true);
            for b in TOKS {
                one(rec, &format!("{}{}{}", pre, a, b), true);
                for c in TOKS {
                    one(rec, &format!("{}{}{}{}", pre, a, b, c), false);
                    rec.count("exhaustive_short");
                }
            }
        }
        return;
    }
    match i % 9 {
        0 => {
            let n = r.size(300);
            let b: Vec<u8> = (0..n)
                .map(|_| {
                    if r.one_in(3) {
                        r.below(256) as u8
                    } else {
                        r.pickc(&[b'a', b'=', b'\n', b'"', b'\\', b'[', b'{', b'<', b' ', 0xc3, 0xe2, 0xf0])
                    }
                })
                .collect();
            rec.input_bytes(&b);
            rec.eval();
            rec.nontrivial(&b);
            ex::bytes_entry_points(&b);
            let head = r.pickc(HEADS);
            for k in 1..=head.len() {
                one_bytes(rec, &head[..k]);
                let mut h = head[..k].to_vec();
                h.extend_from_slice(&b[..r.below(b.len() + 1)]);
                one_bytes(rec, &h);
            }
            rec.input_bytes(&b);
            if std::str::from_utf8(&b).is_err() {
                rec.count("bytes_invalid_utf8");
            }
            one(rec, &String::from_utf8_lossy(&b).into_owned(), true);
        }
        1 | 2 => {
            let s = soup(r);
            one(rec, &s, true);
            let s = match r.below(4) {
                0 => format!("a = {}\n", digits(r)),
                1 => format!("a = {}\n", escapes(r)),
                2 => format!("a {} {{}}\n", escapes(r)),
                _ => format!("a = {{ {} = {} }}\n", escapes(r), digits(r)),
            };
            one(rec, &s, true);
            rec.count("escapes_and_digits");
        }
        3 => {
            for _ in 0..3 {
                let s = heredoc_soup(r);
                one(rec, &s, true);
            }
            rec.count("heredocs");
        }
        4 => {
            // nests, some of them left open
            let n = r.range(1, 100);
            let mut s = String::from(r.pick(&["", "a=", "a = "]));
            let mut closers = vec![];
            let same = r.one_in(2);
            let open: &[(&str, &str)] = &[
                ("[", "]"),
                ("{", "}"),
                ("(", ")"),
                ("a {\n", "}\n"),
                ("a={", "}"),
                ("{\na = ", "\n}"),
                ("a \"x\" {\n", "}\n"),
                ("[1, ", ", 2]"),
                ("{ k = ", " }"),
                ("{ (", ") = 1 }"),
                ("{\"k\" = [", "]}"),
                ("a {", "}"),
            ];
            let k = r.below(open.len());
            for _ in 0..n {
                let (o, c) = open[if same { k } else { r.below(open.len()) }];
                s.push_str(o);
                closers.push(c);
            }
            s.push_str(r.pick(&["", "1", "a = 1\n", "\"", "<<E\n"]));
            let m = if r.one_in(2) { n } else { r.below(n + 1) };
            for c in closers.iter().rev().take(m) {
                s.push_str(c);
            }
            one(rec, &s, true);
        }
        5 => {
            let mut budget = 8;
            let d = gen::body(r, &GenCfg::FULL, 2, &mut budget);
            let (s, _) = gen::render(r, &d, Style::WILD);
            if s.len() < 600 {
                for (k, _) in s.char_indices() {
                    one(rec, &s[..k], false);
                    rec.count("truncations");
                }
                // Between the bytes of a character, too
                for k in (0..s.len()).filter(|k| !s.is_char_boundary(*k)) {
                    one_bytes(rec, &s.as_bytes()[..k]);
                    rec.count("byte_truncations");
                }
            }
            one(rec, &s, true);
        }
        6 => {
            let d = gen::doc(r, &GenCfg::FULL);
            let (s, _) = gen::render(r, &d, Style::WILD);
            one(rec, &s, true);
            if i < 100 {
                rec.sample(&s);
            }
        }
        _ => {
            let mut budget = r.size(40) + 2;
            let cfg = if r.one_in(2) { GenCfg::FULL } else { GenCfg::COMMON };
            let d = gen::body(r, &cfg, 0, &mut budget);
            let mut st = Style::WILD;
            if cfg.common {
                st.dialect = gen::Dialect::Legacy;
            }
            let (s, _) = gen::render(r, &d, st);
            for _ in 0..3 {
                let m = mutate(r, &s);
                one(rec, &m, true);
                if i < 60 {
                    rec.sample(&m);
                }
            }
        }
    }
}

/// Nesting shapes: (name, prefix, opener, core, closer, suffix)
const SHAPES: &[(&str, &str, &str, &str, &str, &str)] = &[
    ("tuple", "a=", "[", "1", "]", "\n"),
    ("object", "a=", "{k=", "1", "}", "\n"),
    ("paren", "a=", "(", "1", ")", "\n"),
    ("block", "", "b {\n", "", "}\n", ""),
    ("map", "a=", "{\nk=", "1", "\n}", "\n"),
];

fn shape(k: usize, n: usize, closed: bool) -> String {
    let (_, pre, o, core, c, suf) = SHAPES[k];
    let mut s = String::from(pre);
    s.push_str(&o.repeat(n));
    s.push_str(core);
    if closed {
        s.push_str(&c.repeat(n));
        s.push_str(suf);
    }
    s
}

/// In a process of its own, on a stack of the size the main thread usually has
pub fn child(args: &[String]) -> i32 {
    let k: usize = args[0].parse().unwrap();
    let n: usize = args[1].parse().unwrap();
    let closed = args[2] == "closed";
    let s = shape(k, n, closed);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let a = ferrous_chloride::parse_str(&s).is_ok();
            let b = ferrous_chloride::value::from_str(&s, None).is_ok();
            let c = ferrous_chloride::from_str::<serde::de::IgnoredAny>(&s).is_ok();
            (a, b, c)
        })
        .unwrap();
    match h.join() {
        Ok((a, _, _)) => {
            println!("done {}", a);
            0
        }
        Err(_) => 3,
    }
}

fn deep(rec: &mut Rec, env: &Env) {
    use std::os::unix::process::ExitStatusExt;
    for (k, sh) in SHAPES.iter().enumerate() {
        for &(n, closed) in &[(64usize, true), (64, false), (128, true), (128, false), (100_000, true)] {
            rec.eval();
            let what = format!("{} nesting of {} levels ({})", sh.0, n, if closed { "closed" } else { "open" });
            rec.input(&what);
            let o = Command::new(&env.me)
                .args(&["child", &k.to_string(), &n.to_string(), if closed { "closed" } else { "open" }])
                .output();
            let o = match o {
                Ok(o) => o,
                Err(e) => panic!("harness: cannot start child: {}", e),
            };
            let sig = o.status.signal();
            let fine = o.status.code() == Some(0);
            if n <= 128 {
                if rec.check(fine, "deep-nesting-128", || {
                    format!("{}: ended with {:?} {}", what, o.status, String::from_utf8_lossy(&o.stderr))
                }) {
                    rec.count("deep_ok");
                    if closed {
                        let out = String::from_utf8_lossy(&o.stdout).to_string();
                        rec.check(out.trim() == "done true", "deep-nesting-128", || {
                            format!("{}: well formed, but rejected: {}", what, out)
                        });
                    }
                }
            } else if !fine {
                // Documented finding: unbounded recursion exhausts the stack
                let name = format!("stack-overflow:{}:{}", sh.0, n);
                if sig == Some(libc::SIGABRT) || sig == Some(libc::SIGSEGV) {
                    rec.observed.push(name);
                } else {
                    rec.fail("deep-nesting-other", format!("{}: ended with {:?}", what, o.status));
                }
            }
        }
    }
    // Documented finding: the text of a key that is an expression is left unimplemented
    for key in &["1", "\"k\"", "(null)"] {
        let text = format!("a = {{\n{} = 2\n}}\n", key);
        rec.input(&text);
        rec.eval();
        rec.count("expression_keys");
        let r = guard(|| {
            let b = ferrous_chloride::parse_str(&text).expect("harness: a document");
            match &b[0] {
                BodyElement::Attribute((_, Expression::Object(o))) => o[0].0.as_str().into_owned(),
                b => panic!("harness: {:?}", b),
            }
        });
        match r {
            Ok(t) => {
                rec.check(t == *key || Ok(t.as_str()) == serde_str(key), "key-as-str", || format!("{} has the text {:?}", key, t));
            }
            Err(_) => rec.observed.push(format!("key-as-str:{}", key)),
        }
    }
}

/// What a key spelled with quotes says
fn serde_str(key: &str) -> Result<&str, ()> {
    if key.starts_with('"') {
        Ok(key.trim_matches('"'))
    } else {
        Err(())
    }
}
