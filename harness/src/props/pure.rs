//! C19: the result depends on the text, on nothing else
use super::cli::canon;
use super::total::{self, mutate};
use crate::anyv::A;
use crate::frame::{guard, Env, Prop, Rec};
use crate::gen::{self, Dialect, GenCfg, Style};
use crate::rng::{hash_bytes, Rng};
use ferrous_chloride::parser::Expression;
use ferrous_chloride::{value, AsOwned, MergeBehaviour};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Once};

pub static C19: Prop = Prop {
    id: "C19",
    rule: "The result (tree, value, deserialised data or the text of the error) of every interface on a text is taken in a process of its own that has read nothing before, and compared with what a long-lived process returns: again and again, after hundreds of readings that failed half way (unclosed nests, heredocs, strings, invalid UTF-8), from a slice inside of a larger buffer with something else behind it, from a buffer that is overwritten in place and read again, with debug logging on and off, and by eight threads at once that read this and other texts; one text with every construct is read 72 000 times by each of eight threads, and each result compared. Non-trivial: a text of at least 3 bytes; distinct by text.",
    cases: (4_000, 60_000),
    threads: 8,
    run: run_c19,
    need: &["fresh_processes", "repeated", "after_failures", "inside_a_buffer", "concurrent_readings", "logging_on", "log_records", "accepted", "rejected", "orders_seen", "buffers_overwritten", "overwritten_invalid", "soaked", "rare_characters"],
    exhaustive: false,
};

static RECORDS: AtomicU64 = AtomicU64::new(0);

struct Sink;
static SINK: Sink = Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let n = format!("{}", r.args()).len() as u64;
        RECORDS.fetch_add(1 + n / 1_000_000, Ordering::Relaxed);
    }
    fn flush(&self) {}
}

static START: Once = Once::new();

fn logging() {
    START.call_once(|| {
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Off);
    });
}

/// Sorted entries: a merged map has no order
fn canonical(s: String) -> String {
    match canon(s.as_bytes()) {
        Ok(c) => c,
        Err(_) => s,
    }
}

fn parts(s: &str) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    let mut put = |name: &'static str, f: &dyn Fn() -> String| {
        let t = match guard(f) {
            Ok(t) => t,
            Err(e) => format!("panic {}", e),
        };
        v.push((name, t));
    };
    put("parse_str", &|| match ferrous_chloride::parse_str(s) {
        Ok(b) => {
            let o = b.as_owned();
            format!("{:?}\n{:?}", b, o)
        }
        Err(e) => format!("error {}", e),
    });
    put("parse_slice", &|| match ferrous_chloride::parse_slice(s.as_bytes()) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    put("parse_reader", &|| match ferrous_chloride::parse_reader(s.as_bytes()) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    put("expression", &|| match Expression::parse(s) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    put("value", &|| match value::from_str(s, None) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    put("merged", &|| match value::from_str(s, Some(MergeBehaviour::Error)) {
        Ok(b) => canonical(format!("{:?}", b)),
        // Which of several conflicts is named is not said anywhere
        Err(_) => "error".into(),
    });
    put("serde", &|| match ferrous_chloride::from_str::<A>(s) {
        Ok(b) => format!("{:?}", b.sorted()),
        Err(_) => "error".into(),
    });
    v
}

pub fn child() -> i32 {
    let mut s = String::new();
    if std::io::stdin().read_to_string(&mut s).is_err() {
        return 3;
    }
    crate::frame::install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let v: Vec<String> = parts(&s).into_iter().map(|(_, t)| format!("{:x}", hash_bytes(t.as_bytes()))).collect();
            v.join(" ")
        })
        .unwrap();
    match h.join() {
        Ok(s) => {
            // The crate may print; only the last line counts
            println!("\n{}", s);
            0
        }
        Err(_) => 3,
    }
}

fn fresh(env: &Env, s: &str) -> Option<Vec<u64>> {
    let mut p = Command::new(&env.me)
        .args(&["child", "pure"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: cannot start child: {}", e));
    let mut w = p.stdin.take().unwrap();
    let b = s.as_bytes().to_vec();
    let h = std::thread::spawn(move || {
        let _ = w.write_all(&b);
    });
    let o = p.wait_with_output().unwrap_or_else(|e| panic!("harness: child: {}", e));
    let _ = h.join();
    if !o.status.success() {
        return None;
    }
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    t.lines().last().map(|l| l.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect())
}

/// Readings that fail half way, at many depths
fn failures(r: &mut Rng, n: usize) {
    for k in 0..n {
        let d = r.range(1, 60);
        let s = match k % 7 {
            0 => format!("a = {}", "[".repeat(d)),
            1 => format!("a = {}", "{ k = ".repeat(d)),
            2 => "b \"l\" {\n".repeat(d),
            3 => format!("a = {}", "(".repeat(d)),
            4 => format!("a = <<EOF\n{}", " x\n".repeat(d)),
            5 => format!("a = \"{}", "\\n".repeat(d)),
            _ => format!("{}a = [{}", "k = 1\n".repeat(d), "1, ".repeat(d)),
        };
        let _ = guard(|| ferrous_chloride::parse_str(&s).is_ok());
        match k % 3 {
            0 => {
                let _ = guard(|| value::from_str(&s, Some(MergeBehaviour::Error)).is_ok());
            }
            1 => {
                let _ = guard(|| ferrous_chloride::from_str::<A>(&s).is_ok());
            }
            _ => {
                let mut b = s.into_bytes();
                b.push(0xff);
                let _ = guard(|| ferrous_chloride::parse_slice(&b).is_ok());
                let _ = guard(|| ferrous_chloride::parse_reader(&b[..]).is_ok());
            }
        }
    }
}

fn text(r: &mut Rng) -> String {
    let mut budget = r.size(50) + 2;
    let mut cfg = GenCfg::FULL;
    let mut st = Style::WILD;
    if r.one_in(2) {
        cfg = GenCfg::COMMON;
        st.dialect = if r.one_in(2) { Dialect::Common } else { Dialect::Legacy };
        st.parens = false;
    }
    match r.below(6) {
        0 => {
            let d = gen::body(r, &cfg, 0, &mut budget);
            let (s, _) = gen::render(r, &d, st);
            mutate(r, &s)
        }
        1 => gen::render_expr(r, &E::Tuple(vec![gen_deep(70)]), Style { heredocs: false, ..st }),
        2 => {
            let n = r.range(40, 90);
            format!("a = {}1{}\n", "[".repeat(n), "]".repeat(n))
        }
        3 if r.one_in(2) => total::soup(r),
        3 => strange_literal(r),
        _ => {
            let d = gen::body(r, &cfg, 0, &mut budget);
            gen::render(r, &d, st).0
        }
    }
}

/// A literal with characters that may or may not stand in it, raw and escaped
fn strange_literal(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        let c = r.pick(&[
            "\n", "\r\n", "\r", "\t", "\\", "\\n", "\\\"", "\\'", "\\x4", "\\x41", "\\u00e", "\\ud800", "\\U0010ffff", "\\U00110000",
            "\\101", "\\777", "\\0", "${a}", "%{", "\0", "\u{1}", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "é", "\u{10ffff}", "'", "#", "//", "/*",
        ]);
        s.push_str(r.pick(&["", "x", " ", "ab"]));
        s.push_str(c);
    }
    match r.below(6) {
        0 => format!("b \"{}\" {{\n}}\n", s),
        1 => format!("b \"x\" \"{}\" {{\na = 1\n}}\n", s),
        2 => format!("a = \"{}\"\n", s),
        3 => format!("\"{}\" = 1\n", s),
        4 => format!("a = {{ \"{}\" = \"{}\" }}\n", s, s),
        _ => format!("a = <<EOF\n{}\nEOF\nb {} {{\n}}\n", s, s),
    }
}

use crate::model::E;

fn gen_deep(n: usize) -> E {
    let mut e = E::Null;
    for i in 0..n {
        e = if i % 2 == 0 {
            E::Tuple(vec![e])
        } else {
            E::Obj(vec![(crate::model::K::Ident("k".into()), e)])
        };
    }
    e
}

fn same(rec: &mut Rec, when: &str, s: &str, want: &[u64], first: &[(&'static str, String)]) -> bool {
    let got = parts(s);
    compare(rec, when, want, first, &got)
}

fn compare(rec: &mut Rec, when: &str, want: &[u64], first: &[(&'static str, String)], got: &[(&'static str, String)]) -> bool {
    for (k, (name, t)) in got.iter().enumerate() {
        let ok = want.get(k) == Some(&hash_bytes(t.as_bytes()));
        if !rec.check(ok, "differs", || {
            let before: String = first.get(k).map(|x| x.1.chars().take(500).collect()).unwrap_or_default();
            let now: String = t.chars().take(500).collect();
            format!("{} returns something else {} than in a fresh process\nthe first time here: {}\nnow: {}", name, when, before, now)
        }) {
            return false;
        }
    }
    true
}

/// Something of every construct, for readings in very large numbers: what counts readings, or
/// what it has read, goes wrong when the counter wraps
const EVERYTHING: &str = "# c\na = \"x\\n\\u00e9\"\nb = -1.5e3\nc = <<-E\n  p\n q\n  E\nd = <<E\nr\nE\ne = [1, true, null, { k = 2 }]\nt \"l\" m {\n  f = (7)\n  u {}\n}\n";
const EVERYTHING_OLD: &str = "a = \"x\\n\\u00e9\"\nb = -1.5e3\nc = <<-E\n  p\n q\n  E\nd = <<E\nr\nE\ne = [1, true]\nt \"l\" \"m\" {\n  f = 7\n}\n";

fn many_times(rec: &mut Rec, n: usize) {
    rec.input(EVERYTHING);
    let unlabelled = EVERYTHING.replace(" \"l\" m", "");
    let read = || {
        let b = ferrous_chloride::parse_str(EVERYTHING);
        let v = value::from_str(EVERYTHING_OLD, None);
        let d = ferrous_chloride::from_str::<A>(&unlabelled);
        (b, v, d.map(|d| d.sorted()))
    };
    let (b0, v0, d0) = match read() {
        (Ok(b), Ok(v), Ok(d)) => (b, v, d),
        (b, v, d) => return rec.fail("differs", format!("a plain document is rejected: {:?} {:?} {:?}", b.err().map(|e| e.to_string()), v.err().map(|e| e.to_string()), d.err().map(|e| e.to_string()))),
    };
    let text0 = format!("{:?}", b0);
    for k in 0..n {
        rec.eval();
        match guard(&read) {
            Ok((Ok(b), Ok(v), Ok(d))) => {
                if b == b0 && v == v0 && d == d0 && (k % 16 != 0 || format!("{:?}", b) == text0) {
                    continue;
                }
                let got = format!("{:?}\n{:?}\n{:?}", b, v, d);
                return rec.fail("differs", format!("the result is another one after some 9000 readings at most, {} of them just now: {}\nbefore: {:?}\n{:?}\n{:?}", k, got, b0, v0, d0));
            }
            Ok((b, v, d)) => {
                let errors = (b.map(|_| ()).map_err(|e| e.to_string()), v.map(|_| ()).map_err(|e| e.to_string()), d.map(|_| ()).map_err(|e| e.to_string()));
                return rec.fail("differs", format!("rejected after some 9000 readings at most, {} of them just now: {:?}", k, errors));
            }
            Err(e) => return rec.fail("panic", format!("after some 9000 readings at most, {} of them just now: {}", k, e)),
        }
    }
    rec.add("soaked", n as u64);
}

/// The same with characters that are rare, some of them in each case, wherever they may stand
fn rare_many_times(rec: &mut Rec, i: u64, n: usize) {
    let all: Vec<char> = [
        (1u32, 0x20u32), (0x7f, 0x180), (0x300, 0x340), (0x370, 0x480), (0x5d0, 0x5f0), (0x600, 0x640), (0x900, 0x910), (0x1100, 0x1110), (0x1e00, 0x1e10),
        (0x2000, 0x2070), (0x20a0, 0x20b0), (0x2100, 0x2110), (0x2150, 0x21b0), (0x2200, 0x2210), (0x2460, 0x2470), (0x2500, 0x2510), (0x25a0, 0x25b0),
        (0x2600, 0x2610), (0x3000, 0x3060), (0x30a0, 0x30b0), (0x4e00, 0x4e20), (0xac00, 0xac10), (0xd7f0, 0xd800), (0xe000, 0xe010), (0xfe00, 0xfe10),
        (0xfe30, 0xfe40), (0xfeff, 0xff10), (0xfff0, 0x10010), (0x1d400, 0x1d410), (0x1f300, 0x1f310), (0x1f600, 0x1f640), (0x20000, 0x20010), (0xe0000, 0xe0080), (0x10fff0, 0x11_0000),
    ]
    .iter()
    .flat_map(|(a, b)| (*a..*b).filter_map(std::char::from_u32))
    .filter(|c| *c != '\n' && *c != '\r')
    .collect();
    let per = (all.len() + 63) / 64;
    let some: String = all.iter().skip(i as usize * per).take(per).collect();
    let names: String = some.chars().filter(|c| unic_ucd_ident::is_id_continue(*c)).collect();
    let text = format!("n{} \"{}\" {{ # {}\n a = [\"{}\", {{ k{} = 1 }}] // {}\n}}\nh = <<E\n{}\nE\n", names, some, some, some, names, some, some);
    // What is refused is refused again and again, for the same reason
    let refused = format!("b = \"{}\\q\"\n", some);
    let old = format!("n \"{}\" {{\n a = \"{}\" # {}\n}}\n", some, some, some);
    rec.input(&text);
    let read = |k: usize| {
        let mut all = vec![];
        all.push(format!("{:?}", ferrous_chloride::parse_str(&text).map_err(|e| e.to_string())));
        if k % 2 == 0 {
            all.push(format!("{:?}", value::from_str(&old, None).map_err(|e| e.to_string())));
            all.push(format!("{:?}", ferrous_chloride::parse_str(&refused).map_err(|e| e.to_string())));
        }
        all
    };
    let first = read(0);
    if first[0].starts_with("Err") || first[1].starts_with("Err") || first[2].starts_with("Ok") {
        return rec.fail("differs", format!("rare characters: {:?}", first));
    }
    for k in 1..n {
        rec.eval();
        match guard(|| read(k)) {
            Ok(got) => {
                if got.iter().zip(&first).any(|(a, b)| a != b) {
                    return rec.fail("differs", format!("after some {} readings: {:?}\nbefore: {:?}", k, got, first));
                }
            }
            Err(e) => return rec.fail("panic", format!("after some {} readings: {}", k, e)),
        }
    }
    rec.add("rare_characters", some.chars().count() as u64);
}

fn run_c19(r: &mut Rng, rec: &mut Rec, i: u64, env: &Env) {
    logging();
    // Each of the eight threads gets eight of these
    if i < 64 {
        many_times(rec, if env.cases.is_some() { 20 } else { 9_000 });
        rare_many_times(rec, i, if env.cases.is_some() { 10 } else { 5_000 });
    }
    let s = text(r);
    rec.input(&s);
    rec.eval();
    if s.len() >= 3 {
        rec.nontrivial(s.as_bytes());
    }
    if i < 60 {
        rec.sample(&s);
    }
    let want = match fresh(env, &s) {
        Some(w) => w,
        None => return rec.count("child_failed"),
    };
    rec.count("fresh_processes");
    let first = parts(&s);
    rec.count(if first[0].1.starts_with("error") { "rejected" } else { "accepted" });
    if !compare(rec, "the first time here", &want, &first, &first) {
        return;
    }
    let n = if r.one_in(10) { 400 } else { 20 };
    failures(r, n);
    if !same(rec, "after readings that failed", &s, &want, &first) {
        return;
    }
    rec.count("after_failures");
    // Logging is for everybody in the process
    if r.one_in(2) {
        log::set_max_level(log::LevelFilter::Trace);
        let ok = same(rec, "with logging on", &s, &want, &first);
        log::set_max_level(log::LevelFilter::Off);
        rec.count("logging_on");
        if !ok {
            return;
        }
    }
    if i < 400 {
        rec.max("log_records", RECORDS.load(Ordering::Relaxed));
        let n = RECORDS.load(Ordering::Relaxed);
        if n > 0 {
            rec.count("log_records");
        }
    }
    // Inside of a larger buffer
    let pre = &gen::string(r);
    let post = r.pick(&["\"", "]", "}", "\n", "1", "x", "EOF\n", "/*", "\\", "é"]);
    let big = format!("{}{}{}", pre, s, post);
    if !same(rec, "from a part of a buffer", &big[pre.len()..pre.len() + s.len()], &want, &first) {
        return;
    }
    rec.count("inside_a_buffer");
    // Other texts in between, also ones that differ in a single character
    let near = mutate(r, &s);
    let _ = parts(&near);
    let _ = parts(&text(r));
    if !same(rec, "after similar texts", &s, &want, &first) {
        return;
    }
    rec.count("repeated");
    if !reused_buffer(r, rec, &s) {
        return;
    }
    if i % 8 == 0 {
        concurrent(r, rec, &s, &want, &first);
    }
}

fn of_bytes(b: &[u8]) -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    let mut put = |name: &'static str, f: &dyn Fn() -> String| {
        let t = match guard(f) {
            Ok(t) => t,
            Err(e) => format!("panic {}", e),
        };
        v.push((name, t));
    };
    put("parse_slice", &|| match ferrous_chloride::parse_slice(b) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    put("value::from_slice", &|| match value::from_slice(b, None) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    put("parse_reader", &|| match ferrous_chloride::parse_reader(b) {
        Ok(b) => format!("{:?}", b),
        Err(e) => format!("error {}", e),
    });
    if let Ok(s) = std::str::from_utf8(b) {
        put("parse_str", &|| match ferrous_chloride::parse_str(s) {
            Ok(b) => format!("{:?}", b),
            Err(e) => format!("error {}", e),
        });
        put("value::from_str", &|| match value::from_str(s, None) {
            Ok(b) => format!("{:?}", b),
            Err(e) => format!("error {}", e),
        });
        put("expression", &|| match Expression::parse(s) {
            Ok(b) => format!("{:?}", b),
            Err(e) => format!("error {}", e),
        });
    }
    v
}

/// One buffer, read, overwritten in place with as many other bytes, and read again
fn reused_buffer(r: &mut Rng, rec: &mut Rec, s: &str) -> bool {
    let mut b = s.as_bytes().to_vec();
    let one = r.one_in(2);
    let _ = if one { vec![] } else { of_bytes(&b) };
    for _ in 0..2 {
        if b.is_empty() {
            return true;
        }
        // With nothing else read in between
        let _ = guard(|| ferrous_chloride::parse_slice(&b).is_ok());
        let at = r.below(b.len());
        b[at] = match r.below(4) {
            0 => 0xff,
            1 => 0xc3,
            2 => r.pickc(b"\n\"\\ {}[]=#1axE"),
            _ => b[at] ^ 1,
        };
        let (now, then) = if one {
            let f = |b: &[u8]| match guard(|| ferrous_chloride::parse_slice(b).map(|t| format!("{:?}", t)).map_err(|e| e.to_string())) {
                Ok(t) => vec![("parse_slice", format!("{:?}", t))],
                Err(e) => vec![("parse_slice", e)],
            };
            (f(&b), f(&b.clone()))
        } else {
            (of_bytes(&b), of_bytes(&b.clone()))
        };
        rec.eval();
        rec.count("buffers_overwritten");
        if std::str::from_utf8(&b).is_err() {
            rec.count("overwritten_invalid");
            for (name, t) in &now {
                if !rec.check(t.starts_with("error") || t.starts_with("Err"), "differs", || format!("{} accepts a buffer that has become invalid: {}", name, t)) {
                    return false;
                }
            }
        }
        for ((name, a), (_, c)) in now.iter().zip(&then) {
            if !rec.check(a == c, "differs", || format!("{} of a buffer that was overwritten in place, {:?}\nthere: {}\nin a copy: {}", name, String::from_utf8_lossy(&b), a, c)) {
                return false;
            }
        }
        if std::str::from_utf8(&b).is_err() {
            b[at] = b'x';
        }
    }
    true
}

fn concurrent(r: &mut Rng, rec: &mut Rec, s: &str, want: &[u64], first: &[(&'static str, String)]) {
    let n = 8;
    let go = Arc::new(Barrier::new(n));
    let turn = Arc::new(AtomicU64::new(0));
    let near = mutate(r, s);
    let mut hs = vec![];
    for k in 0..n {
        let (go, s, near, turn) = (go.clone(), s.to_string(), near.clone(), turn.clone());
        let mut r = Rng::new(r.next(), "C19t", k as u64);
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    go.wait();
                    let mut out = vec![];
                    let mut order = vec![];
                    for _ in 0..3 {
                        match r.below(4) {
                            0 => failures(&mut r, 5),
                            1 => {
                                let _ = parts(&near);
                            }
                            2 => std::thread::yield_now(),
                            _ => {}
                        }
                        out.push(parts(&s));
                        order.push(turn.fetch_add(1, Ordering::SeqCst));
                    }
                    (out, order)
                })
                .unwrap(),
        );
    }
    let mut order = vec![];
    for h in hs {
        let (out, o) = match h.join() {
            Ok(x) => x,
            Err(_) => return rec.fail("panic", "a thread panicked"),
        };
        order.extend(o);
        for got in out {
            rec.eval();
            rec.count("concurrent_readings");
            if !compare(rec, "among other threads", want, first, &got) {
                return;
            }
        }
    }
    // Which thread finished when: distinct interleavings
    let h = hash_bytes(format!("{:?}", order).as_bytes());
    if rec.distinct.insert(h ^ 0x5eed) {
        rec.count("orders_seen");
    }
}
