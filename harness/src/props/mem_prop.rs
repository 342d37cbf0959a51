//! C20 under AddressSanitizer
use super::{mem, total};
use crate::frame::{Env, Prop, Rec};
use crate::gen;
use crate::rng::Rng;

pub static C20: Prop = Prop {
    id: "C20",
    rule: "With AddressSanitizer in the crate and the harness: generated, mutated and malformed texts and bytes, each in a heap block of exactly its size, go through every interface and everything callable on the results; every text in a result is checked to be UTF-8, also where the bad bytes come after tens of kilobytes of good ones; owned results are read after the input is freed and its place reused; what is taken out of a tree, or delivered from it, is read after the tree is gone; blocks are grouped and appended in several orders; iterators are left half way. The workloads of fourteen other properties run under AddressSanitizer, too, with only memory errors counting. Miri then interprets a smaller workload of the same kind. Any report is a violation. Non-trivial: a text of at least 3 bytes; distinct by text.",
    cases: (30_000, 1_000_000),
    threads: 8,
    run,
    need: &["owned_results_read", "delivered_texts_read", "grouped", "invalid_utf8", "mutated", "far_bad_bytes", "texts_checked_in_results"],
    exhaustive: false,
};

fn run(r: &mut Rng, rec: &mut Rec, i: u64, _env: &Env) {
    rec.eval();
    let mut s = match r.below(6) {
        0 => total::soup(r),
        1 => total::heredoc_soup(r),
        2 => format!("{} = {}\n", gen::ident(r), gen::quote(r, "x é 藏", false, true)),
        _ => mem::text(r, 60),
    };
    if r.one_in(3) {
        s = total::mutate(r, &s);
        rec.count("mutated");
    }
    rec.input(&s);
    if s.len() >= 3 {
        rec.nontrivial(s.as_bytes());
    }
    if i < 60 {
        rec.sample(&s);
    }
    mem::all(&s, i as usize);
    if mem::ownership(&s) > 4 {
        rec.count("owned_results_read");
    }
    if mem::delivering(&s) > 8 {
        rec.count("delivered_texts_read");
    }
    if mem::grouping(&s, i as usize) > 0 {
        rec.count("grouped");
    }
    let mut b = s.into_bytes();
    for _ in 0..r.range(1, 3) {
        let at = r.below(b.len() + 1);
        b.insert(at, r.pickc(&[0xff, 0xc3, 0xe2, 0xf0, 0x80, 0xed, 0xf4]));
    }
    // The bad bytes far from the start, too
    if i % 6 == 0 {
        let n = r.pickc(&[60usize, 250, 1000, 4000, 8100, 33_000, 66_000]) + r.below(200);
        let text = match r.below(4) {
            0 => format!("# {}\n", "x".repeat(n)),
            1 => "\n".repeat(n),
            2 => format!("a = \"{}\"\n", "x".repeat(n)),
            _ => format!("/* {} */", "藏 x".repeat(n / 3)),
        };
        let mut c = text.into_bytes();
        match r.below(3) {
            0 => c.extend_from_slice(&b),
            1 => {
                // In a text that ends up in the result
                let bad = r.pickc(&[0xff, 0xc3, 0xe2, 0xf0, 0x80, 0xed, 0xf4]);
                match r.below(4) {
                    0 => c.extend_from_slice(&[b'k', b' ', b'=', b' ', b'"', bad, b'"', b'\n']),
                    1 => c.extend_from_slice(&[b'b', b' ', b'"', bad, b'x', b'"', b' ', b'{', b'\n', b'}', b'\n']),
                    2 => c.extend_from_slice(&[b'k', b' ', b'=', b' ', b'<', b'<', b'E', b'\n', bad, b'\n', b'E', b'\n']),
                    _ => c.extend_from_slice(&[b'"', bad, b'"', b' ', b'=', b' ', b'1', b'\n']),
                }
            }
            _ => {
                c.extend_from_slice(&b);
                c.extend(std::iter::repeat(b'\n').take(n));
            }
        }
        rec.count("far_bad_bytes");
        b = c;
    }
    let b = b.into_boxed_slice();
    if i % 3 == 0 {
        let t = mem::texts(&b);
        rec.max("texts_checked", t.seen as u64);
        if let Some(bad) = t.bad {
            rec.fail("invalid-text", format!("A result holds a str that is not UTF-8: {:x?}", &bad[..bad.len().min(40)]));
        }
        let t = mem::texts(rec.input.clone().as_bytes());
        if t.seen > 0 {
            rec.count("texts_checked_in_results");
        }
        if let Some(bad) = t.bad {
            rec.fail("invalid-text", format!("A result holds a str that is not UTF-8: {:x?}", &bad[..bad.len().min(40)]));
        }
    }
    if std::str::from_utf8(&b).is_err() {
        rec.count("invalid_utf8");
    }
    super::exercise::bytes_entry_points(&b);
}
