//! A small workload for Miri: mirimon SEED CASES
#![allow(dead_code)]
mod anyv;
mod gen;
mod model;
mod rng;
mod props {
    pub mod exercise;
    pub mod mem;
}
use props::mem;
use rng::{hash_bytes, Rng};

const FIXED: &[&str] = &[
    "a = 1\nb \"x\" {\n c = [1, 2.5, \"s\", null, true]\n}\nb \"x\" {\n}\nb \"x\" \"y\" {\n}\nb {\n}\n",
    "a = <<-E\n    x\n  é\n\n  E\nb = <<E\nx\nE\n",
    "a = { k = \"\\u00e9\\n\\x41\\101\", (1) = 2, \"q\" = {} }\nb {}\nb z {}\nb z z {}\n",
    "a = [[[]], {}, (1)] # c\n/* d */ e = -1.5e-3\n",
    "a = \"\\",
    "a = <<-E\n  藏\n E",
    "b x y {\nb x y {\n}\n}\nc {\n}\nb x {\n}\n",
];

/// What Miri gets to see of one text: far less than AddressSanitizer, it is ten thousand times slower
fn one(s: &str, i: usize) -> usize {
    let mut n = mem::ownership(s) + mem::grouping(s, i) + mem::delivering(s);
    if let Ok(a) = ferrous_chloride::from_str::<anyv::A>(s) {
        n += format!("{:?}", a).len();
    }
    n
}

/// mirimon SEED FROM TO: cases FROM..TO, the first ones being the fixed texts
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[1].parse().unwrap();
    let from: u64 = args[2].parse().unwrap();
    let to: u64 = args[3].parse().unwrap();
    for i in from..to {
        let mut r = Rng::new(seed, "miri", i);
        let s = match FIXED.get(i as usize) {
            Some(s) => s.to_string(),
            None => {
                let mut s = mem::text(&mut r, 4);
                while s.len() > 120 || s.len() < 10 {
                    s = mem::text(&mut r, 4);
                }
                if i % 4 == 3 {
                    let cut = (0..=r.below(s.len() + 1)).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
                    s.truncate(cut);
                }
                s
            }
        };
        let n = one(&s, i as usize);
        let mut b = s.clone().into_bytes();
        let at = r.below(b.len() + 1);
        b.insert(at, 0xe2);
        let bad = ferrous_chloride::parse_slice(&b).is_ok();
        eprintln!("mirimon case {} {:x} {} {}", i, hash_bytes(s.as_bytes()), n, bad);
    }
    eprintln!("mirimon done {}", to - from);
}
