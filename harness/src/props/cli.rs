//! C17: the command line program
use super::total::mutate;
use crate::frame::{guard, Env, Prop, Rec};
use crate::gen::{self, Dialect, GenCfg, Style};
use crate::rng::Rng;
use ferrous_chloride::{value, MergeBehaviour};
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub static C17: Prop = Prop {
    id: "C17",
    rule: "The program is run on generated documents (well formed, mutated, with merge conflicts, empty, not UTF-8, large), read from a file or from a pipe that is fed in pieces, written to a new, existing, longer, linked, input or unwritable file or to standard output, with and without --no-merge, with faults: missing input, directory as input or output, missing output directory, full device, file size limit, closed pipe. The exit status, the files afterwards and the tree printed (compared with what the library returns, maps in any order) are checked. Non-trivial: a run on a document of at least 3 bytes or with a fault; distinct by arguments, fault and document.",
    cases: (3000, 30_000),
    threads: 8,
    run: run_c17,
    need: &[
        "trees_to_file", "trees_to_stdout", "parse_errors", "merge_errors", "merged", "unmerged", "piped_input",
        "replaced_longer_file", "in_place", "output_kept_on_failure", "fault_missing_input", "fault_directory_input",
        "fault_bad_output", "fault_full_output", "fault_full_stdout", "fault_size_limit", "fault_closed_pipe", "not_utf8",
        "usage_errors", "large_trees", "huge_inputs",
    ],
    exhaustive: false,
};

/// Canonical form of `{:#?}`: white space dropped, entries of maps sorted
struct Dbg<'a> {
    b: &'a [u8],
    at: usize,
}

impl<'a> Dbg<'a> {
    fn ws(&mut self) {
        while self.at < self.b.len() && (self.b[self.at] as char).is_ascii_whitespace() {
            self.at += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.at).unwrap_or(&0)
    }
    fn string(&mut self) -> Result<String, String> {
        let from = self.at;
        self.at += 1;
        loop {
            match self.peek() {
                0 if self.at >= self.b.len() => return Err("unterminated string".into()),
                b'\\' => self.at += 2,
                b'"' => {
                    self.at += 1;
                    return Ok(String::from_utf8_lossy(&self.b[from..self.at]).into_owned());
                }
                _ => self.at += 1,
            }
        }
    }
    fn list(&mut self, close: u8, sort: bool) -> Result<String, String> {
        self.at += 1;
        let mut items = vec![];
        loop {
            self.ws();
            if self.peek() == close {
                self.at += 1;
                break;
            }
            let mut v = self.value()?;
            self.ws();
            if self.peek() == b':' {
                self.at += 1;
                self.ws();
                let w = self.value()?;
                v = format!("{}:{}", v, w);
                self.ws();
            }
            items.push(v);
            match self.peek() {
                b',' => self.at += 1,
                c if c == close => {}
                c => return Err(format!("unexpected {:?} at byte {}", c as char, self.at)),
            }
        }
        if sort {
            items.sort();
        }
        Ok(items.join(","))
    }
    fn value(&mut self) -> Result<String, String> {
        self.ws();
        let mut out = String::new();
        let from = self.at;
        match self.peek() {
            b'"' => return self.string(),
            b'[' => return Ok(format!("[{}]", self.list(b']', false)?)),
            b'{' => return Ok(format!("{{{}}}", self.list(b'}', true)?)),
            b'(' => return Ok(format!("({})", self.list(b')', false)?)),
            _ => {
                while {
                    let c = self.peek();
                    c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'+' || c == b'.'
                } {
                    self.at += 1;
                }
            }
        }
        if self.at == from {
            return Err(format!("unexpected {:?} at byte {}", self.peek() as char, self.at));
        }
        out.push_str(&String::from_utf8_lossy(&self.b[from..self.at]));
        let here = self.at;
        self.ws();
        match self.peek() {
            b'(' => out.push_str(&format!("({})", self.list(b')', false)?)),
            b'{' => out.push_str(&format!("{{{}}}", self.list(b'}', true)?)),
            _ => self.at = here,
        }
        Ok(out)
    }
}

pub fn canon(b: &[u8]) -> Result<String, String> {
    let mut d = Dbg { b, at: 0 };
    let v = d.value()?;
    d.ws();
    if d.at != b.len() {
        return Err(format!("more text after the tree, at byte {} of {}", d.at, b.len()));
    }
    Ok(v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    File,
    Pipe,
    PipeDefault,
    Missing,
    Dir,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    New,
    Existing,
    Longer,
    Symlink,
    InPlace,
    Stdout,
    StdoutDefault,
    Dir,
    NoDir,
    Full,
    FullStdout,
    /// The file may not grow beyond so many bytes
    Limit,
    ClosedPipe,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
    hung: bool,
}

fn drain<R: Read + Send + 'static>(r: Option<R>) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut v = vec![];
        if let Some(mut r) = r {
            let _ = r.read_to_end(&mut v);
        }
        v
    })
}

/// No child is started while the reading end of the broken pipe is open
static STARTING: std::sync::RwLock<()> = std::sync::RwLock::new(());

/// The writing end of a pipe nobody reads
fn broken_pipe() -> File {
    use std::os::unix::io::FromRawFd;
    let _lock = STARTING.write().unwrap_or_else(|e| e.into_inner());
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            panic!("harness: pipe");
        }
        libc::close(fds[0]);
        File::from_raw_fd(fds[1])
    }
}

fn spawn(cli: &str, args: &[&str], cwd: &Path, input: Option<(Vec<u8>, Vec<usize>)>, stdout: Option<File>, limit: Option<u64>) -> Ran {
    let mut c = Command::new(cli);
    c.args(args).current_dir(cwd).stderr(Stdio::piped()).env_clear();
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    match stdout {
        Some(f) => c.stdout(Stdio::from(f)),
        None => c.stdout(Stdio::piped()),
    };
    unsafe {
        c.pre_exec(move || {
            if let Some(n) = limit {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit {
                    rlim_cur: n,
                    rlim_max: n,
                };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let started = {
        let _lock = STARTING.read().unwrap_or_else(|e| e.into_inner());
        c.spawn()
    };
    let mut p = match started {
        Ok(p) => p,
        Err(e) => panic!("harness: cannot start {}: {}", cli, e),
    };
    let out = drain(p.stdout.take());
    let err = drain(p.stderr.take());
    let feeder = p.stdin.take().map(|mut w| {
        let (b, cuts) = input.unwrap();
        std::thread::spawn(move || {
            let mut at = 0;
            for c in cuts {
                let to = (at + c.max(1)).min(b.len());
                if w.write_all(&b[at..to]).is_err() {
                    return;
                }
                at = to;
                std::thread::sleep(Duration::from_micros(300));
            }
            let _ = w.write_all(&b[at..]);
        })
    });
    let t = Instant::now();
    let mut hung = false;
    let st = loop {
        match p.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t.elapsed() > Duration::from_secs(120) => {
                hung = true;
                let _ = p.kill();
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(500)),
            Err(e) => panic!("harness: wait: {}", e),
        }
    };
    if let Some(f) = feeder {
        let _ = f.join();
    }
    Ran {
        code: st.code(),
        signal: st.signal(),
        out: out.join().unwrap_or_default(),
        err: err.join().unwrap_or_default(),
        hung,
    }
}

fn document(r: &mut Rng, rec: &mut Rec) -> Vec<u8> {
    let style = Style {
        dialect: if r.one_in(3) { Dialect::Legacy } else { Dialect::Common },
        wild: !r.one_in(4),
        parens: false,
        heredocs: true,
        escapes: true,
    };
    let mut budget = r.size(60) + 2;
    let cfg = GenCfg {
        dup_names: r.one_in(3),
        ..GenCfg::COMMON
    };
    if r.one_in(60) {
        // An input as large as (or larger than) any buffer; what it says stands at its ends
        rec.count("huge_inputs");
        let n = (1usize << r.range(12, 24)) + r.below(5) - 2;
        let d = gen::body(r, &cfg, 0, &mut budget);
        let (s, _) = gen::render(r, &d, style);
        let head = if r.one_in(2) { "first = 1\n" } else { "" };
        let (open, close) = r.pickc(&[("/*", "*/"), ("/*", "*/"), ("# ", "\n"), ("huge = \"", "\"\n")]);
        let fill = n.saturating_sub(head.len() + open.len() + close.len());
        let mut b = format!("{}{}{}{}{}", head, open, "x".repeat(fill), close, s).into_bytes();
        match r.below(4) {
            0 => b.extend(b"\nlast = "),
            1 => b.extend(b"\n\xff\n"),
            _ => b.extend(b"\nlast = 2\n"),
        }
        return b;
    }
    match r.below(12) {
        0 => vec![],
        1 => {
            let d = gen::body(r, &cfg, 0, &mut budget);
            let mut b = gen::render(r, &d, style).0.into_bytes();
            let at = r.below(b.len() + 1);
            b.insert(at, r.pickc(&[0xff, 0xc3, 0x80, 0xf0, 0xed]));
            b
        }
        2..=4 => {
            let d = gen::body(r, &cfg, 0, &mut budget);
            let (s, _) = gen::render(r, &d, style);
            mutate(r, &s).into_bytes()
        }
        6 => {
            let d = gen::body(r, &cfg, 0, &mut budget);
            let (s, _) = gen::render(r, &d, style);
            let dup = r.pick(&["dup = 1\ndup = 2\n", "b \"x\" {\n}\nb \"x\" {\n}\n", "m = {\nk = 1\nk = 1\n}\n", "b x {\ny = 1\n}\nb x {\ny = 2\n}\n"]);
            format!("{}{}", dup, s).into_bytes()
        }
        5 => {
            // A tree far larger than any buffer
            rec.count("large_trees");
            let n = r.range(300, 1200);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("k{} = [\"{}\", {}]\n", i, "x".repeat(i % 50), i));
            }
            s.into_bytes()
        }
        _ => {
            let d = gen::body(r, &cfg, 0, &mut budget);
            gen::render(r, &d, style).0.into_bytes()
        }
    }
}

fn usage(r: &mut Rng, rec: &mut Rec, dir: &Path, cli: &str) {
    let args: &[&[&str]] = &[
        &[],
        &["nonsense"],
        &["parse", "--nonsense"],
        &["parse", "in", "out", "third"],
        &["parse", "--merge"],
        &["--no-merge", "in", "out"],
        &["parse", ""],
        &["parse", "in", ""],
    ];
    let a = args[r.below(args.len())];
    fs::write(dir.join("in"), "a = 1\n").unwrap();
    fs::write(dir.join("out"), "precious").unwrap();
    rec.input(&format!("{:?}", a));
    rec.nontrivial(format!("{:?}", a).as_bytes());
    let x = spawn(cli, a, dir, None, None, None);
    rec.count("usage_errors");
    rec.check(x.code.map_or(false, |c| c != 0), "exit-status", || format!("{:?} ends with {:?} {:?}", a, x.code, x.signal));
    rec.check(fs::read(dir.join("out")).ok() == Some(b"precious".to_vec()), "output-clobbered", || format!("{:?} changed the file out", a));
    rec.check(fs::read(dir.join("in")).ok() == Some(b"a = 1\n".to_vec()), "input-changed", || format!("{:?} changed the file in", a));
}

fn run_c17(r: &mut Rng, rec: &mut Rec, i: u64, env: &Env) {
    rec.eval();
    if env.cli.is_empty() {
        panic!("harness: no program");
    }
    let dir = PathBuf::from(&env.work).join(format!("c{}", i));
    fs::create_dir(&dir).expect("harness: scratch directory");
    let res = guard(|| {
        if i % 40 == 39 {
            usage(r, rec, &dir, &env.cli)
        } else {
            one(r, rec, &dir, i, env)
        }
    });
    fs::remove_dir_all(&dir).expect("harness: scratch directory");
    if let Err(e) = res {
        panic!("{}", e);
    }
}

fn one(r: &mut Rng, rec: &mut Rec, dir: &Path, i: u64, env: &Env) {
    let doc = document(r, rec);
    rec.input_bytes(&doc);
    let no_merge = r.one_in(2);
    let merge = if no_merge { None } else { Some(MergeBehaviour::Error) };
    // What the library makes of it
    let lib: Result<String, String> = match guard(|| value::from_reader(&doc[..], merge).map(|b| format!("{:#?}\n", b)).map_err(|e| e.to_string())) {
        Ok(x) => x,
        // That is a matter for another property
        Err(_) => return rec.count("library_panics"),
    };
    let input = match r.below(12) {
        0..=4 => In::File,
        5..=7 => In::Pipe,
        8..=9 => In::PipeDefault,
        10 => In::Missing,
        _ => In::Dir,
    };
    let out = match r.below(18) {
        0..=2 => Out::New,
        3 => Out::Existing,
        4 | 5 => Out::Longer,
        6 => Out::Symlink,
        7 | 8 if input == In::File => Out::InPlace,
        7..=9 => Out::Stdout,
        10 | 11 => Out::StdoutDefault,
        12 => Out::Dir,
        13 => Out::NoDir,
        14 => Out::Full,
        15 => Out::FullStdout,
        16 => Out::Limit,
        _ => Out::ClosedPipe,
    };
    let inpath = dir.join("in.hcl");
    let outpath = dir.join("out.txt");
    let (in_arg, piped) = match input {
        In::File => {
            fs::write(&inpath, &doc).unwrap();
            ("in.hcl", false)
        }
        In::Pipe | In::PipeDefault => ("-", true),
        In::Missing => ("missing.hcl", false),
        In::Dir => {
            fs::create_dir(dir.join("d")).unwrap();
            ("d", false)
        }
    };
    let before: Option<Vec<u8>> = match out {
        Out::Existing | Out::Limit => Some(b"precious\n".to_vec()),
        Out::Longer => Some(vec![b'#'; lib.as_ref().map_or(3000, |t| t.len() + 1 + r.below(5000))]),
        Out::Symlink => Some(b"behind a link".to_vec()),
        Out::InPlace => Some(doc.clone()),
        _ => None,
    };
    let target = match out {
        Out::InPlace => inpath.clone(),
        Out::Symlink => dir.join("real.txt"),
        _ => outpath.clone(),
    };
    if let Some(b) = &before {
        fs::write(&target, b).unwrap();
    }
    let out_arg = match out {
        Out::New | Out::Existing | Out::Longer | Out::Limit => "out.txt",
        Out::Symlink => {
            std::os::unix::fs::symlink("real.txt", &outpath).unwrap();
            "out.txt"
        }
        Out::InPlace => "in.hcl",
        Out::Dir => {
            fs::create_dir(dir.join("e")).unwrap();
            "e"
        }
        Out::NoDir => "no/such/out.txt",
        Out::Full => "/dev/full",
        Out::Stdout | Out::FullStdout | Out::ClosedPipe | Out::StdoutDefault => "-",
    };
    let mut args: Vec<&str> = vec![];
    let defaults = out == Out::StdoutDefault;
    if !(defaults && input == In::PipeDefault) {
        args.push(in_arg);
        if !defaults {
            args.push(out_arg);
        }
    }
    if no_merge {
        let at = r.below(args.len() + 1);
        args.insert(at, "--no-merge");
    }
    args.insert(0, "parse");
    let stdout = if out == Out::ClosedPipe {
        Some(broken_pipe())
    } else if out == Out::FullStdout {
        Some(OpenOptions::new().write(true).open("/dev/full").expect("harness: /dev/full"))
    } else {
        None
    };
    let feed = if piped {
        rec.count("piped_input");
        let cuts = (0..r.below(6)).map(|_| r.size(200)).collect();
        Some((doc.clone(), cuts))
    } else {
        None
    };
    let read_fails = matches!(input, In::Missing | In::Dir);
    let tree = if read_fails { None } else { lib.as_ref().ok() };
    let limit = match (out, tree) {
        (Out::Limit, Some(t)) => Some(r.below(t.len()) as u64),
        (Out::Limit, None) => Some(3),
        _ => None,
    };
    let what = format!("{:?} input {:?} output {:?}", args, input, out);
    rec.nontrivial(format!("{}{:?}", what, doc).as_bytes());
    if i < 60 {
        rec.sample(&format!("{} on {:?}", what, String::from_utf8_lossy(&doc)));
    }
    let x = spawn(&env.cli, &args, dir, feed, stdout, limit);
    rec.count("runs");
    if !rec.check(!x.hung, "hang", || format!("{} does not end", what)) {
        return;
    }
    let tell = || format!("{}: ends with {:?} {:?}, prints {:?} {:?}; the library says {}", what, x.code, x.signal, clip(&x.out), clip(&x.err), match (&lib, read_fails) {
        (_, true) => "nothing".into(),
        (Ok(_), _) => "fine".into(),
        (Err(e), _) => clip(e.as_bytes()),
    });
    let write_fails = matches!(out, Out::Dir | Out::NoDir | Out::Full | Out::FullStdout | Out::Limit | Out::ClosedPipe);
    let ok = tree.is_some() && !write_fails;
    rec.check((x.code == Some(0)) == ok, "exit-status", tell);
    // Dying of a panic (or a signal) is no way to report a document or file that is wrong
    let told = if matches!(out, Out::FullStdout | Out::ClosedPipe) { true } else { ok || x.code == Some(1) };
    rec.check(told, "exit-status", tell);
    let now = fs::read(&target).ok();
    if ok {
        let tree = tree.unwrap();
        let got = match out {
            Out::Stdout | Out::StdoutDefault => {
                rec.count("trees_to_stdout");
                x.out.clone()
            }
            _ => {
                rec.count("trees_to_file");
                rec.check(x.out.is_empty(), "stray-output", tell);
                now.clone().unwrap_or_default()
            }
        };
        let same = match (canon(&got), canon(tree.as_bytes())) {
            (Ok(a), Ok(b)) => a == b && got.len() == tree.len() && got.last() == Some(&b'\n'),
            (_, Err(e)) => panic!("harness: {}", e),
            (Err(_), _) => false,
        };
        rec.check(same, "tree", || format!("{}\nexpected {:?}\ngot      {:?}", what, clip(tree.as_bytes()), clip(&got)));
        rec.count(if no_merge { "unmerged" } else { "merged" });
        match out {
            Out::Longer => rec.count("replaced_longer_file"),
            Out::InPlace => rec.count("in_place"),
            Out::Symlink => {
                rec.check(fs::read_link(&outpath).is_ok(), "link-replaced", tell);
            }
            _ => {}
        }
    } else if tree.is_none() {
        // Nothing may have been written
        rec.check(now == before, "output-clobbered", || format!("{}\nthe output file had {:?} and has {:?}", tell(), before.as_ref().map(|b| clip(b)), now.as_ref().map(|b| clip(b))));
        if before.is_some() {
            rec.count("output_kept_on_failure");
        }
        match input {
            In::Missing => rec.count("fault_missing_input"),
            In::Dir => rec.count("fault_directory_input"),
            _ => {
                if std::str::from_utf8(&doc).is_err() {
                    rec.count("not_utf8");
                } else if !no_merge && guard(|| value::from_reader(&doc[..], None).is_ok()) == Ok(true) {
                    rec.count("merge_errors");
                } else {
                    rec.count("parse_errors");
                }
            }
        }
        if !matches!(out, Out::FullStdout | Out::ClosedPipe) {
            rec.check(!x.out.is_empty() || !x.err.is_empty(), "silent-failure", tell);
            rec.check(canon(&x.out).is_err() || lib.is_err() || read_fails, "stray-output", tell);
        }
    } else {
        match out {
            Out::Dir | Out::NoDir => rec.count("fault_bad_output"),
            Out::Full => rec.count("fault_full_output"),
            Out::FullStdout => rec.count("fault_full_stdout"),
            Out::Limit => rec.count("fault_size_limit"),
            _ => rec.count("fault_closed_pipe"),
        }
        if matches!(out, Out::Dir | Out::NoDir | Out::Full | Out::Limit) {
            rec.check(!x.out.is_empty() || !x.err.is_empty(), "silent-failure", tell);
        }
    }
    if input == In::File && out != Out::InPlace {
        rec.check(fs::read(&inpath).ok().as_ref() == Some(&doc), "input-changed", tell);
    }
    // Nothing else appears
    let mut names: Vec<String> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    names.retain(|n| !matches!(n.as_str(), "in.hcl" | "d" | "e" | "real.txt") && !(n == "out.txt" && (ok || before.is_some()) && out_arg == "out.txt"));
    rec.check(names.is_empty() || (names == ["out.txt"] && out == Out::Limit), "stray-file", || format!("{}: {:?}", tell(), names));
}

fn clip(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(600).collect()
}
