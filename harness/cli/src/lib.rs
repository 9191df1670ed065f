//! The command line: `air format`, over the stand-in formatter.
#![allow(dead_code, unused_imports)]
use std::path::{Path, PathBuf};
use symrt::*;

pub mod args {
    use std::path::PathBuf;
    #[derive(Clone, Debug)]
    pub(crate) struct FormatCommand {
        pub paths: Vec<PathBuf>,
        pub check: bool,
        pub force: bool,
        pub stdin_file_path: Option<PathBuf>,
    }
}
#[path = "@REPO@/crates/air/src/status.rs"]
pub mod status;
pub use status::ExitStatus;
#[path = "@REPO@/crates/air/src/commands"]
mod commands {
    pub(crate) mod format;
}
use args::FormatCommand;

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= x == y;
    }
    r
}
/// is `needle` (concrete) in `hay`?
fn has(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
#[derive(Clone, Copy)]
struct Conf {
    crlf: Option<bool>,
    width: usize,
}
/// What formatting gives: the stand-in formatter over the options of the configuration.
fn reference(text: &[u8], c: Conf) -> Result<Vec<u8>, ()> {
    if std::str::from_utf8(text).is_err() {
        return Err(());
    }
    let mut bad = false;
    for b in text {
        bad |= (*b == b'!') | (*b == b'?') | (*b == b'#');
    }
    if bad {
        return Err(());
    }
    let crlf = match c.crlf {
        Some(x) => x,
        None => {
            let mut r = false;
            for (i, b) in text.iter().enumerate() {
                if *b == b'\n' {
                    r = i > 0 && text[i - 1] == b'\r';
                    break;
                }
            }
            r
        }
    };
    let mut out = vec![];
    for b in text {
        match *b {
            b' ' | b'\r' => {}
            b'\n' => {
                if crlf {
                    out.push(b'\r');
                }
                out.push(b'\n')
            }
            b'>' => out.extend(std::iter::repeat_n(b'.', c.width)),
            b => out.push(b),
        }
    }
    Ok(out)
}
mod fd {
    use std::os::fd::AsRawFd;
    unsafe extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    /// points `fd` at a file while `f` runs
    pub fn with<T>(fd: i32, file: std::fs::File, f: impl FnOnce() -> T) -> T {
        use std::io::Write;
        unsafe {
            let old = dup(fd);
            dup2(file.as_raw_fd(), fd);
            let r = f();
            std::io::stdout().flush().unwrap();
            dup2(old, fd);
            r
        }
    }
}
struct Out {
    status: u8, // 0 success, 1 failure, 2 error
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}
/// `air format`, as `main` runs it
fn run(command: FormatCommand, stdin: &[u8]) -> Out {
    let (i, o, e) = (root().join("in"), root().join("out"), root().join("err"));
    std::fs::write(&i, stdin).unwrap();
    let got = fd::with(2, std::fs::File::create(&e).unwrap(), || {
        fd::with(1, std::fs::File::create(&o).unwrap(), || fd::with(0, std::fs::File::open(&i).unwrap(), || commands::format::format(command)))
    });
    let s = match got {
        Ok(s) => s,
        Err(_) => ExitStatus::Error,
    };
    let code = format!("{:?}", std::process::ExitCode::from(s));
    let status = if code == format!("{:?}", std::process::ExitCode::from(0)) {
        0
    } else if code == format!("{:?}", std::process::ExitCode::from(1)) {
        1
    } else {
        check(code == format!("{:?}", std::process::ExitCode::from(255)), 7);
        2
    };
    Out { status, stdout: std::fs::read(o).unwrap(), stderr: std::fs::read(e).unwrap() }
}
const ODD: [&[u8]; 7] = [b"x", b"x y", b"!", b"\xff", b"a\r\nb\n", b">", b""];
/// A small project: what is in it, and what is formatted there.
struct Project {
    base: PathBuf,
    files: Vec<(&'static str, Vec<u8>)>,
    /// why not to format a file: 0 to be formatted, 1 excluded, 2 not included
    why: Vec<u8>,
    conf: Conf,
    broken: bool,
}
fn project(a: Vec<u8>, b: Vec<u8>, conf: usize) -> Project {
    let base = root().join("p");
    std::fs::create_dir(&base).unwrap();
    std::fs::create_dir(base.join("d")).unwrap();
    std::fs::create_dir(base.join("renv")).unwrap();
    let toml = ["", "[format]\nindent-width = 3\nline-ending = \"crlf\"\n", "[format]\nexclude = [\"b.R\"]\nline-ending = \"lf\"\n", "[format]\nindent-width = 0\n"][conf];
    let mut files = vec![("a.R", a), ("d/b.R", b), ("d/notes.txt", b"n m\n".to_vec()), ("renv/act.R", b"s t\n".to_vec())];
    let mut why = vec![0, if conf == 2 { 1 } else { 0 }, 2, 1];
    if conf > 0 {
        files.push(("air.toml", toml.as_bytes().to_vec()));
        why.push(2);
    }
    for (n, t) in &files {
        std::fs::write(base.join(n), t).unwrap();
    }
    let c = [Conf { crlf: None, width: 2 }, Conf { crlf: Some(true), width: 3 }, Conf { crlf: Some(false), width: 2 }, Conf { crlf: None, width: 2 }][conf];
    Project { base, files, why, conf: c, broken: conf == 3 }
}
fn unchanged(p: &Project, id: u64) {
    for (n, t) in &p.files {
        check(eq(&std::fs::read(p.base.join(n)).unwrap(), t), id);
    }
}
fn only_known_files(p: &Project) {
    for (d, n) in [("", if p.files.len() == 5 { 4 } else { 3 }), ("d", 2), ("renv", 1)] {
        check(std::fs::read_dir(p.base.join(d)).unwrap().count() == n, 6);
    }
}
fn contents(max: usize) -> (Vec<u8>, Vec<u8>) {
    let n = len(0, max);
    let x = bytes(n);
    let y = ODD[pick(ODD.len() as u64)].to_vec();
    if flag_fixed() { (x, y) } else { (y, x) }
}
/// `air format PATHS [--check] [--force]`
pub fn h_paths() {
    let max = param(0) as usize;
    let (a, b) = contents(max);
    let p = project(a, b, pick(4));
    let check_only = flag_fixed();
    let force = flag_fixed();
    std::env::set_current_dir(&p.base).unwrap();
    // which of the files the paths lead to
    let all = vec![0, 1, 2, 3, 4];
    let (paths, reach, missing): (Vec<&str>, Vec<usize>, bool) = match pick(8) {
        0 => (vec!["."], all, false),
        1 => (vec!["a.R", "d"], vec![0, 1, 2], false),
        2 => (vec!["no.R", "a.R"], vec![0], true),
        3 => (vec!["d/notes.txt", "renv/act.R"], vec![2, 3], false),
        4 => (vec!["d", "a.R", "d/b.R"], vec![0, 1, 2], false),
        5 => (vec!["renv"], vec![3], false),
        6 => (vec!["d/../a.R"], vec![0], false),
        _ => (vec!["air.toml", "a.R"], vec![0, 4], p.files.len() < 5),
    };
    let absolute = flag_fixed();
    let paths = paths.iter().map(|x| if absolute { p.base.join(x) } else { PathBuf::from(x) }).collect();
    let out = run(FormatCommand { paths, check: check_only, force, stdin_file_path: None }, b"");
    let mut failed = missing;
    let mut changes = false;
    only_known_files(&p);
    check(out.stdout.is_empty(), 5);
    if p.broken {
        unchanged(&p, 1);
        check(out.status == 2, 2);
        cover(true, 1);
        return;
    }
    for (i, (n, t)) in p.files.iter().enumerate() {
        let now = std::fs::read(p.base.join(n)).unwrap();
        let mut want = t;
        let new;
        let mut differs = false;
        if reach.contains(&i) && (force || p.why[i] == 0) {
            match reference(t, p.conf) {
                Ok(x) => {
                    differs = !eq(&x, t);
                    new = x;
                    if !check_only {
                        want = &new;
                    }
                }
                Err(()) => failed = true,
            }
        }
        check(eq(&now, want), 1);
        changes |= differs;
        if check_only {
            check(has(&out.stderr, n.rsplit('/').next().unwrap().as_bytes()) == differs, 4);
        }
    }
    let want = if failed {
        2
    } else if check_only && changes {
        1
    } else {
        0
    };
    check(out.status == want, if check_only { 3 } else { 2 });
    observe(want as u64);
    cover(failed && changes, 2);
    cover(check_only && changes && !failed, 3);
    cover(!check_only && changes && !failed, 4);
    cover(!changes && !failed, 5);
}
/// `air format --stdin-file-path PATH [--check] [--force]`
pub fn h_stdin() {
    let max = param(0) as usize;
    let n = len(0, max);
    let text = bytes(n);
    let p = project(b"a b\n".to_vec(), b"!".to_vec(), pick(4));
    let check_only = flag_fixed();
    let force = flag_fixed();
    let extra = pick(8) == 0;
    std::env::set_current_dir(&p.base).unwrap();
    let ex = p.why[1] == 1;
    let (path, formattable) = match pick(9) {
        0 => ("a.R", true),
        1 => ("d/b.R", !ex),
        2 => ("d/notes.txt", false),
        3 => ("renv/act.R", false),
        4 => ("renv/sub/new.R", false),
        5 => ("new/x.r", true),
        6 => ("new/b.R", !ex),
        7 => ("d/../b.R", !ex),
        _ => ("d", false),
    };
    let formattable = formattable || force;
    let absolute = flag_fixed();
    let path = if absolute { p.base.join(path) } else { PathBuf::from(path) };
    let paths = if extra { vec![PathBuf::from("a.R")] } else { vec![] };
    let out = run(FormatCommand { paths, check: check_only, force, stdin_file_path: Some(path) }, &text);
    unchanged(&p, 10);
    only_known_files(&p);
    observe(out.status as u64);
    if extra || p.broken {
        check(out.status == 2, 11);
        check(out.stdout.is_empty(), 12);
        cover(extra, 1);
        cover(p.broken, 2);
        return;
    }
    if !formattable {
        if std::str::from_utf8(&text).is_err() {
            // an error, or passed through all the same
            check((out.status == 2 && out.stdout.is_empty()) || (out.status == 0 && (check_only || eq(&out.stdout, &text))), 13);
            return;
        }
        check(out.status == 0, 13);
        check(eq(&out.stdout, if check_only { b"" } else { &text }), 14);
        cover(true, 3);
        return;
    }
    match reference(&text, p.conf) {
        Err(()) => {
            check(out.status == 2, 15);
            check(out.stdout.is_empty(), 16);
            cover(true, 4);
        }
        Ok(new) => {
            let differs = !eq(&new, &text);
            let want = if check_only && differs { 1 } else { 0 };
            check(out.status == want, 17);
            check(eq(&out.stdout, if check_only { b"" } else { &new }), 18);
            cover(differs, 5);
            cover(!differs, 6);
        }
    }
}
entries!(h_paths, h_stdin);
