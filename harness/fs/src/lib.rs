//! Path helpers: R extension, normalisation, relativisation.
use std::path::{Path, PathBuf};
use symrt::*;

fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'/' {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(b[i]);
        }
    }
    v
}
/// lexical resolution against `base` (the components of the working directory)
fn resolve(p: &[u8], base: &[Vec<u8>]) -> Vec<u8> {
    let mut st: Vec<Vec<u8>> = if p.first() == Some(&b'/') { Vec::new() } else { base.to_vec() };
    for c in split(p) {
        if c.len() == 1 && c[0] == b'.' {
            continue;
        }
        if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
            st.pop();
            continue;
        }
        st.push(c);
    }
    let mut out = Vec::new();
    for c in &st {
        out.push(b'/');
        out.extend_from_slice(c);
    }
    if out.is_empty() {
        out.push(b'/');
    }
    out
}
fn bytes_of(p: &Path) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    p.as_os_str().as_bytes().to_vec()
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
fn one(p: &str) {
    let cwd = bytes_of(&std::env::current_dir().unwrap());
    let base = split(&cwd);
    let n = fs::normalize_path(p);
    let want = resolve(p.as_bytes(), &base);
    let got = bytes_of(&n);
    // 1: an absolute path without `.` and `..`, resolved lexically against the working directory
    check(got.len() >= 1 && got[0] == b'/', 2);
    // compared as paths (component by component)
    let gs = split(&got);
    let ws = split(&want);
    check(gs.len() == ws.len(), 1);
    for i in 0..gs.len() {
        check(eq(&gs[i], &ws[i]), 1);
    }
    // 3: stable
    let n2 = fs::normalize_path(&n);
    check(n2 == n, 3);
    // 4: showing a path relative to the working directory still names the same file
    let r = fs::relativize_path(&n);
    check(fs::normalize_path(&r) == n, 4);
    let r8 = r.as_bytes();
    let inside = ws.len() >= base.len() && (0..base.len()).all(|i| eq(&ws[i], &base[i]));
    check((r8.first() == Some(&b'/')) == !inside, 5);
    if inside {
        let rs: Vec<Vec<u8>> = split(r8).into_iter().filter(|c| !eq(c, b".")).collect();
        check(rs.len() == ws.len() - base.len(), 6);
        for i in 0..rs.len() {
            check(eq(&rs[i], &ws[base.len() + i]), 6);
        }
    }
    observe(inside as u64);
    if inside {
        observe((ws.len() - base.len()) as u64);
    }
    cover(inside && ws.len() > base.len(), 1);
    cover(!inside, 2);
    cover(ws.is_empty() && p.as_bytes().first() == Some(&b'/') && p.len() < 5, 3);
    cover(split(p.as_bytes()).iter().any(|c| eq(c, b"..")) && inside, 4);
}
fn h_paths() {
    let n = len(0, param(0) as usize);
    let p = over(b"/.ab", n);
    one(&p);
}
/// paths which start with the working directory, or nearly so
fn h_cwd() {
    let cwd = std::env::current_dir().unwrap();
    let mut s = cwd.to_str().unwrap().to_string();
    let n = len(0, param(0) as usize);
    s.push_str(&over(b"/.a", n));
    one(&s);
}
/// relative to the working directory when inside it, otherwise unchanged
fn h_relativize() {
    let n = len(0, param(0) as usize);
    let p = string_exact(n);
    let mut s = String::new();
    let inside = flag_fixed();
    let cwd = std::env::current_dir().unwrap();
    if inside {
        s.push_str(cwd.to_str().unwrap());
    }
    s.push('/');
    s.push_str(&p);
    let r = fs::relativize_path(&s);
    if inside {
        let rs: Vec<Vec<u8>> = split(r.as_bytes()).into_iter().filter(|c| !eq(c, b".")).collect();
        let ps: Vec<Vec<u8>> = split(p.as_bytes()).into_iter().filter(|c| !eq(c, b".")).collect();
        check(rs.len() == ps.len(), 7);
        for i in 0..rs.len() {
            check(eq(&rs[i], &ps[i]), 7);
        }
        cover(ps.len() > 1, 1);
        cover(p.len() != p.chars().count(), 3);
    } else {
        // (the working directory itself has at least one component and is not among these)
        let c = split(&bytes_of(&std::env::current_dir().unwrap()));
        let ss: Vec<Vec<u8>> = split(s.as_bytes()).into_iter().filter(|c| !eq(c, b".")).collect();
        if !(ss.len() >= 1 && eq(&ss[0], &c[0])) {
            check(eq(r.as_bytes(), s.as_bytes()), 8);
            cover(true, 2);
        }
    }
}
fn h_ext() {
    let n = len(0, param(0) as usize);
    let e = string_exact(n);
    let b = e.as_bytes();
    let want = b.len() == 1 && (b[0] == b'r' || b[0] == b'R');
    check(fs::is_r_extension(&e) == want, 10);
    cover(want, 1);
    cover(!want, 2);
    observe(want as u64);
}
fn h_has() {
    use std::os::unix::ffi::OsStrExt;
    let n = len(0, param(0) as usize);
    let any = flag_fixed();
    let v: Vec<u8> = if any { bytes(n) } else { over(b"a/.rR", n).into_bytes() };
    for b in &v {
        assume(*b != 0);
    }
    let p = PathBuf::from(std::ffi::OsStr::from_bytes(&v));
    // the last component which is not `.`; the text after its last dot, when something precedes that dot
    let mut comps = split(&v);
    while let Some(c) = comps.last() {
        if eq(c, b".") { comps.pop(); } else { break; }
    }
    let mut want = false;
    if let Some(c) = comps.last() {
        let k = c.len();
        if !eq(c, b"..") && k >= 3 && (c[k - 1] == b'r' || c[k - 1] == b'R') && c[k - 2] == b'.' {
            want = true;
        }
    }
    // `./.` alone is the directory itself
    check(fs::has_r_extension(&p) == want, 11);
    cover(want, 1);
    cover(!want, 2);
    observe(want as u64);
}
entries!(h_paths, h_cwd, h_relativize, h_ext, h_has);
