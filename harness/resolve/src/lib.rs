//! Nearest-directory resolution of settings.
#[allow(dead_code)]
#[path = "@REPO@/crates/workspace/src/resolve.rs"]
mod resolve;
use resolve::PathResolver;
use symrt::*;

/// an absolute path of exactly n bytes after the root
fn path(n: usize) -> String {
    let mut s = String::from("/");
    s.push_str(&over(b"/ab.", n));
    s
}
/// component-wise view: root, then the non-empty components which are not "."
/// (this is how paths compare; `..` is kept as it is)
fn parts(p: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    let b = p.as_bytes();
    for i in 0..=b.len() {
        if i == b.len() || b[i] == b'/' {
            if !(cur.is_empty() || (cur.len() == 1 && cur[0] == b'.')) {
                v.push(std::mem::take(&mut cur));
            } else {
                cur.clear();
            }
        } else {
            cur.push(b[i]);
        }
    }
    v
}
fn eqv(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}
fn prefix(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() > b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !eqv(&a[i], &b[i]) {
            return false;
        }
    }
    true
}
fn run(ops: usize, n: usize, qn: usize, with_remove: bool) {
    let mut r: PathResolver<u64> = PathResolver::new(1000);
    let mut model: Vec<(Vec<Vec<u8>>, u64)> = Vec::new();
    for op in 0..ops {
        let k = len(0, n);
        let p = path(k);
        let c = parts(&p);
        let mut at = None;
        for i in 0..model.len() {
            if model[i].0.len() == c.len() && prefix(&model[i].0, &c) {
                at = Some(i);
            }
        }
        if with_remove && op > 0 && flag_fixed() {
            let got = r.remove(&p);
            let want = at.map(|i| model.remove(i).1);
            check(got == want, 1);
            cover(got.is_some(), 1);
        } else {
            let v = op as u64 + 1;
            let got = r.add(&p, v);
            let want = match at {
                Some(i) => Some(std::mem::replace(&mut model[i].1, v)),
                None => {
                    model.push((c, v));
                    None
                }
            };
            check(got == want, 2);
            cover(got.is_some(), 2);
        }
        check(r.len() == model.len() && r.is_empty() == model.is_empty() && r.items().len() == model.len(), 3);
    }
    let k = len(0, qn);
    let q = path(k);
    let c = parts(&q);
    let mut best: Option<(usize, u64)> = None;
    let mut matching = 0;
    for m in &model {
        if prefix(&m.0, &c) {
            matching += 1;
            if best.is_none_or(|b| b.0 < m.0.len()) {
                best = Some((m.0.len(), m.1));
            }
        }
    }
    let got = r.resolve(&q).map(|i| *i.value());
    observe(got.unwrap_or(0));
    check(got == best.map(|b| b.1), 4);
    check(*r.resolve_or_fallback(&q) == best.map_or(1000, |b| b.1), 5);
    let mut seen = 0;
    let mut ok = true;
    for i in r.matches(&q) {
        seen += 1;
        ok &= prefix(&parts(i.path().to_str().unwrap()), &c);
    }
    check(ok && seen == matching, 6);
    let mut seen2 = 0;
    for i in r.matches_mut(&q) {
        seen2 += 1;
        *i.value_mut() += 100;
    }
    check(seen2 == matching, 7);
    check(r.resolve(&q).map(|i| *i.value()) == best.map(|b| b.1 + 100), 8);
    cover(got.is_none(), 3);
    cover(matching == 1, 4);
    cover(matching >= 2, 5);
    r.clear();
    check(r.is_empty() && r.resolve(&q).is_none() && *r.fallback() == 1000, 9);
}
/// param: number of adds, bytes per path, bytes of the query
fn h_adds() {
    run(param(0) as usize, param(1) as usize, param(2) as usize, false)
}
/// adds and removes
fn h_ops() {
    run(param(0) as usize, param(1) as usize, param(2) as usize, true)
}
/// directories at fixed depth with symbolic one or two letter names: deeper trees than h_adds reaches
fn h_deep() {
    let k = param(0) as usize;
    let depth = param(1) as usize;
    let mut r: PathResolver<u64> = PathResolver::new(1000);
    let mut model: Vec<(Vec<u8>, u64)> = Vec::new();
    for v in 0..k {
        let d = len(0, depth);
        let names = over(b"ab-", d);
        let mut p = String::from("/w");
        for i in 0..d {
            p.push('/');
            p.push_str(&names[i..i + 1]);
        }
        r.add(p, v as u64);
        let mut found = false;
        for m in model.iter_mut() {
            if eqv(&m.0, names.as_bytes()) {
                m.1 = v as u64;
                found = true;
            }
        }
        if !found {
            model.push((names.into_bytes(), v as u64));
        }
    }
    let names = over(b"ab-", depth);
    let mut q = String::from("/w");
    for i in 0..depth {
        q.push('/');
        q.push_str(&names[i..i + 1]);
    }
    q.push_str(".R");
    let file = &names.as_bytes()[..depth - 1];
    let mut best: Option<(usize, u64)> = None;
    for m in &model {
        if m.0.len() <= file.len() && eqv(&m.0, &file[..m.0.len()]) && best.is_none_or(|b| b.0 <= m.0.len()) {
            best = Some((m.0.len(), m.1));
        }
    }
    let got = r.resolve(&q).map(|i| *i.value());
    observe(got.unwrap_or(77));
    check(got == best.map(|b| b.1), 10);
    cover(got.is_none(), 1);
    cover(best.is_some_and(|b| b.0 == depth - 1), 2);
}
/// k directories up to `depth` deep are added, one of them (or another path) is removed, one added; then
/// one path is resolved
fn h_remove() {
    let k = param(0) as usize;
    let depth = param(1) as usize;
    let mut r: PathResolver<u64> = PathResolver::new(1000);
    let mut model: Vec<(Vec<u8>, u64)> = Vec::new();
    let dir = |names: &str| {
        let mut p = String::from("/w");
        for i in 0..names.len() {
            p.push('/');
            p.push_str(&names[i..i + 1]);
        }
        p
    };
    for v in 0..k + 2 {
        let n = len(if v < k { 1 } else { 0 }, depth);
        let names = over(b"ab", n);
        let mut at = None;
        for i in 0..model.len() {
            if eqv(&model[i].0, names.as_bytes()) {
                at = Some(i);
            }
        }
        if v == k {
            let want = at.map(|i| model.remove(i).1);
            cover(want.is_some(), 1);
            check(r.remove(dir(&names)) == want, 11);
        } else {
            let want = at.map(|i| model.remove(i).1);
            model.push((names.as_bytes().to_vec(), v as u64));
            check(r.add(dir(&names), v as u64) == want, 12);
        }
    }
    let names = over(b"ab", depth);
    let mut q = dir(&names);
    q.push_str("/x.R");
    let mut best: Option<(usize, u64)> = None;
    for m in &model {
        if eqv(&m.0, &names.as_bytes()[..m.0.len()]) && best.is_none_or(|b| b.0 <= m.0.len()) {
            best = Some((m.0.len(), m.1));
        }
    }
    let got = r.resolve(&q).map(|i| *i.value());
    observe(got.unwrap_or(77));
    check(got == best.map(|b| b.1), 13);
    cover(best.is_some_and(|b| b.0 == depth), 2);
}
entries!(h_adds, h_ops, h_deep, h_remove);
