//! Stand-in for the `memchr` crate: same results by definition, written as the
//! obvious loops (the real crate picks SIMD code at run time).
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a || h[i] == b {
            return Some(i);
        }
    }
    None
}
pub fn memrchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
    }
    None
}
#[derive(Clone, Debug)]
pub struct Memchr<'h> {
    n: [u8; 3],
    k: usize,
    h: &'h [u8],
    lo: usize,
    hi: usize,
}
pub type Memchr2<'h> = Memchr<'h>;
pub type Memchr3<'h> = Memchr<'h>;
impl Iterator for Memchr<'_> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.lo < self.hi {
            let i = self.lo;
            self.lo += 1;
            if self.n[..self.k].contains(&self.h[i]) {
                return Some(i);
            }
        }
        None
    }
}
impl DoubleEndedIterator for Memchr<'_> {
    fn next_back(&mut self) -> Option<usize> {
        while self.lo < self.hi {
            self.hi -= 1;
            if self.n[..self.k].contains(&self.h[self.hi]) {
                return Some(self.hi);
            }
        }
        None
    }
}
pub fn memchr_iter(n: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n: [n, 0, 0], k: 1, h, lo: 0, hi: h.len() }
}
pub fn memrchr_iter(n: u8, h: &[u8]) -> std::iter::Rev<Memchr<'_>> {
    memchr_iter(n, h).rev()
}
pub fn memchr2_iter(a: u8, b: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n: [a, b, 0], k: 2, h, lo: 0, hi: h.len() }
}
pub fn memchr3_iter(a: u8, b: u8, c: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n: [a, b, c], k: 3, h, lo: 0, hi: h.len() }
}
pub mod memmem {
    use std::borrow::Cow;
    fn at(h: &[u8], n: &[u8], i: usize) -> bool {
        let mut j = 0;
        while j < n.len() {
            if h[i + j] != n[j] {
                return false;
            }
            j += 1;
        }
        true
    }
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i + n.len() <= h.len() {
            if at(h, n, i) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.len() > h.len() {
            return None;
        }
        let mut i = h.len() - n.len() + 1;
        while i > 0 {
            i -= 1;
            if at(h, n, i) {
                return Some(i);
            }
        }
        None
    }
    #[derive(Clone, Debug)]
    pub struct FindIter<'h, 'n> {
        h: &'h [u8],
        n: Cow<'n, [u8]>,
        pos: usize,
    }
    impl Iterator for FindIter<'_, '_> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            if self.pos > self.h.len() {
                return None;
            }
            let i = find(&self.h[self.pos..], &self.n)? + self.pos;
            self.pos = i + std::cmp::max(1, self.n.len());
            Some(i)
        }
    }
    pub fn find_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(h: &'h [u8], n: &'n N) -> FindIter<'h, 'n> {
        FindIter { h, n: Cow::Borrowed(n.as_ref()), pos: 0 }
    }
    #[derive(Clone, Debug)]
    pub struct FindRevIter<'h, 'n> {
        h: &'h [u8],
        n: Cow<'n, [u8]>,
        pos: Option<usize>,
    }
    impl Iterator for FindRevIter<'_, '_> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            let p = self.pos?;
            match rfind(&self.h[..p], &self.n) {
                None => {
                    self.pos = None;
                    None
                }
                Some(i) => {
                    self.pos = if self.n.is_empty() { p.checked_sub(1) } else { Some(i) };
                    Some(i)
                }
            }
        }
    }
    pub fn rfind_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(h: &'h [u8], n: &'n N) -> FindRevIter<'h, 'n> {
        FindRevIter { h, n: Cow::Borrowed(n.as_ref()), pos: Some(h.len()) }
    }
    #[derive(Clone, Debug)]
    pub struct Finder<'n> {
        n: Cow<'n, [u8]>,
    }
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Finder<'n> {
            Finder { n: Cow::Borrowed(n.as_ref()) }
        }
        pub fn find(&self, h: &[u8]) -> Option<usize> {
            find(h, &self.n)
        }
        pub fn find_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindIter<'h, 'a> {
            FindIter { h, n: Cow::Borrowed(&self.n), pos: 0 }
        }
        pub fn needle(&self) -> &[u8] {
            &self.n
        }
        pub fn into_owned(self) -> Finder<'static> {
            Finder { n: Cow::Owned(self.n.into_owned()) }
        }
        pub fn as_ref(&self) -> Finder<'_> {
            Finder { n: Cow::Borrowed(&self.n) }
        }
    }
    #[derive(Clone, Debug)]
    pub struct FinderRev<'n> {
        n: Cow<'n, [u8]>,
    }
    impl<'n> FinderRev<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> FinderRev<'n> {
            FinderRev { n: Cow::Borrowed(n.as_ref()) }
        }
        pub fn rfind<B: AsRef<[u8]>>(&self, h: B) -> Option<usize> {
            rfind(h.as_ref(), &self.n)
        }
        pub fn rfind_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindRevIter<'h, 'a> {
            FindRevIter { h, n: Cow::Borrowed(&self.n), pos: Some(h.len()) }
        }
        pub fn needle(&self) -> &[u8] {
            &self.n
        }
    }
}
