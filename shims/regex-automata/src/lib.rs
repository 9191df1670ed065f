//! Stand-in: the pool of scratch values; regular expressions are not modelled.
pub mod util {
    pub mod pool {
        use std::ops::{Deref, DerefMut};
        pub struct Pool<T, F = fn() -> T> {
            new: F,
            _t: std::marker::PhantomData<fn() -> T>,
        }
        impl<T, F: Fn() -> T> Pool<T, F> {
            pub fn new(new: F) -> Self {
                Pool { new, _t: std::marker::PhantomData }
            }
            pub fn get(&self) -> PoolGuard<T> {
                PoolGuard((self.new)())
            }
        }
        impl<T, F> std::fmt::Debug for Pool<T, F> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("Pool")
            }
        }
        pub struct PoolGuard<T>(T);
        impl<T> Deref for PoolGuard<T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        impl<T> DerefMut for PoolGuard<T> {
            fn deref_mut(&mut self) -> &mut T {
                &mut self.0
            }
        }
    }
    pub mod syntax {
        pub struct Config;
        impl Config {
            pub fn new() -> Config {
                Config
            }
            pub fn utf8(self, _: bool) -> Config {
                self
            }
            pub fn dot_matches_new_line(self, _: bool) -> Config {
                self
            }
        }
    }
}
pub mod meta {
    #[derive(Clone, Debug)]
    pub struct Regex;
    pub struct Config;
    pub struct Builder;
    #[derive(Debug)]
    pub struct BuildError;
    pub struct Captures;
    impl Regex {
        pub fn builder() -> Builder {
            Builder
        }
        pub fn config() -> Config {
            Config
        }
        pub fn is_match(&self, _: &[u8]) -> bool {
            unimplemented!("regular expressions are not modelled")
        }
        pub fn create_captures(&self) -> Captures {
            Captures
        }
        pub fn captures(&self, _: &[u8], _: &mut Captures) {
            unimplemented!("regular expressions are not modelled")
        }
    }
    impl Config {
        pub fn utf8_empty(self, _: bool) -> Config {
            self
        }
    }
    impl Builder {
        pub fn configure(&mut self, _: Config) -> &mut Builder {
            self
        }
        pub fn syntax(&mut self, _: super::util::syntax::Config) -> &mut Builder {
            self
        }
        pub fn build(&self, _: &str) -> Result<Regex, BuildError> {
            Ok(Regex)
        }
    }
    impl Captures {
        pub fn get_group(&self, _: usize) -> Option<std::ops::Range<usize>> {
            None
        }
    }
}
