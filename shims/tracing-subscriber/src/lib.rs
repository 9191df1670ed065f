//! Stand-in for `tracing-subscriber`: keeps the filter which is in force.
use std::cell::RefCell;
thread_local! { static FILTER: RefCell<Option<filter::Targets>> = const { RefCell::new(None) }; }
/// the filter in force
pub fn current() -> Option<filter::Targets> {
    FILTER.with(|f| f.borrow().clone())
}
fn set(t: filter::Targets) {
    FILTER.with(|f| *f.borrow_mut() = Some(t));
}
pub struct Registry;
impl Default for Registry {
    fn default() -> Self {
        Registry
    }
}
pub mod filter {
    use tracing::Level;
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Targets(pub Vec<(Option<String>, Option<Level>)>);
    #[derive(Clone, Copy, Debug)]
    pub struct ParseError;
    impl Targets {
        pub fn new() -> Self {
            Targets(vec![])
        }
        pub fn with_target(mut self, t: impl Into<String>, l: Level) -> Self {
            self.set(Some(t.into()), Some(l));
            self
        }
        pub fn with_default(mut self, l: Level) -> Self {
            self.set(None, Some(l));
            self
        }
        fn set(&mut self, t: Option<String>, l: Option<Level>) {
            match self.0.iter_mut().find(|x| x.0 == t) {
                Some(x) => x.1 = l,
                None => self.0.push((t, l)),
            }
        }
        /// what is let through of a target
        pub fn level(&self, target: &str) -> Option<Level> {
            let mut best: Option<&(Option<String>, Option<Level>)> = None;
            for x in &self.0 {
                let n = x.0.as_deref().unwrap_or("");
                if target.starts_with(n) && best.is_none_or(|b| b.0.as_deref().unwrap_or("").len() < n.len()) {
                    best = Some(x);
                }
            }
            best.and_then(|b| b.1)
        }
    }
    fn level(s: &str) -> Result<Option<Level>, ParseError> {
        for (n, l) in [("error", Level::ERROR), ("warn", Level::WARN), ("info", Level::INFO), ("debug", Level::DEBUG), ("trace", Level::TRACE)] {
            if s.eq_ignore_ascii_case(n) {
                return Ok(Some(l));
            }
        }
        if s.eq_ignore_ascii_case("off") { Ok(None) } else { Err(ParseError) }
    }
    impl std::str::FromStr for Targets {
        type Err = ParseError;
        fn from_str(s: &str) -> Result<Self, ParseError> {
            let mut t = Targets::new();
            for part in s.split(',') {
                match part.split_once('=') {
                    Some((a, b)) => t.set(Some(a.to_string()), level(b)?),
                    None => match level(part) {
                        Ok(l) => t.set(None, l),
                        Err(_) => t.set(Some(part.to_string()), Some(Level::TRACE)),
                    },
                }
            }
            Ok(t)
        }
    }
}
pub mod reload {
    use std::marker::PhantomData;
    #[derive(Clone, Copy, Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("gone")
        }
    }
    pub struct Layer;
    pub struct Handle<L, S>(PhantomData<(L, S)>);
    impl Layer {
        pub fn new<S>(t: super::filter::Targets) -> (Layer, Handle<super::filter::Targets, S>) {
            super::set(t);
            (Layer, Handle(PhantomData))
        }
    }
    impl<S> Handle<super::filter::Targets, S> {
        pub fn reload(&self, t: impl Into<super::filter::Targets>) -> Result<(), Error> {
            super::set(t.into());
            Ok(())
        }
    }
}
pub mod fmt {
    pub trait MakeWriter<'a> {
        type Writer: std::io::Write;
        fn make_writer(&'a self) -> Self::Writer;
    }
    impl<'a, F, W> MakeWriter<'a> for F
    where
        F: Fn() -> W,
        W: std::io::Write,
    {
        type Writer = W;
        fn make_writer(&'a self) -> W {
            self()
        }
    }
    #[derive(Default)]
    pub struct TestWriter;
    impl<'a> MakeWriter<'a> for TestWriter {
        type Writer = std::io::Sink;
        fn make_writer(&'a self) -> std::io::Sink {
            std::io::sink()
        }
    }
    pub mod writer {
        pub struct BoxMakeWriter;
        impl BoxMakeWriter {
            pub fn new<M>(_: M) -> Self
            where
                M: for<'a> super::MakeWriter<'a> + 'static,
            {
                BoxMakeWriter
            }
        }
    }
    pub mod time {
        pub struct LocalTime;
        impl LocalTime {
            pub fn rfc_3339() -> Self {
                LocalTime
            }
        }
    }
    pub struct Layer;
    pub fn layer() -> Layer {
        Layer
    }
    impl Layer {
        pub fn pretty(self) -> Self {
            self
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_file(self, _: bool) -> Self {
            self
        }
        pub fn with_line_number(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_ids(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_names(self, _: bool) -> Self {
            self
        }
        pub fn with_target(self, _: bool) -> Self {
            self
        }
        pub fn with_timer<T>(self, _: T) -> Self {
            self
        }
        pub fn with_level(self, _: bool) -> Self {
            self
        }
        pub fn with_writer<W>(self, _: W) -> Self {
            self
        }
    }
}
pub mod layer {
    pub trait SubscriberExt: Sized {
        fn with<L>(self, _: L) -> Self {
            self
        }
    }
    impl SubscriberExt for super::Registry {}
}
