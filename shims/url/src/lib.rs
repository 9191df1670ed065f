//! Stand-in for `url`: schemes and the paths of `file:` URLs, for what is plain ASCII.
use std::fmt;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Url(String);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("not a URL")
    }
}
impl std::error::Error for ParseError {}
impl Url {
    pub fn parse(s: &str) -> Result<Url, ParseError> {
        match s.find(':') {
            Some(i) if i > 0 => Ok(Url(s.to_string())),
            _ => Err(ParseError),
        }
    }
    pub fn scheme(&self) -> &str {
        &self.0[..self.0.find(':').unwrap()]
    }
    pub fn path(&self) -> &str {
        let s = &self.0[self.scheme().len() + 1..];
        match s.strip_prefix("//") {
            Some(r) => &r[r.find('/').unwrap_or(r.len())..],
            None => s,
        }
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn from_file_path<P: AsRef<Path>>(p: P) -> Result<Url, ()> {
        let p = p.as_ref();
        if !p.is_absolute() {
            return Err(());
        }
        Ok(Url(format!("file://{}", p.to_str().ok_or(())?)))
    }
    pub fn from_directory_path<P: AsRef<Path>>(p: P) -> Result<Url, ()> {
        Ok(Url(format!("{}/", Url::from_file_path(p)?.0)))
    }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> {
        match self.0.strip_prefix("file://") {
            Some(p) if p.starts_with('/') => Ok(PathBuf::from(p)),
            _ => Err(()),
        }
    }
}
impl fmt::Display for Url {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[cfg(feature = "serde")]
impl serde::Serialize for Url {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Url {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <std::borrow::Cow<'de, str> as serde::Deserialize>::deserialize(d)?;
        Url::parse(&s).map_err(|_| serde::de::Error::custom("not a URL"))
    }
}
