//! Stand-in for fancy-regex (plain patterns only), over the regex crate.
use std::fmt;
pub use regex::{Captures, Match, Replacer};
#[derive(Clone)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Clone, Debug)]
pub struct Regex(regex::Regex);
impl Regex {
    pub fn new(s: &str) -> Result<Regex> { regex::Regex::new(s).map(Regex).map_err(|e| Error(e.to_string())) }
    pub fn is_match(&self, s: &str) -> Result<bool> { Ok(self.0.is_match(s)) }
    pub fn find<'t>(&self, s: &'t str) -> Result<Option<Match<'t>>> { Ok(self.0.find(s)) }
    pub fn find_iter<'r, 't>(&'r self, s: &'t str) -> impl Iterator<Item = Result<Match<'t>>> + use<'r, 't> { self.0.find_iter(s).map(Ok) }
    pub fn find_from_pos<'t>(&self, s: &'t str, pos: usize) -> Result<Option<Match<'t>>> { Ok(self.0.find_at(s, pos)) }
    pub fn captures<'t>(&self, s: &'t str) -> Result<Option<Captures<'t>>> { Ok(self.0.captures(s)) }
    pub fn captures_iter<'r, 't>(&'r self, s: &'t str) -> impl Iterator<Item = Result<Captures<'t>>> + use<'r, 't> { self.0.captures_iter(s).map(Ok) }
    pub fn captures_len(&self) -> usize { self.0.captures_len() }
    pub fn replace<'t, R: Replacer>(&self, s: &'t str, r: R) -> std::borrow::Cow<'t, str> { self.0.replace(s, r) }
    pub fn replace_all<'t, R: Replacer>(&self, s: &'t str, r: R) -> std::borrow::Cow<'t, str> { self.0.replace_all(s, r) }
    pub fn as_str(&self) -> &str { self.0.as_str() }
}
impl std::str::FromStr for Regex { type Err = Error; fn from_str(s: &str) -> Result<Self> { Self::new(s) } }
