//! Stand-in for the part of quick-xml 0.29 that the Ficus backend uses: a pull reader and an indenting writer.
use std::borrow::Cow;
use std::fmt;
use std::io::{self, BufRead, BufReader, Write};

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
    UnexpectedEof(String),
    EndEventMismatch { expected: String, found: String },
    Other(String),
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
pub type Result<T> = std::result::Result<T, Error>;

pub mod name {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct QName<'a>(pub &'a [u8]);
    impl<'a> AsRef<[u8]> for QName<'a> { fn as_ref(&self) -> &[u8] { self.0 } }
    impl<'a> QName<'a> {
        pub fn into_inner(self) -> &'a [u8] { self.0 }
        pub fn local_name(&self) -> LocalName<'a> { LocalName(match self.0.iter().position(|c| *c == b':') { Some(i) => &self.0[i + 1..], None => self.0 }) }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct LocalName<'a>(pub(crate) &'a [u8]);
    impl<'a> AsRef<[u8]> for LocalName<'a> { fn as_ref(&self) -> &[u8] { self.0 } }
    impl<'a> LocalName<'a> { pub fn into_inner(self) -> &'a [u8] { self.0 } }
}

pub mod escape {
    use std::borrow::Cow;
    #[derive(Debug)]
    pub struct EscapeError(pub String);
    impl std::fmt::Display for EscapeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for EscapeError {}
    pub fn escape(raw: &str) -> Cow<str> {
        if !raw.contains(|c| matches!(c, '<' | '>' | '\'' | '&' | '"')) { return Cow::Borrowed(raw); }
        let mut out = String::new();
        for c in raw.chars() {
            match c { '<' => out += "&lt;", '>' => out += "&gt;", '\'' => out += "&apos;", '&' => out += "&amp;", '"' => out += "&quot;", c => out.push(c) }
        }
        Cow::Owned(out)
    }
    pub fn partial_escape(raw: &str) -> Cow<str> {
        if !raw.contains(|c| matches!(c, '<' | '>' | '&')) { return Cow::Borrowed(raw); }
        Cow::Owned(raw.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"))
    }
    pub fn unescape(raw: &str) -> Result<Cow<str>, EscapeError> {
        if !raw.contains('&') { return Ok(Cow::Borrowed(raw)); }
        let (mut out, mut rest) = (String::new(), raw);
        while let Some(at) = rest.find('&') {
            out += &rest[..at];
            let end = rest[at..].find(';').ok_or_else(|| EscapeError("unterminated entity".into()))? + at;
            let name = &rest[at + 1..end];
            match name {
                "lt" => out.push('<'), "gt" => out.push('>'), "amp" => out.push('&'), "apos" => out.push('\''), "quot" => out.push('"'),
                _ => {
                    let code = if let Some(h) = name.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() }
                        else if let Some(d) = name.strip_prefix('#') { d.parse().ok() } else { None };
                    match code.filter(|c| *c != 0).and_then(char::from_u32) { Some(c) => out.push(c), None => return Err(EscapeError(format!("unknown entity {}", name))) }
                }
            }
            rest = &rest[end + 1..];
        }
        out += rest;
        Ok(Cow::Owned(out))
    }
}

pub mod events {
    use super::*;
    use super::name::QName;
    pub mod attributes {
        use super::super::name::QName;
        use std::borrow::Cow;
        #[derive(Clone, Debug, PartialEq)]
        pub struct Attribute<'a> { pub key: QName<'a>, pub value: Cow<'a, [u8]> }
        #[derive(Clone, Debug, PartialEq)]
        pub enum AttrError { ExpectedEq(usize), ExpectedValue(usize), UnquotedValue(usize), ExpectedQuote(usize), Duplicated(usize) }
        impl std::fmt::Display for AttrError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }
        impl std::error::Error for AttrError {}
        impl<'a> Attribute<'a> {
            pub fn unescape_value(&self) -> super::super::Result<Cow<'a, str>> {
                let s = String::from_utf8(self.value.to_vec()).map_err(|e| super::super::Error::Other(e.to_string()))?;
                match super::super::escape::unescape(&s) { Ok(v) => Ok(Cow::Owned(v.into_owned())), Err(e) => Err(super::super::Error::Other(e.to_string())) }
            }
        }
        impl<'a> From<(&'a str, &'a str)> for Attribute<'a> {
            fn from((k, v): (&'a str, &'a str)) -> Self {
                Attribute { key: QName(k.as_bytes()), value: match super::super::escape::escape(v) { Cow::Borrowed(b) => Cow::Borrowed(b.as_bytes()), Cow::Owned(o) => Cow::Owned(o.into_bytes()) } }
            }
        }
        impl<'a> From<(&'a [u8], &'a [u8])> for Attribute<'a> {
            fn from((k, v): (&'a [u8], &'a [u8])) -> Self { Attribute { key: QName(k), value: Cow::Borrowed(v) } }
        }
        impl<'a> Attributes<'a> { pub fn with_checks(&mut self, _: bool) -> &mut Attributes<'a> { self } }
        pub struct Attributes<'a> { pub(crate) b: &'a [u8], pub(crate) i: usize, pub(crate) seen: Vec<&'a [u8]> }
        impl<'a> Iterator for Attributes<'a> {
            type Item = Result<Attribute<'a>, AttrError>;
            fn next(&mut self) -> Option<Self::Item> {
                let b = self.b;
                let ws = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\r');
                while self.i < b.len() && ws(b[self.i]) { self.i += 1; }
                if self.i >= b.len() { return None; }
                let from = self.i;
                while self.i < b.len() && b[self.i] != b'=' && !ws(b[self.i]) { self.i += 1; }
                let key = &b[from..self.i];
                while self.i < b.len() && ws(b[self.i]) { self.i += 1; }
                if self.i >= b.len() || b[self.i] != b'=' { return Some(Err(AttrError::ExpectedEq(self.i))); }
                self.i += 1;
                while self.i < b.len() && ws(b[self.i]) { self.i += 1; }
                if self.i >= b.len() { return Some(Err(AttrError::ExpectedValue(self.i))); }
                let q = b[self.i];
                if q != b'"' && q != b'\'' {
                    let at = self.i;
                    while self.i < b.len() && !ws(b[self.i]) { self.i += 1; }
                    return Some(Err(AttrError::UnquotedValue(at)));
                }
                self.i += 1;
                let from = self.i;
                while self.i < b.len() && b[self.i] != q { self.i += 1; }
                if self.i >= b.len() { return Some(Err(AttrError::ExpectedQuote(self.i))); }
                let value = &b[from..self.i];
                self.i += 1;
                if self.seen.contains(&key) { return Some(Err(AttrError::Duplicated(from))); }
                self.seen.push(key);
                Some(Ok(Attribute { key: QName(key), value: Cow::Borrowed(value) }))
            }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct BytesStart<'a> { pub(crate) buf: Cow<'a, [u8]>, pub(crate) name_len: usize }
    impl<'a> BytesStart<'a> {
        pub fn new<C: Into<Cow<'a, str>>>(name: C) -> Self {
            let s: Cow<'a, str> = name.into();
            let n = s.len();
            BytesStart { buf: match s { Cow::Borrowed(b) => Cow::Borrowed(b.as_bytes()), Cow::Owned(o) => Cow::Owned(o.into_bytes()) }, name_len: n }
        }
        pub fn name(&self) -> QName { QName(&self.buf[..self.name_len]) }
        pub fn attributes(&self) -> attributes::Attributes { attributes::Attributes { b: &self.buf[self.name_len..], i: 0, seen: vec![] } }
        pub fn local_name(&self) -> super::name::LocalName { self.name().local_name() }
        pub fn try_get_attribute<N: AsRef<[u8]> + Sized>(&'a self, name: N) -> Result<Option<attributes::Attribute<'a>>> {
            for a in self.attributes() {
                let a = a.map_err(|e| Error::Other(e.to_string()))?;
                if a.key.0 == name.as_ref() { return Ok(Some(a)); }
            }
            Ok(None)
        }
        pub fn push_attribute<'b, A: Into<attributes::Attribute<'b>>>(&mut self, a: A) {
            let a = a.into();
            let b = self.buf.to_mut();
            b.push(b' ');
            b.extend_from_slice(a.key.0);
            b.extend_from_slice(b"=\"");
            b.extend_from_slice(&a.value);
            b.push(b'"');
        }
        pub fn extend_attributes<'b, I>(&mut self, list: I) -> &mut BytesStart<'a> where I: IntoIterator, I::Item: Into<attributes::Attribute<'b>> {
            for a in list { self.push_attribute(a); }
            self
        }
        pub fn with_attributes<'b, I>(mut self, list: I) -> Self where I: IntoIterator, I::Item: Into<attributes::Attribute<'b>> {
            self.extend_attributes(list);
            self
        }
        pub fn clear_attributes(&mut self) -> &mut BytesStart<'a> { let n = self.name_len; self.buf.to_mut().truncate(n); self }
        pub fn to_end(&self) -> BytesEnd { BytesEnd { name: Cow::Borrowed(&self.buf[..self.name_len]) } }
        pub fn borrow(&self) -> BytesStart { BytesStart { buf: Cow::Borrowed(&self.buf), name_len: self.name_len } }
        pub fn into_owned(self) -> BytesStart<'static> { BytesStart { buf: Cow::Owned(self.buf.into_owned()), name_len: self.name_len } }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct BytesEnd<'a> { pub(crate) name: Cow<'a, [u8]> }
    impl<'a> BytesEnd<'a> {
        pub fn new<C: Into<Cow<'a, str>>>(name: C) -> Self {
            BytesEnd { name: match name.into() { Cow::Borrowed(b) => Cow::Borrowed(b.as_bytes()), Cow::Owned(o) => Cow::Owned(o.into_bytes()) } }
        }
        pub fn name(&self) -> QName { QName(&self.name) }
        pub fn into_owned(self) -> BytesEnd<'static> { BytesEnd { name: Cow::Owned(self.name.into_owned()) } }
        pub fn local_name(&self) -> super::name::LocalName { self.name().local_name() }
    }
    impl<'a> std::ops::Deref for BytesText<'a> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.content } }
    impl<'a> std::ops::Deref for BytesStart<'a> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.buf } }
    impl<'a> std::ops::Deref for BytesEnd<'a> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.name } }
    impl<'a> Event<'a> {
        pub fn into_owned(self) -> Event<'static> {
            let t = |b: BytesText<'a>| BytesText { content: Cow::Owned(b.content.into_owned()) };
            match self {
                Event::Start(s) => Event::Start(s.into_owned()), Event::Empty(s) => Event::Empty(s.into_owned()),
                Event::End(e) => Event::End(BytesEnd { name: Cow::Owned(e.name.into_owned()) }),
                Event::Text(b) => Event::Text(t(b)), Event::CData(b) => Event::CData(t(b)), Event::Comment(b) => Event::Comment(t(b)),
                Event::Decl(b) => Event::Decl(t(b)), Event::PI(b) => Event::PI(t(b)), Event::DocType(b) => Event::DocType(t(b)), Event::Eof => Event::Eof,
            }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct BytesText<'a> { pub(crate) content: Cow<'a, [u8]> }
    impl<'a> BytesText<'a> {
        pub fn new(s: &'a str) -> Self {
            BytesText { content: match escape::escape(s) { Cow::Borrowed(b) => Cow::Borrowed(b.as_bytes()), Cow::Owned(o) => Cow::Owned(o.into_bytes()) } }
        }
        pub fn from_escaped<C: Into<Cow<'a, str>>>(s: C) -> Self {
            BytesText { content: match s.into() { Cow::Borrowed(b) => Cow::Borrowed(b.as_bytes()), Cow::Owned(o) => Cow::Owned(o.into_bytes()) } }
        }
        pub fn unescape(&self) -> Result<Cow<'a, str>> {
            let s = String::from_utf8(self.content.to_vec()).map_err(|e| Error::Other(e.to_string()))?;
            match escape::unescape(&s) { Ok(v) => Ok(Cow::Owned(v.into_owned())), Err(e) => Err(Error::Other(e.to_string())) }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Event<'a> {
        Start(BytesStart<'a>),
        End(BytesEnd<'a>),
        Empty(BytesStart<'a>),
        Text(BytesText<'a>),
        CData(BytesText<'a>),
        Comment(BytesText<'a>),
        Decl(BytesText<'a>),
        PI(BytesText<'a>),
        DocType(BytesText<'a>),
        Eof,
    }
}
use events::*;

pub struct Reader<R> { inner: R, stack: Vec<Vec<u8>>, pending: bool, trim: bool }
impl Reader<BufReader<std::fs::File>> {
    pub fn from_file<P: AsRef<std::path::Path>>(p: P) -> Result<Self> { Ok(Reader::from_reader(BufReader::new(std::fs::File::open(p)?))) }
}
impl<'i> Reader<&'i [u8]> {
    pub fn from_str(s: &'i str) -> Self { Reader::from_reader(s.as_bytes()) }
}
impl<R: BufRead> Reader<R> {
    pub fn from_reader(inner: R) -> Self { Reader { inner, stack: vec![], pending: false, trim: false } }
    pub fn trim_text(&mut self, v: bool) -> &mut Self { self.trim = v; self }
    pub fn get_ref(&self) -> &R { &self.inner }
    pub fn get_mut(&mut self) -> &mut R { &mut self.inner }
    pub fn into_inner(self) -> R { self.inner }
    pub fn read_to_end_into(&mut self, end: name::QName, buf: &mut Vec<u8>) -> Result<()> {
        let (name, mut depth) = (end.0.to_vec(), 0);
        loop {
            match self.read_event_into(buf)? {
                Event::Start(s) if s.name().0 == &name[..] => depth += 1,
                Event::End(e) if e.name().0 == &name[..] => { if depth == 0 { return Ok(()); } depth -= 1; }
                Event::Eof => return Err(Error::UnexpectedEof("element".into())),
                _ => {}
            }
        }
    }
    fn until(&mut self, tail: &[u8], what: &str) -> Result<Vec<u8>> {
        let mut v = vec![];
        loop {
            let n = self.inner.read_until(*tail.last().unwrap(), &mut v)?;
            if n == 0 { return Err(Error::UnexpectedEof(what.into())); }
            if v.ends_with(tail) { v.truncate(v.len() - tail.len()); return Ok(v); }
        }
    }
    pub fn read_event_into<'b>(&mut self, buf: &'b mut Vec<u8>) -> Result<Event<'b>> {
        buf.clear();
        if !self.pending {
            let n = self.inner.read_until(b'<', buf)?;
            if n == 0 { return Ok(Event::Eof); }
            if buf.last() != Some(&b'<') { return Ok(Event::Text(BytesText { content: Cow::Borrowed(&buf[..]) })); }
            buf.pop();
            self.pending = true;
            let blank = buf.iter().all(|c| c.is_ascii_whitespace());
            if !buf.is_empty() && !(self.trim && blank) { return Ok(Event::Text(BytesText { content: Cow::Borrowed(&buf[..]) })); }
            buf.clear();
        }
        self.pending = false;
        let first = { let b = self.inner.fill_buf()?; if b.is_empty() { return Err(Error::UnexpectedEof("tag".into())); } b[0] };
        match first {
            b'?' => { self.inner.consume(1); let v = self.until(b"?>", "pi")?; *buf = v;
                let t = BytesText { content: Cow::Borrowed(&buf[..]) };
                Ok(if buf.starts_with(b"xml") { Event::Decl(t) } else { Event::PI(t) }) }
            b'!' => {
                self.inner.consume(1);
                let mut head = vec![];
                let mut depth = 0i32;
                loop {
                    let c = { let b = self.inner.fill_buf()?; if b.is_empty() { return Err(Error::UnexpectedEof("!".into())); } b[0] };
                    self.inner.consume(1);
                    head.push(c);
                    if head == b"--" { let v = self.until(b"-->", "comment")?; *buf = v; return Ok(Event::Comment(BytesText { content: Cow::Borrowed(&buf[..]) })); }
                    if head == b"[CDATA[" { let v = self.until(b"]]>", "cdata")?; *buf = v; return Ok(Event::CData(BytesText { content: Cow::Borrowed(&buf[..]) })); }
                    if c == b'<' { depth += 1; }
                    if c == b'>' { if depth == 0 { break; } depth -= 1; }
                }
                head.pop();
                *buf = head;
                Ok(Event::DocType(BytesText { content: Cow::Borrowed(&buf[..]) }))
            }
            b'/' => {
                self.inner.consume(1);
                let mut v = self.until(b">", "end tag")?;
                while v.last().map_or(false, |c| c.is_ascii_whitespace()) { v.pop(); }
                match self.stack.pop() {
                    Some(open) if open == v => {}
                    open => return Err(Error::EndEventMismatch {
                        expected: String::from_utf8_lossy(&open.unwrap_or_default()).into(), found: String::from_utf8_lossy(&v).into() }),
                }
                *buf = v;
                Ok(Event::End(BytesEnd { name: Cow::Borrowed(&buf[..]) }))
            }
            _ => {
                let mut quote = 0u8;
                loop {
                    let c = { let b = self.inner.fill_buf()?; if b.is_empty() { return Err(Error::UnexpectedEof("start tag".into())); } b[0] };
                    self.inner.consume(1);
                    if quote != 0 { if c == quote { quote = 0; } }
                    else if c == b'"' || c == b'\'' { quote = c; }
                    else if c == b'>' { break; }
                    buf.push(c);
                }
                let empty = buf.last() == Some(&b'/');
                if empty { buf.pop(); }
                let n = buf.iter().position(|c| c.is_ascii_whitespace()).unwrap_or(buf.len());
                if !empty { self.stack.push(buf[..n].to_vec()); }
                let s = BytesStart { buf: Cow::Borrowed(&buf[..]), name_len: n };
                Ok(if empty { Event::Empty(s) } else { Event::Start(s) })
            }
        }
    }
}

pub struct Writer<W> { inner: W, indent: Option<(u8, usize)>, depth: usize, line_break: bool }
impl<W: Write> Writer<W> {
    pub fn new(inner: W) -> Self { Writer { inner, indent: None, depth: 0, line_break: false } }
    pub fn new_with_indent(inner: W, c: u8, n: usize) -> Self { Writer { inner, indent: Some((c, n)), depth: 0, line_break: false } }
    pub fn get_ref(&self) -> &W { &self.inner }
    pub fn get_mut(&mut self) -> &mut W { &mut self.inner }
    pub fn into_inner(self) -> W { self.inner }
    pub fn inner(&mut self) -> &mut W { &mut self.inner }
    pub fn write_indent(&mut self) -> Result<()> { if let Some((c, n)) = self.indent { self.inner.write_all(b"\n")?; for _ in 0..n * self.depth { self.inner.write_all(&[c])?; } } Ok(()) }
    fn wrapped(&mut self, a: &[u8], v: &[u8], z: &[u8]) -> Result<()> {
        if let Some((c, n)) = self.indent {
            if self.line_break { self.inner.write_all(b"\n")?; for _ in 0..n * self.depth { self.inner.write_all(&[c])?; } }
        }
        self.inner.write_all(a)?; self.inner.write_all(v)?; self.inner.write_all(z)?;
        Ok(())
    }
    pub fn write_event<'a, E: AsRef<Event<'a>>>(&mut self, e: E) -> Result<()> {
        let mut next = true;
        let r = match e.as_ref() {
            Event::Start(s) => { let r = self.wrapped(b"<", &s.buf, b">"); self.depth += 1; r }
            Event::End(s) => { self.depth = self.depth.saturating_sub(1); self.wrapped(b"</", &s.name, b">") }
            Event::Empty(s) => self.wrapped(b"<", &s.buf, b"/>"),
            Event::Text(t) => { next = false; self.inner.write_all(&t.content)?; Ok(()) }
            Event::CData(t) => { next = false; self.inner.write_all(b"<![CDATA[")?; self.inner.write_all(&t.content)?; self.inner.write_all(b"]]>")?; Ok(()) }
            Event::Comment(t) => self.wrapped(b"<!--", &t.content, b"-->"),
            Event::Decl(t) => self.wrapped(b"<?", &t.content, b"?>"),
            Event::PI(t) => self.wrapped(b"<?", &t.content, b"?>"),
            Event::DocType(t) => self.wrapped(b"<!DOCTYPE ", &t.content, b">"),
            Event::Eof => Ok(()),
        };
        self.line_break = next;
        r
    }
}
impl<'a> AsRef<Event<'a>> for Event<'a> { fn as_ref(&self) -> &Event<'a> { self } }
