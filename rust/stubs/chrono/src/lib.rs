//! Stand-in for the part of chrono that the Ficus backend uses: an instant with nanoseconds, RFC 3339 in and out.
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, Sub};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SecondsFormat { Secs, Millis, Micros, Nanos, AutoSi }
#[derive(Clone, PartialEq, Debug, Copy, Eq, Hash)]
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
pub type MappedLocalTime<T> = LocalResult<T>;
impl<T> LocalResult<T> {
    pub fn single(self) -> Option<T> { match self { LocalResult::Single(t) => Some(t), _ => None } }
    pub fn earliest(self) -> Option<T> { match self { LocalResult::Single(t) | LocalResult::Ambiguous(t, _) => Some(t), _ => None } }
    pub fn latest(self) -> Option<T> { match self { LocalResult::Single(t) | LocalResult::Ambiguous(_, t) => Some(t), _ => None } }
    pub fn unwrap(self) -> T { self.single().expect("No such local time") }
}
pub trait TimeZone: Clone + 'static {
    fn timestamp_opt(&self, secs: i64, nanos: u32) -> LocalResult<DateTime<Self>> {
        if nanos >= 2_000_000_000 { LocalResult::None } else { LocalResult::Single(DateTime::from_parts(secs, nanos)) }
    }
    fn timestamp_millis_opt(&self, ms: i64) -> LocalResult<DateTime<Self>> { LocalResult::Single(DateTime { nanos: ms as i128 * 1_000_000, tz: PhantomData }) }
    fn timestamp_nanos(&self, ns: i64) -> DateTime<Self> { DateTime { nanos: ns as i128, tz: PhantomData } }
    fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32) -> LocalResult<DateTime<Self>> {
        if !(1..=12).contains(&m) || d < 1 || d as i64 > month_days(y as i64, m as i64) || h > 23 || mi > 59 || s > 59 { return LocalResult::None; }
        LocalResult::Single(DateTime::from_parts(days_from_civil(y as i64, m as i64, d as i64) * 86400 + (h * 3600 + mi * 60 + s) as i64, 0))
    }
}
fn month_days(y: i64, m: i64) -> i64 {
    [31, if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
}
pub trait Datelike { fn year(&self) -> i32; fn month(&self) -> u32; fn day(&self) -> u32; fn ordinal(&self) -> u32; }
pub trait Timelike { fn hour(&self) -> u32; fn minute(&self) -> u32; fn second(&self) -> u32; fn nanosecond(&self) -> u32; }
impl<Tz> Datelike for DateTime<Tz> {
    fn year(&self) -> i32 { civil_from_days(self.timestamp().div_euclid(86400)).0 as i32 }
    fn month(&self) -> u32 { civil_from_days(self.timestamp().div_euclid(86400)).1 as u32 }
    fn day(&self) -> u32 { civil_from_days(self.timestamp().div_euclid(86400)).2 as u32 }
    fn ordinal(&self) -> u32 { (self.timestamp().div_euclid(86400) - days_from_civil(self.year() as i64, 1, 1) + 1) as u32 }
}
impl<Tz> Timelike for DateTime<Tz> {
    fn hour(&self) -> u32 { (self.timestamp().rem_euclid(86400) / 3600) as u32 }
    fn minute(&self) -> u32 { (self.timestamp().rem_euclid(3600) / 60) as u32 }
    fn second(&self) -> u32 { self.timestamp().rem_euclid(60) as u32 }
    fn nanosecond(&self) -> u32 { self.timestamp_subsec_nanos() }
}
pub mod prelude { pub use crate::{DateTime, Datelike, FixedOffset, SecondsFormat, TimeZone, Timelike, Utc}; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Utc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FixedOffset(i32);
impl TimeZone for Utc {}
impl TimeZone for FixedOffset {}
impl Utc {
    pub fn now() -> DateTime<Utc> {
        let d = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        DateTime::from_parts(d.as_secs() as i64, d.subsec_nanos())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Duration(i128);
pub type TimeDelta = Duration;
impl Duration {
    pub const fn nanoseconds(n: i64) -> Self { Duration(n as i128) }
    pub const fn microseconds(n: i64) -> Self { Duration(n as i128 * 1_000) }
    pub const fn milliseconds(n: i64) -> Self { Duration(n as i128 * 1_000_000) }
    pub const fn seconds(n: i64) -> Self { Duration(n as i128 * 1_000_000_000) }
    pub const fn minutes(n: i64) -> Self { Self::seconds(n * 60) }
    pub const fn hours(n: i64) -> Self { Self::seconds(n * 3600) }
    pub const fn days(n: i64) -> Self { Self::seconds(n * 86400) }
    pub const fn weeks(n: i64) -> Self { Self::days(n * 7) }
    pub const fn zero() -> Self { Duration(0) }
    pub const fn is_zero(&self) -> bool { self.0 == 0 }
    pub fn abs(&self) -> Self { Duration(self.0.abs()) }
    pub const fn num_weeks(&self) -> i64 { self.num_days() / 7 }
    pub const fn num_nanoseconds(&self) -> Option<i64> {
        if self.0 > i64::MAX as i128 || self.0 < i64::MIN as i128 { None } else { Some(self.0 as i64) }
    }
    pub const fn num_microseconds(&self) -> Option<i64> { Some((self.0 / 1_000) as i64) }
    pub const fn num_milliseconds(&self) -> i64 { (self.0 / 1_000_000) as i64 }
    pub const fn num_seconds(&self) -> i64 { (self.0 / 1_000_000_000) as i64 }
    pub const fn num_minutes(&self) -> i64 { self.num_seconds() / 60 }
    pub const fn num_hours(&self) -> i64 { self.num_seconds() / 3600 }
    pub const fn num_days(&self) -> i64 { self.num_seconds() / 86400 }
}

pub struct DateTime<Tz> { nanos: i128, tz: PhantomData<Tz> }
impl<Tz> Clone for DateTime<Tz> { fn clone(&self) -> Self { *self } }
impl<Tz> Copy for DateTime<Tz> {}
impl<Tz> PartialEq for DateTime<Tz> { fn eq(&self, o: &Self) -> bool { self.nanos == o.nanos } }
impl<Tz> Eq for DateTime<Tz> {}
impl<Tz> PartialOrd for DateTime<Tz> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<Tz> Ord for DateTime<Tz> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.nanos.cmp(&o.nanos) } }
impl<Tz> std::hash::Hash for DateTime<Tz> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.nanos.hash(h) } }

const fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, doy - (153 * mp + 2) / 5 + 1)
}

impl<Tz> DateTime<Tz> {
    pub const MIN_UTC: DateTime<Utc> = DateTime { nanos: days_from_civil(-262143, 1, 1) as i128 * 86_400_000_000_000, tz: PhantomData };
    pub const MAX_UTC: DateTime<Utc> =
        DateTime { nanos: (days_from_civil(262142, 12, 31) as i128 + 1) * 86_400_000_000_000 - 1, tz: PhantomData };
    fn from_parts(secs: i64, nanos: u32) -> Self { DateTime { nanos: secs as i128 * 1_000_000_000 + nanos as i128, tz: PhantomData } }
    pub fn timestamp(&self) -> i64 { self.nanos.div_euclid(1_000_000_000) as i64 }
    pub fn timestamp_millis(&self) -> i64 { self.nanos.div_euclid(1_000_000) as i64 }
    pub fn timestamp_micros(&self) -> i64 { self.nanos.div_euclid(1_000) as i64 }
    /// Like chrono 0.4.26: the whole seconds have to fit as well.
    pub fn timestamp_nanos(&self) -> i64 {
        self.timestamp().checked_mul(1_000_000_000).and_then(|n| n.checked_add(self.timestamp_subsec_nanos() as i64))
            .expect("value can not be represented in a timestamp with nanosecond precision.")
    }
    #[deprecated(note = "not in chrono 0.4.26")]
    pub fn timestamp_nanos_opt(&self) -> Option<i64> { i64::try_from(self.nanos).ok() }
    pub fn timestamp_subsec_nanos(&self) -> u32 { self.nanos.rem_euclid(1_000_000_000) as u32 }
    pub fn with_timezone<T2: TimeZone>(&self, _: &T2) -> DateTime<T2> { DateTime { nanos: self.nanos, tz: PhantomData } }
    pub fn signed_duration_since<T2>(self, o: DateTime<T2>) -> Duration { Duration(self.nanos - o.nanos) }
    fn text(&self, sep: char) -> String {
        let secs = self.timestamp();
        let (y, m, d) = civil_from_days(secs.div_euclid(86400));
        let t = secs.rem_euclid(86400);
        let n = self.timestamp_subsec_nanos();
        let year = if (0..=9999).contains(&y) { format!("{:04}", y) } else { format!("{:+05}", y) };
        let frac = if n == 0 { String::new() }
            else if n % 1_000_000 == 0 { format!(".{:03}", n / 1_000_000) }
            else if n % 1_000 == 0 { format!(".{:06}", n / 1_000) }
            else { format!(".{:09}", n) };
        format!("{}-{:02}-{:02}{}{:02}:{:02}:{:02}{}", year, m, d, sep, t / 3600, t / 60 % 60, t % 60, frac)
    }
    pub fn to_rfc3339(&self) -> String { self.text('T') + "+00:00" }
    pub fn to_rfc3339_opts(&self, f: SecondsFormat, use_z: bool) -> String {
        let whole = DateTime::<Tz>::from_parts(self.timestamp(), 0).text('T');
        let n = self.timestamp_subsec_nanos();
        let frac = match f {
            SecondsFormat::Secs => String::new(),
            SecondsFormat::Millis => format!(".{:03}", n / 1_000_000),
            SecondsFormat::Micros => format!(".{:06}", n / 1_000),
            SecondsFormat::Nanos => format!(".{:09}", n),
            SecondsFormat::AutoSi => return self.text('T') + if use_z { "Z" } else { "+00:00" },
        };
        whole + &frac + if use_z { "Z" } else { "+00:00" }
    }
    pub fn timestamp_subsec_millis(&self) -> u32 { self.timestamp_subsec_nanos() / 1_000_000 }
    pub fn timestamp_subsec_micros(&self) -> u32 { self.timestamp_subsec_nanos() / 1_000 }
    pub fn to_utc(&self) -> DateTime<Utc> { DateTime { nanos: self.nanos, tz: PhantomData } }
    pub fn checked_add_signed(self, d: Duration) -> Option<Self> { Some(DateTime { nanos: self.nanos + d.0, tz: PhantomData }) }
    pub fn checked_sub_signed(self, d: Duration) -> Option<Self> { Some(DateTime { nanos: self.nanos - d.0, tz: PhantomData }) }
    /// %Y %m %d %H %M %S %f %.f %3f %z %:z %s %T %F only.
    pub fn format(&self, pattern: &str) -> String {
        let (y, m, d) = (self.year(), self.month(), self.day());
        let (h, mi, s, n) = (self.hour(), self.minute(), self.second(), self.nanosecond());
        let mut out = pattern.to_owned();
        for (k, v) in [("%Y", format!("{:04}", y)), ("%m", format!("{:02}", m)), ("%d", format!("{:02}", d)), ("%H", format!("{:02}", h)),
            ("%M", format!("{:02}", mi)), ("%S", format!("{:02}", s)), ("%.3f", format!(".{:03}", n / 1_000_000)), ("%.6f", format!(".{:06}", n / 1_000)),
            ("%.9f", format!(".{:09}", n)), ("%3f", format!("{:03}", n / 1_000_000)), ("%f", format!("{:09}", n)), ("%:z", "+00:00".into()), ("%z", "+0000".into()),
            ("%s", self.timestamp().to_string()), ("%T", format!("{:02}:{:02}:{:02}", h, mi, s)), ("%F", format!("{:04}-{:02}-{:02}", y, m, d))] {
            out = out.replace(k, &v);
        }
        out
    }
}
impl DateTime<Utc> {
    pub fn from_timestamp(secs: i64, nanos: u32) -> Option<Self> { Some(Self::from_parts(secs, nanos)) }
    pub fn from_timestamp_millis(ms: i64) -> Option<Self> { Some(DateTime { nanos: ms as i128 * 1_000_000, tz: PhantomData }) }
    pub fn from_timestamp_nanos(ns: i64) -> Self { DateTime { nanos: ns as i128, tz: PhantomData } }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError;
pub type ParseResult<T> = Result<T, ParseError>;
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bad date") } }
impl std::error::Error for ParseError {}

impl DateTime<FixedOffset> {
    pub fn parse_from_rfc3339(s: &str) -> Result<Self, ParseError> {
        let b = s.as_bytes();
        let num = |from: usize, to: usize| -> Result<i64, ParseError> {
            let part = b.get(from..to).ok_or(ParseError)?;
            if part.is_empty() || !part.iter().all(|c| c.is_ascii_digit()) { return Err(ParseError); }
            std::str::from_utf8(part).unwrap().parse().map_err(|_| ParseError)
        };
        let is = |i: usize, c: &[u8]| -> Result<(), ParseError> { b.get(i).filter(|x| c.contains(x)).map(|_| ()).ok_or(ParseError) };
        let (y, m, d) = (num(0, 4)?, num(5, 7)?, num(8, 10)?);
        is(4, b"-")?; is(7, b"-")?; is(10, b"Tt ")?; is(13, b":")?; is(16, b":")?;
        let (h, mi, sec) = (num(11, 13)?, num(14, 16)?, num(17, 19)?);
        let days_in_month = [31, if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        if !(1..=12).contains(&m) || d < 1 || d > days_in_month[(m - 1) as usize] || h > 23 || mi > 59 || sec > 60 { return Err(ParseError); }
        let mut i = 19;
        let mut nanos = 0i128;
        if b.get(i) == Some(&b'.') {
            let from = i + 1;
            i = from;
            while b.get(i).map_or(false, |c| c.is_ascii_digit()) { i += 1; }
            if i == from { return Err(ParseError); }
            let mut digits = String::from_utf8(b[from..i].to_vec()).unwrap();
            digits.truncate(9);
            while digits.len() < 9 { digits.push('0'); }
            nanos = digits.parse().unwrap();
        }
        let off = match b.get(i) {
            Some(b'Z') | Some(b'z') if i + 1 == b.len() => 0,
            Some(c @ (b'+' | b'-')) if i + 6 == b.len() => {
                is(i + 3, b":")?;
                let (oh, om) = (num(i + 1, i + 3)?, num(i + 4, i + 6)?);
                if om > 59 || oh > 23 { return Err(ParseError); }
                (oh * 60 + om) * 60 * if *c == b'+' { 1 } else { -1 }
            }
            _ => return Err(ParseError),
        };
        let secs = days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + sec - off;
        Ok(DateTime { nanos: secs as i128 * 1_000_000_000 + nanos, tz: PhantomData })
    }
}
impl<Tz> Add<Duration> for DateTime<Tz> { type Output = Self; fn add(self, d: Duration) -> Self { DateTime { nanos: self.nanos + d.0, tz: PhantomData } } }
impl<Tz> Sub<Duration> for DateTime<Tz> { type Output = Self; fn sub(self, d: Duration) -> Self { DateTime { nanos: self.nanos - d.0, tz: PhantomData } } }
impl<Tz> Sub<DateTime<Tz>> for DateTime<Tz> { type Output = Duration; fn sub(self, d: DateTime<Tz>) -> Duration { Duration(self.nanos - d.nanos) } }
impl<Tz> fmt::Display for DateTime<Tz> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{} UTC", self.text(' ')) } }
impl<Tz> fmt::Debug for DateTime<Tz> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}Z", self.text('T')) } }
impl std::str::FromStr for DateTime<Utc> {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> { DateTime::parse_from_rfc3339(s).map(|d| d.with_timezone(&Utc)) }
}
impl<Tz> std::ops::AddAssign<Duration> for DateTime<Tz> { fn add_assign(&mut self, d: Duration) { self.nanos += d.0 } }
impl<Tz> std::ops::SubAssign<Duration> for DateTime<Tz> { fn sub_assign(&mut self, d: Duration) { self.nanos -= d.0 } }
impl Add for Duration { type Output = Duration; fn add(self, d: Duration) -> Duration { Duration(self.0 + d.0) } }
impl Sub for Duration { type Output = Duration; fn sub(self, d: Duration) -> Duration { Duration(self.0 - d.0) } }
impl std::ops::Mul<i32> for Duration { type Output = Duration; fn mul(self, d: i32) -> Duration { Duration(self.0 * d as i128) } }
impl std::ops::Div<i32> for Duration { type Output = Duration; fn div(self, d: i32) -> Duration { Duration(self.0 / d as i128) } }
impl std::ops::Neg for Duration { type Output = Duration; fn neg(self) -> Duration { Duration(-self.0) } }
impl Default for DateTime<Utc> { fn default() -> Self { DateTime { nanos: 0, tz: PhantomData } } }
impl From<DateTime<FixedOffset>> for DateTime<Utc> { fn from(d: DateTime<FixedOffset>) -> Self { d.to_utc() } }
