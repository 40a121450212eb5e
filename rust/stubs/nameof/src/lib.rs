//! Stand-in for the macros of nameof.
#[macro_export]
macro_rules! name_of_type { ($t:ty) => {{ let _ = || { let _: Option<$t> = None; }; stringify!($t) }}; }
#[macro_export]
macro_rules! name_of { ($n:ident) => {{ let _ = || { let _ = &$n; }; stringify!($n) }}; }
