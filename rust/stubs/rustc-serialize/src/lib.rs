//! Stand-in: nothing of rustc-serialize is used.
