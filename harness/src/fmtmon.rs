//! Formatting oracles: the same format string applied to two things must write the same.
use std::fmt::{self, Write};

/// A writer that fails once `left` bytes have been written
pub struct Lim {
    pub left: usize,
    pub out: String,
    pub calls: usize,
}
impl Lim {
    pub fn new(left: usize) -> Self {
        Lim { left, out: String::new(), calls: 0 }
    }
}
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}
pub fn limited(left: usize, a: fmt::Arguments<'_>) -> (bool, String) {
    let mut w = Lim::new(left);
    let r = w.write_fmt(a);
    (r.is_ok(), w.out)
}

/// Calls `$f(name, index, args_of_a, args_of_b)` for each format string
#[macro_export]
macro_rules! each_format {
    ($a:expr, $b:expr, [$($fmt:literal),* $(,)?], $f:expr) => {{
        $( $f($fmt, &|l| $crate::fmtmon::limited(l, format_args!($fmt, $a)), &|l| $crate::fmtmon::limited(l, format_args!($fmt, $b))); )*
    }};
}
#[macro_export]
macro_rules! each_debug {
    ($a:expr, $b:expr, $f:expr) => {
        $crate::each_format!($a, $b, ["{:?}", "{:#?}", "{:20?}", "{:>30?}", "{:^9?}", "{:<12?}", "{:*^25?}", "{:05?}", "{:+?}", "{:-?}", "{:.2?}", "{:+09.3?}", "{:x?}", "{:X?}", "{:#x?}", "{:#010x?}", "{:#X?}", "{:_<#18.1?}", "{:.0?}", "{:#.4?}"], $f)
    };
}
#[macro_export]
macro_rules! each_display {
    ($a:expr, $b:expr, $f:expr) => {
        $crate::each_format!($a, $b, ["{}", "{:#}", "{:20}", "{:>30}", "{:^9}", "{:<12}", "{:*^25}", "{:05}", "{:+}", "{:-}", "{:.2}", "{:+09.3}", "{:#012.5}", "{:_<18.1}", "{:.0}", "{:\u{1F980}>11}"], $f)
    };
}
#[macro_export]
macro_rules! each_numeric {
    ($a:expr, $b:expr, $f:expr) => {
        $crate::each_format!($a, $b, ["{:x}", "{:#x}", "{:X}", "{:#X}", "{:o}", "{:#o}", "{:b}", "{:#b}", "{:016x}", "{:#018x}", "{:>24x}", "{:<24X}", "{:^24o}", "{:*^80b}", "{:+x}", "{:#070b}", "{:030o}", "{:-<20X}"], $f)
    };
}
