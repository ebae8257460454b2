//! Pieces shared by the drivers.
use crate::prelude::*;
use std::fmt::{Debug, Display, Write};

/// A writer that keeps nothing: formatting into it allocates nothing of its own
pub struct Sink(pub usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
pub fn sink<T: Debug + ?Sized>(t: &T) -> usize {
    let mut s = Sink(0);
    let _ = write!(s, "{:?}", t);
    s.0
}
pub fn sink_display<T: Display + ?Sized>(t: &T) -> usize {
    let mut s = Sink(0);
    let _ = write!(s, "{}", t);
    s.0
}

/// One container the driver believes to hold `enc`, owning the tokens `toks`
pub struct Held<S: Subject> {
    pub c: S::C,
    pub v: usize,
    pub enc: Enc,
    pub toks: Vec<u32>,
}
impl<S: Subject> Held<S> {
    pub fn new(v: usize, r: &mut Rng) -> Self {
        let (c, enc, toks) = make::<S>(v, r, r.clone().idx(MAKES));
        let toks = if toks.is_empty() { view_toks::<S>(&c) } else { toks };
        Held { c, v, enc, toks }
    }
    /// Is the container as it should be? (a view, the discriminant and the tokens)
    pub fn intact(&self) -> Result<(), String> {
        let (n, e) = view::<S>(&self.c);
        if n != 1 {
            return Err(format!("a view ran its callback {} times", n));
        }
        let e = e.unwrap();
        if e != self.enc {
            return Err(format!("holds {} instead of {}", show(&e), show(&self.enc)));
        }
        let d = S::boxed(&self.c).discriminant() as usize;
        if d != self.v {
            return Err(format!("discriminant {} instead of {}", d, self.v));
        }
        if let Some(t) = self.toks.iter().find(|t| !tok::alive(**t)) {
            return Err(format!("its token {} has been dropped", t));
        }
        Ok(())
    }
}
