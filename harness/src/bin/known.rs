//! Programs that show the known findings of C16 and C18, one per run; nothing else is wrong with them
use std::cell::RefCell;
use std::fmt::{self, Debug, Formatter};
use std::sync::Mutex;
use tbmon::prelude::*;

mod plain {
    use super::*;
    tagged_box! { #[derive(Debug, Clone, PartialEq)] pub struct C, pub enum I { A(String), B(u8), } }
}
/// Safe code boxes a value of a type that the variant of that discriminant doesn't have
fn another_type() {
    let b: TaggedBox<plain::I> = TaggedBox::new(0x4141_4141_4141_4141u64, 0);
    match plain::I::from_tagged_box(b) {
        plain::I::A(s) => println!("{}", s),
        plain::I::B(n) => println!("{}", n),
    }
}
/// A safe Debug that remembers how often it was asked
struct Log(RefCell<Vec<u64>>);
impl Debug for Log {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut v = self.0.borrow_mut();
        let n = v.len() as u64;
        v.push(n);
        write!(f, "{}", n)
    }
}
impl Clone for Log {
    fn clone(&self) -> Self {
        Log(RefCell::new(self.0.borrow().clone()))
    }
}
mod logs {
    use super::*;
    tagged_box! { #[derive(Debug, Clone)] pub struct C, pub enum I { A(Log), } }
}
/// Safe code whose value grows when it is formatted: the box goes on with the freed buffer
fn growing() {
    let c = logs::C::from(Log(RefCell::new(vec![7])));
    for _ in 0..8 {
        println!("{:?}", c);
    }
    let logs::I::A(l) = c.into_inner();
    println!("{}", l.0.borrow().len());
}
/// Equal if the counters are, and counts the comparisons
struct Counted(Mutex<Vec<u64>>);
impl PartialEq for Counted {
    fn eq(&self, other: &Self) -> bool {
        self.0.lock().unwrap()[0] += 1;
        std::ptr::eq(self, other)
    }
}
mod counted {
    use super::*;
    tagged_box! { #[derive(PartialEq)] pub struct C, pub enum I { A(Counted), } }
}
/// Two threads compare a shared box: each locks its own copy of the mutex
fn locked() {
    let c = counted::C::from(Counted(Mutex::new(vec![0])));
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| {
                for _ in 0..3 {
                    let _ = c == c;
                    std::thread::yield_now();
                }
            });
        }
    });
}
fn main() {
    let mut cx = Cx::new("known");
    let a = std::env::args().nth(1).unwrap_or_default();
    cx.case(a.clone());
    match a.as_str() {
        "another-type" => another_type(),
        "growing" => growing(),
        "locked" => locked(),
        _ => panic!("which one?"),
    }
    cx.eval(a.as_bytes());
    cx.finish()
}
