//! C21: the same with the standard library
include!("../work.rs");
fn main() {
    std::panic::set_hook(Box::new(|_| {
        println!("panicked");
        std::process::exit(42)
    }));
    let a: Vec<String> = std::env::args().collect();
    work(a.get(1).map_or(0, |s| s.parse().unwrap()), a.get(2).map(|s| s.parse().unwrap()), &mut |s| println!("{}", s));
}
