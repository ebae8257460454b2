//! C17: an allocation that fails makes the operation fail and nothing else. Every scenario runs in a
//! child process, which is started again behind a scenario that ended in an allocation-error abort.
#![recursion_limit = "4096"]
use std::fmt::{Debug, Display};
use tbmon::drive::*;
use tbmon::prelude::*;
use std::os::unix::fs::FileExt;
tbmon::subjects!();

/// Where the child is: (enum, variant, operation, allocation)
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct At(u16, u16, u16, u16);
struct Child {
    cx: Cx,
    from: At,
    log: std::fs::File,
    e: u16,
    failed: u64,
    through: u64,
}
impl Child {
    fn say(&self, at: At, tag: &str) {
        let mut b = format!("{} {} {} {} {} {} {}", at.0, at.1, at.2, at.3, self.failed, self.through, tag).into_bytes();
        b.resize(300, b' ');
        let _ = self.log.write_at(&b, 0);
    }
    fn bad(&mut self, sig: &str, d: String) {
        println!("V {}\t{}", sig, d.replace('\n', " "));
    }
}
const OPS: u16 = 9;
const OP: [&str; OPS as usize] = ["From<enum>", "into_tagged_box", "payload", "box clone", "container clone", "into_inner", "raw", "From<enum> of a clone", "view"];
enum Out<S: Subject> {
    C(S::C),
    I(S::I),
    Nothing,
}
fn operate<S: Subject>(op: u16, v: usize, i: S::I, spare: Option<S::C>, old: &S::C, r: &mut Rng) -> Out<S>
where
    S::I: Clone + PartialEq,
    S::C: Clone,
{
    match op {
        0 => Out::C(S::C::from(i)),
        1 => Out::C(S::wrap(i.into_tagged_box())),
        2 => S::from_payload(v, r).map_or(Out::Nothing, |x| Out::C(x.0)),
        3 => Out::C(S::wrap(S::boxed(old).clone())),
        4 => Out::C(old.clone()),
        5 => Out::I(spare.unwrap().into_inner()),
        6 => Out::C(S::wrap(S::into_raw_and_back(v, i.into_tagged_box()))),
        7 => Out::C(S::C::from(i.clone())),
        _ => {
            unsafe { S::I::ref_from_tagged_box(S::boxed(old), |i| drop(i == i)) };
            Out::Nothing
        }
    }
}
impl Child {
    fn allocations<S: Subject>(&mut self, v: usize, op: u16, seed: u64) -> u16
    where
        S::I: Clone + PartialEq,
        S::C: Clone,
    {
        let mut r = Rng::new(seed);
        let held: Vec<Held<S>> = (0..3).map(|k| Held::new(if k == 0 { v } else { r.clone().idx(S::n()) }, &mut r)).collect();
        let i = S::gen(v, &mut r);
        let spare = if op == 5 { Some(S::C::from(S::gen(v, &mut r.clone()))) } else { None };
        let a0 = mem::allocations();
        let out = operate::<S>(op, v, i, spare, &held[0].c, &mut r);
        let n = mem::allocations() - a0;
        if let Out::C(c) = out {
            drop(c.into_inner())
        }
        for h in held {
            drop(h.c.into_inner())
        }
        n as u16
    }
}
impl GoFull for Child {
    fn go<S: Subject>(&mut self)
    where
        S::I: Debug + Display + Clone + PartialEq + PartialOrd,
        S::C: Debug + Clone + PartialEq + PartialOrd,
    {
        let e = self.e;
        self.e += 1;
        for v in 0..S::n() {
            for op in 0..OPS {
                if At(e, v as u16, op, u16::MAX) < self.from {
                    continue;
                }
                let seed = self.cx.seed ^ (e as u64) << 32 ^ (v as u64) << 16 ^ op as u64;
                // how many allocations there are: the box's own, and those of user code, of which only some are refused
                let all = self.allocations::<S>(v, op, seed);
                let some = tbmon::rng::hash(&seed.to_le_bytes()) % 6;
                for n in 1..all + 2 {
                    let at = At(e, v as u16, op, n);
                    if at <= self.from || !(n >= all || n + 1 == all && some == 0 || n == 1 && some == 1) {
                        continue;
                    }
                    let mut r = Rng::new(seed);
                    let held: Vec<Held<S>> = (0..3).map(|k| Held::new(if k == 0 { v } else { r.clone().idx(S::n()) }, &mut r)).collect();
                    let name = format!("{}::{} {} with allocation {} refused", S::NAME, S::VARIANTS[v], OP[op as usize], n);
                    let i = S::gen(v, &mut r);
                    let want = S::enc(&i);
                    let spare = if op == 5 { Some(S::C::from(S::gen(v, &mut r.clone()))) } else { None };
                    let spare_want = S::enc(&S::gen(v, &mut r.clone()));
                    let c0 = tok::census();
                    self.say(at, &name);
                    let f0 = mem::failures();
                    mem::fail_nth(n as i64);
                    let res = catch(|| operate::<S>(op, v, i, spare, &held[0].c, &mut r));
                    mem::fail_nth(0);
                    let failed = mem::failures() > f0;
                    self.say(at, &format!("{}, afterwards", name));
                    let c1 = tok::census();
                    if c1.double != c0.double || c1.garbage != c0.garbage {
                        self.bad("double-drop", format!("{}: {} values were destroyed twice", name, c1.double - c0.double + c1.garbage - c0.garbage));
                    }
                    for h in &held {
                        if let Err(m) = h.intact() {
                            self.bad("damaged", format!("{}: {}", name, m));
                        }
                    }
                    match &res {
                        Ok(_) if failed => self.bad("ignored", format!("{}: the operation carried on", name)),
                        Err(m) if !failed => self.bad("panic", format!("{}: {}", name, m)),
                        _ => {}
                    }
                    *(if failed { &mut self.failed } else { &mut self.through }) += 1;
                    println!("H {}", tbmon::rng::hash(name.as_bytes()));
                    match res {
                        Ok(Out::C(c)) => {
                            let i = c.into_inner();
                            if op != 2 && op != 3 && op != 4 && S::enc(&i) != want {
                                self.bad("value", format!("{}: {} instead of {}", name, show(&S::enc(&i)), show(&want)));
                            }
                        }
                        Ok(Out::I(i)) => {
                            if S::enc(&i) != spare_want {
                                self.bad("value", format!("{}: {} instead of {}", name, show(&S::enc(&i)), show(&want)));
                            }
                            drop(i)
                        }
                        _ => {}
                    }
                    // boxing works again
                    let again = catch(|| Held::<S>::new(v, &mut r).intact());
                    if !matches!(again, Ok(Ok(()))) {
                        self.bad("again", format!("{}: afterwards boxing gives {:?}", name, again));
                    }
                    for h in held {
                        let (v, e) = (h.v, h.enc);
                        let i = take::<S>(v, h.c, r.idx(TAKES));
                        if S::enc(&i) != e {
                            self.bad("damaged", format!("{}: an older box gave {} instead of {}", name, show(&S::enc(&i)), show(&e)));
                        }
                    }
                    let c2 = tok::census();
                    if c2.double != c0.double || c2.garbage != c0.garbage {
                        self.bad("double-drop", format!("{}: {} values were destroyed twice in the end", name, c2.double - c0.double + c2.garbage - c0.garbage));
                    }
                    if (self.failed + self.through) % 64 == 0 {
                        for (k, d) in mem::take_violations() {
                            self.bad(&format!("heap:{}", k), format!("up to {}: {}", name, d));
                        }
                    }
                    if tok::filling() {
                        tok::reset()
                    }
                    if !failed {
                        break;
                    }
                }
            }
        }
    }
}
/// TaggedBox::new and new_unchecked themselves
fn boxes(ch: &mut Child) {
    enum E {}
    fn one<T: Val>(ch: &mut Child, name: &str, k: u16) {
        for un in 0..2u16 {
            let at = At(u16::MAX, k, un, 1);
            if at <= ch.from {
                continue;
            }
            let mut r = Rng::new(ch.cx.seed ^ k as u64);
            let t = T::gen(&mut r);
            let name = format!("TaggedBox::{} of a {} with its allocation refused", ["new", "new_unchecked"][un as usize], name);
            ch.say(at, &name);
            let (c0, f0) = (tok::census(), mem::failures());
            mem::fail_nth(1);
            let res = catch(|| if un == 0 { TaggedBox::<E>::new(t, 1) } else { unsafe { TaggedBox::<E>::new_unchecked(t, 1) } });
            mem::fail_nth(0);
            let failed = mem::failures() > f0;
            let c1 = tok::census();
            if c1.double != c0.double || c1.garbage != c0.garbage {
                ch.bad("double-drop", name.clone());
            }
            match res {
                Ok(_) if failed => ch.bad("ignored", format!("{}: there is a box", name)),
                Err(m) if !failed => ch.bad("panic", format!("{}: {}", name, m)),
                Ok(b) => {
                    unsafe { drop(TaggedBox::into_box::<T>(b)) };
                }
                _ => {}
            }
            *(if failed { &mut ch.failed } else { &mut ch.through }) += 1;
            println!("H {}", tbmon::rng::hash(name.as_bytes()));
        }
    }
    macro_rules! each { ($($t:ty),*) => { let mut k = 0; $( one::<$t>(ch, stringify!($t), k); k += 1; )* let _ = k; } }
    each!(u8, u64, u128, String, Tok, ZTok, (), Al64, AlTop, Big<5000>, Vec<Tok>, [Tok; 2], Z128, Box<Tok>);
}
fn child(path: &str, from: &str) -> ! {
    let f: Vec<u16> = from.split(',').map(|x| x.parse().unwrap()).collect();
    let log = std::fs::OpenOptions::new().write(true).open(path).unwrap();
    let mut ch = Child { cx: Cx::new("C17"), from: At(f[0], f[1], f[2], f[3]), log, e: 0, failed: 0, through: 0 };
    subjects::full(&mut ch);
    boxes(&mut ch);
    ch.say(At(u16::MAX, u16::MAX, u16::MAX, u16::MAX), "the end");
    for (k, d) in mem::take_violations() {
        ch.bad(&format!("heap:{}", k), d);
    }
    ch.cx.finish()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 {
        child(&a[1], &a[2])
    }
    let mut cx = Cx::new("C17");
    let path = std::env::var("MON_CRUMB").unwrap_or_else(|_| format!("/tmp/c17-{}", std::process::id())) + ".c17";
    let mut from = "0,0,0,0".to_string();
    for _ in 0..20_000 {
        std::fs::write(&path, "start").unwrap();
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args([&path, &from]).env("RUST_BACKTRACE", "0").output().expect("a child process");
        let (so, se) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
        for l in so.lines().filter_map(|l| l.strip_prefix("V ")) {
            let (s, d) = l.split_once('\t').unwrap_or((l, ""));
            cx.case(String::new());
            cx.violation(s, d.into());
        }
        let at = std::fs::read_to_string(&path).unwrap_or_default().trim().to_string();
        for h in so.lines().filter_map(|l| l.strip_prefix("H ")) {
            cx.eval_hash(h.parse().unwrap_or(0))
        }
        let f: Vec<u64> = at.split(' ').skip(4).take(2).filter_map(|x| x.parse().ok()).collect();
        if let [x, y] = f[..] {
            cx.count("failed with a panic", x);
            cx.count("went through", y);
        }
        if so.lines().any(|l| l.starts_with("MONRESULT")) && out.status.success() {
            break;
        }
        use std::os::unix::process::ExitStatusExt;
        cx.eval(at.as_bytes());
        cx.case(at.clone());
        let afterwards = at.ends_with(", afterwards");
        if out.status.signal() == Some(6) && se.contains("memory allocation of") && !afterwards {
            cx.count("failed with the allocation-error abort", 1);
        } else {
            cx.violation("died", format!("{:?}: {}", out.status, &se[se.len().saturating_sub(400)..]));
            if cx.evals == 0 || !at.contains(' ') {
                break;
            }
        }
        let p: Vec<&str> = at.split(' ').take(4).collect();
        if p.len() < 4 {
            break;
        }
        from = p.join(",");
    }
    let _ = std::fs::remove_file(&path);
    cx.finish()
}
