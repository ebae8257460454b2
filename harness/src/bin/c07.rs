//! C07: every shape survives the round trip
#![recursion_limit = "4096"]
use tbmon::prelude::*;
tbmon::subjects!();

struct D<'a>(&'a mut Cx);
impl Go for D<'_> {
    fn go<S: Subject>(&mut self) {
        let cx = &mut *self.0;
        let per = cx.n(3);
        for v in 0..S::n() {
            for mk in 0..MAKES {
                for tk in 0..TAKES {
                    for k in 0..per {
                        let mut r = Rng::new(cx.rng.u64());
                        cx.case(format!("{}::{} make={} take={} value={}", S::NAME, S::VARIANTS[v], mk, tk, k));
                        let res = catch(|| {
                            let (c, e, t) = make::<S>(v, &mut r, mk);
                            let alive = t.iter().all(|t| tok::alive(*t));
                            let pk = S::peek(v, S::boxed(&c));
                            let i = take::<S>(v, c, tk);
                            let got = S::enc(&i);
                            let t2 = S::toks(&i);
                            (e, t, alive, pk, got, t2)
                        });
                        match res {
                            Err(m) => cx.violation("roundtrip:panic", m),
                            Ok((e, t, alive, pk, got, t2)) => {
                                cx.eval(&[S::NAME.as_bytes(), &[v as u8, (v >> 8) as u8, mk as u8, tk as u8], &got.1].concat());
                                cx.check(got == e, "roundtrip:changed", || format!("stored {} got {}", show(&e), show(&got)));
                                cx.check(alive && (t.is_empty() || t == t2), "roundtrip:owned-parts", || format!("owned {:?} (alive: {}), got {:?}", t, alive, t2));
                                if let Some(p) = pk {
                                    cx.check(p == e.1, "roundtrip:peek", || format!("as_ref saw {:02x?} instead of {}", p, show(&e)));
                                }
                                cx.observe(&got.1);
                            }
                        }
                    }
                }
            }
            // payload and variant give the same container
            for k in 0..per {
                let seed = cx.rng.u64();
                cx.case(format!("{}::{} From<payload> against From<enum> value={}", S::NAME, S::VARIANTS[v], k));
                let res = catch(|| {
                    S::from_payload(v, &mut Rng::new(seed)).map(|(c, e)| {
                        let i = c.into_inner();
                        let j = S::C::from(S::gen(v, &mut Rng::new(seed))).into_inner();
                        (e, S::enc(&i), S::enc(&j))
                    })
                });
                match res {
                    Err(m) => cx.violation("payload:panic", m),
                    Ok(None) => {}
                    Ok(Some((e, a, b))) => {
                        cx.eval(&[S::NAME.as_bytes(), &[v as u8, 99], &a.1].concat());
                        cx.count("payload conversions compared", 1);
                        cx.check(a == e && a == b, "payload:changed", || format!("payload {}, from payload {}, from variant {}", show(&e), show(&a), show(&b)));
                    }
                }
            }
            cx.count("variants", 1);
            if tok::filling() {
                tok::reset();
            }
        }
        cx.count("enums", 1);
        cx.collect();
    }
}
fn main() {
    let mut cx = Cx::new("C07");
    tbmon::never::all(&mut cx, &["made", "into_inner", "taken out"]);
    subjects::all(&mut D(&mut cx));
    cx.finish()
}
