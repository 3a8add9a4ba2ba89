//! Combinators of futures with outputs of different types.
use crate::util::*;
use async_ui_web_core::combinators::{join, race, race_ok, try_join};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};

trait V: 'static {
    fn mk(i: u32) -> Self;
    fn is(&self, i: u32) -> bool;
}
impl V for () {
    fn mk(_: u32) {}
    fn is(&self, _: u32) -> bool {
        true
    }
}
impl V for u8 {
    fn mk(i: u32) -> u8 {
        i as u8 + 1
    }
    fn is(&self, i: u32) -> bool {
        *self == i as u8 + 1
    }
}
#[repr(align(32))]
struct Wide([u64; 5]);
impl V for Wide {
    fn mk(i: u32) -> Wide {
        Wide([i as u64 + 7; 5])
    }
    fn is(&self, i: u32) -> bool {
        self.0.iter().all(|x| *x == i as u64 + 7) && self as *const _ as usize % 32 == 0
    }
}
impl V for Box<u32> {
    fn mk(i: u32) -> Box<u32> {
        Box::new(i + 3)
    }
    fn is(&self, i: u32) -> bool {
        **self == i + 3
    }
}
/// not an error, but as large as one
impl V for Option<Box<u8>> {
    fn mk(i: u32) -> Self {
        (i & 1 == 0).then(|| Box::new(i as u8))
    }
    fn is(&self, i: u32) -> bool {
        self.as_deref() == (i & 1 == 0).then_some(&(i as u8))
    }
}
/// is pending `left` times
struct P<T> {
    i: u32,
    left: u32,
    ok: bool,
    done: bool,
    t: PhantomData<fn() -> T>,
}
impl<T> P<T> {
    fn any(i: u32) -> Self {
        let (left, ok) = (nd::pick(0, 1), nd::any_bool());
        P { i, left, ok, done: false, t: PhantomData }
    }
    fn plan(&self) -> (u32, bool) {
        (self.left, self.ok)
    }
    fn step(&mut self, cx: &mut Context<'_>) -> bool {
        nd::check(!self.done, "[C01 C02] a subfuture is polled after it completed");
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
        } else {
            self.done = true;
        }
        self.done
    }
}
/// with the plain output
struct Plain<T>(P<T>);
/// with the output in a result
struct Res<T, E>(P<T>, PhantomData<fn() -> E>);
impl<T: V> Future for Plain<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        match self.0.step(cx) {
            true => Poll::Ready(T::mk(self.0.i)),
            false => Poll::Pending,
        }
    }
}
impl<T: V, E: V> Future for Res<T, E> {
    type Output = Result<T, E>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<T, E>> {
        let i = self.0.i;
        match self.0.step(cx) {
            true => Poll::Ready(if self.0.ok { Ok(T::mk(i)) } else { Err(E::mk(i)) }),
            false => Poll::Pending,
        }
    }
}
fn plain<T: V>(i: u32, plans: &mut Vec<(u32, bool)>) -> Plain<T> {
    let p = P::any(i);
    plans.push(p.plan());
    Plain(p)
}
fn res<T: V, E: V>(i: u32, plans: &mut Vec<(u32, bool)>) -> Res<T, E> {
    let p = P::any(i);
    plans.push(p.plan());
    Res(p, PhantomData)
}
/// Polls `f` until it ends, or until it has been polled as often as it may be.
fn drive<F: Future>(f: F) -> Option<F::Output> {
    let mut m = Mounted::at(f, div());
    let limit = nd::pick(0, 4);
    let mut out = None;
    for _ in 0..limit {
        match m.poll() {
            Poll::Ready(x) => {
                nd::cover(1);
                out = Some(x);
                break;
            }
            Poll::Pending => nd::check(m.woken(), "[C03] a wake-up is lost"),
        }
    }
    if out.is_none() {
        nd::cover(2);
        nd::check(limit < 3, "[C01 C02 C03] the combinator does not complete");
    }
    out
}
const WRONG: &str = "[C01 C02] an output is wrong";
fn each<T: V>(out: &[T], n: u32) {
    nd::check(out.len() as u32 == n && out.iter().enumerate().all(|(i, x)| x.is(i as u32)), WRONG);
}
/// the outcome is what one of the subfutures that decide it first gave
fn some<T: V>(x: &T, plans: &[(u32, bool)], may: impl Fn(&(u32, bool)) -> bool) {
    let soon = plans.iter().filter(|p| may(p)).map(|p| p.0).min();
    let ok = |i: usize| may(&plans[i]) && Some(plans[i].0) == soon;
    nd::check((0..plans.len()).any(|i| ok(i) && x.is(i as u32)), WRONG);
}
fn go<T: V, E: V>(kind: u32) {
    let n = nd::pick(0, 3);
    let vec = nd::any_bool();
    nd::assume(vec || n == 3);
    let mut plans = vec![];
    let p = &mut plans;
    match kind {
        0 => {
            let v: Vec<Plain<T>> = (0..n).map(|i| plain(i, p)).collect();
            if vec {
                if let Some(x) = drive(join(v)) {
                    each(&x, n);
                }
            } else if let Some(x) = drive(join(<[Plain<T>; 3]>::try_from(v).ok().unwrap())) {
                each(&x, n);
            }
        }
        1 => {
            nd::assume(n > 0);
            let v: Vec<Plain<T>> = (0..n).map(|i| plain(i, p)).collect();
            let x = if vec { drive(race(v)) } else { drive(race(<[Plain<T>; 3]>::try_from(v).ok().unwrap())) };
            if let Some(x) = x {
                some(&x, &plans, |_| true);
            }
        }
        2 => {
            let v: Vec<Res<T, E>> = (0..n).map(|i| res(i, p)).collect();
            let x = if vec {
                drive(try_join(v)).map(|r| r.map(|x| each(&x, n)))
            } else {
                drive(try_join(<[Res<T, E>; 3]>::try_from(v).ok().unwrap())).map(|r| r.map(|x| each(&x, n)))
            };
            match x {
                Some(Ok(())) => nd::check(plans.iter().all(|p| p.1), WRONG),
                Some(Err(e)) => some(&e, &plans, |p| !p.1),
                None => {}
            }
        }
        _ => {
            nd::assume(n > 0);
            let v: Vec<Res<T, E>> = (0..n).map(|i| res(i, p)).collect();
            let x = if vec {
                drive(race_ok(v)).map(|r| r.map_err(|x| each(&x, n)))
            } else {
                drive(race_ok(<[Res<T, E>; 3]>::try_from(v).ok().unwrap())).map(|r| r.map_err(|x| each(&x, n)))
            };
            match x {
                Some(Err(())) => nd::check(plans.iter().all(|p| !p.1), WRONG),
                Some(Ok(x)) => some(&x, &plans, |p| p.1),
                None => {}
            }
        }
    }
}
/// Tuples of different types.
fn mixed<A: V, B: V, C: V, E: V>(kind: u32) {
    let mut plans = vec![];
    let p = &mut plans;
    match kind {
        0 => {
            if let Some((a, b, c)) = drive(join((plain::<A>(0, p), plain::<B>(1, p), plain::<C>(2, p)))) {
                nd::check(a.is(0) && b.is(1) && c.is(2), WRONG);
            }
        }
        1 => {
            let x = drive(race((plain::<A>(0, p), plain::<A>(1, p), plain::<A>(2, p))));
            if let Some(x) = x {
                some(&x, &plans, |_| true);
            }
        }
        2 => match drive(try_join((res::<A, E>(0, p), res::<B, E>(1, p), res::<C, E>(2, p)))) {
            Some(Ok((a, b, c))) => nd::check(a.is(0) && b.is(1) && c.is(2) && plans.iter().all(|p| p.1), WRONG),
            Some(Err(e)) => some(&e, &plans, |p| !p.1),
            None => {}
        },
        _ => match drive(race_ok((res::<A, B>(0, p), res::<A, C>(1, p), res::<A, E>(2, p)))) {
            Some(Err(e)) => {
                let (b, c, e) = e.into();
                nd::check(b.is(0) && c.is(1) && e.is(2) && plans.iter().all(|p| !p.1), WRONG)
            }
            Some(Ok(x)) => some(&x, &plans, |p| p.1),
            None => {}
        },
    }
}
/// `kind` 0 join, 1 race, 2 try_join, 3 race_ok
pub fn run(kind: u32) {
    let live = nd::live();
    match nd::pick(0, 7) {
        0 => go::<(), Box<u32>>(kind),
        1 => go::<Wide, ()>(kind),
        2 => go::<Box<u32>, u8>(kind),
        3 => go::<Option<Box<u8>>, Wide>(kind),
        4 => go::<u8, Option<Box<u8>>>(kind),
        5 => mixed::<(), Wide, Box<u32>, u8>(kind),
        6 => mixed::<u8, Option<Box<u8>>, (), Wide>(kind),
        _ => mixed::<Box<u32>, u8, Wide, ()>(kind),
    }
    nd::check(nd::live() == live, "[C04 C05] memory is leaked");
}
