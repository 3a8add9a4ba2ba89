//! Combinators: results, completion, wake-ups, drops.
use crate::util::*;
use async_ui_web::select;
use async_ui_web_core::combinators::{join, race, race_ok, try_join, UiFutureExt};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub struct Ctl {
    val: u32,
    ok: bool,
    created: Cell<u32>,
    tok_drops: Cell<u32>,
    fut_drops: Cell<u32>,
    polls: Cell<u32>,
    done: Cell<bool>,
    woken: Cell<bool>,
    self_wake: bool,
    /// in wide combinators, most subfutures: true finishes at the first poll,
    /// false never does
    passive: Option<bool>,
    waker: RefCell<Option<Waker>>,
    old: RefCell<Option<Waker>>,
}
pub struct Tok(Rc<Ctl>);
impl Drop for Tok {
    fn drop(&mut self) {
        self.0.tok_drops.set(self.0.tok_drops.get() + 1);
        nd::check(
            self.0.tok_drops.get() <= self.0.created.get(),
            "[C04 C26] an output is dropped more than once",
        );
    }
}
pub struct Sub(Rc<Ctl>);
impl Drop for Sub {
    fn drop(&mut self) {
        self.0.fut_drops.set(self.0.fut_drops.get() + 1);
        nd::check(self.0.fut_drops.get() == 1, "[C04 C26] a subfuture is dropped twice");
        wake_peer();
    }
}
/// the subfutures that can be woken by the others, and how often that can still happen
static mut PEERS: (Vec<Rc<Ctl>>, u32) = (Vec::new(), 0);
/// A subfuture that is being polled or dropped wakes any of the subfutures.
#[allow(static_mut_refs)]
fn wake_peer() {
    let (peers, left) = unsafe { (&PEERS.0, &mut PEERS.1) };
    if *left == 0 {
        return;
    }
    let i = nd::pick(0, peers.len() as u32) as usize;
    if i == peers.len() {
        return;
    }
    *left -= 1;
    let c = &peers[i];
    let w = c.waker.borrow().clone();
    match w {
        None => nd::assume(false),
        Some(w) => {
            if !c.done.get() && c.fut_drops.get() == 0 {
                c.woken.set(true);
                nd::cover(5);
            }
            w.wake();
        }
    }
}
impl Sub {
    fn step(&self, cx: &mut Context<'_>) -> Option<Tok> {
        let c = &self.0;
        nd::check(!c.done.get(), "[C01 C02 C26] a subfuture is polled after it completed");
        nd::check(c.fut_drops.get() == 0, "[C04 C05 C26] a dropped subfuture is polled");
        c.polls.set(c.polls.get() + 1);
        c.woken.set(false);
        let prev = c.waker.replace(Some(cx.waker().clone()));
        if c.old.borrow().is_none() {
            *c.old.borrow_mut() = prev;
        }
        if c.passive.is_none() {
            wake_peer();
        }
        if c.passive.unwrap_or_else(nd::any_bool) {
            c.done.set(true);
            c.created.set(c.created.get() + 1);
            Some(Tok(c.clone()))
        } else {
            if c.self_wake && c.passive.is_none() && nd::any_bool() {
                c.woken.set(true);
                cx.waker().wake_by_ref();
            }
            None
        }
    }
}
/// infallible
struct I(Sub);
impl Future for I {
    type Output = Tok;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        match self.0.step(cx) {
            Some(t) => Poll::Ready(t),
            None => Poll::Pending,
        }
    }
}
/// fallible
struct R(Sub);
impl Future for R {
    type Output = Result<Tok, Tok>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.step(cx) {
            Some(t) => Poll::Ready(if self.0 .0.ok { Ok(t) } else { Err(t) }),
            None => Poll::Pending,
        }
    }
}
pub enum Res {
    All(Vec<Tok>),
    One(Tok),
    Errs(Vec<Tok>),
    Err(Tok),
}
type Dyn = Pin<Box<dyn Future<Output = Res>>>;
fn all(v: impl IntoIterator<Item = Tok>) -> Res {
    Res::All(v.into_iter().collect())
}
fn tj<V, F: FnOnce(V) -> Vec<Tok>>(r: Result<V, Tok>, f: F) -> Res {
    match r {
        Ok(v) => Res::All(f(v)),
        Err(e) => Res::Err(e),
    }
}
fn ro<V, F: FnOnce(V) -> Vec<Tok>>(r: Result<Tok, V>, f: F) -> Res {
    match r {
        Ok(v) => Res::One(v),
        Err(e) => Res::Errs(f(e)),
    }
}
pub const JOIN: u32 = 0;
pub const RACE: u32 = 1;
pub const TRY_JOIN: u32 = 2;
pub const RACE_OK: u32 = 3;
pub const SELECT: u32 = 4;
pub const MEANWHILE: u32 = 5;
pub const PEND: u32 = 6;
/// select by reference, then await the loser
pub const SELECT_BOTH: u32 = 7;
pub const TUPLE: u32 = 0;
pub const ARRAY: u32 = 1;
pub const VEC: u32 = 2;
fn arr<T, const N: usize>(v: Vec<T>) -> [T; N] {
    match v.try_into() {
        Ok(a) => a,
        Err(_) => unreachable!(),
    }
}
fn build(kind: u32, shape: u32, ctls: &[Rc<Ctl>]) -> Dyn {
    let n = ctls.len();
    let iv = || ctls.iter().map(|c| I(Sub(c.clone()))).collect::<Vec<_>>();
    let rv = || ctls.iter().map(|c| R(Sub(c.clone()))).collect::<Vec<_>>();
    macro_rules! tup {
        ($v:expr, $n:literal, $f:ident, $($x:ident)*) => {{
            let [$($x),*] = arr::<_, $n>($v);
            $f(($($x,)*))
        }};
    }
    match (kind, shape, n) {
        (JOIN, VEC, _) => { let f = join(iv()); Box::pin(async move { all(f.await) }) }
        (JOIN, ARRAY, 1) => { let f = join(arr::<_, 1>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, ARRAY, 2) => { let f = join(arr::<_, 2>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, ARRAY, 3) => { let f = join(arr::<_, 3>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, ARRAY, 4) => { let f = join(arr::<_, 4>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, ARRAY, 66) => { let f = join(arr::<_, 66>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, ARRAY, 130) => { let f = join(arr::<_, 130>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, TUPLE, 1) => { let f = tup!(iv(), 1, join, a); Box::pin(async move { let (a,) = f.await; all([a]) }) }
        (JOIN, TUPLE, 2) => { let f = tup!(iv(), 2, join, a b); Box::pin(async move { let (a, b) = f.await; all([a, b]) }) }
        (JOIN, TUPLE, 3) => { let f = tup!(iv(), 3, join, a b c); Box::pin(async move { let (a, b, c) = f.await; all([a, b, c]) }) }
        (JOIN, TUPLE, 4) => { let f = tup!(iv(), 4, join, a b c d); Box::pin(async move { let (a, b, c, d) = f.await; all([a, b, c, d]) }) }
        (JOIN, TUPLE, 5) => { let f = tup!(iv(), 5, join, a b c d e); Box::pin(async move { let (a, b, c, d, e) = f.await; all([a, b, c, d, e]) }) }
        (JOIN, TUPLE, 6) => { let f = tup!(iv(), 6, join, a b c d e g); Box::pin(async move { let (a, b, c, d, e, g) = f.await; all([a, b, c, d, e, g]) }) }
        (JOIN, TUPLE, 7) => { let f = tup!(iv(), 7, join, a b c d e g h); Box::pin(async move { let (a, b, c, d, e, g, h) = f.await; all([a, b, c, d, e, g, h]) }) }
        (JOIN, TUPLE, 8) => { let f = tup!(iv(), 8, join, a b c d e g h i); Box::pin(async move { let (a, b, c, d, e, g, h, i) = f.await; all([a, b, c, d, e, g, h, i]) }) }
        (JOIN, TUPLE, 9) => { let f = tup!(iv(), 9, join, a b c d e g h i j); Box::pin(async move { let (a, b, c, d, e, g, h, i, j) = f.await; all([a, b, c, d, e, g, h, i, j]) }) }
        (JOIN, TUPLE, 10) => { let f = tup!(iv(), 10, join, a b c d e g h i j k); Box::pin(async move { let (a, b, c, d, e, g, h, i, j, k) = f.await; all([a, b, c, d, e, g, h, i, j, k]) }) }
        (JOIN, TUPLE, 11) => { let f = tup!(iv(), 11, join, a b c d e g h i j k l); Box::pin(async move { let (a, b, c, d, e, g, h, i, j, k, l) = f.await; all([a, b, c, d, e, g, h, i, j, k, l]) }) }
        (JOIN, TUPLE, 12) => { let f = tup!(iv(), 12, join, a b c d e g h i j k l m); Box::pin(async move { let (a, b, c, d, e, g, h, i, j, k, l, m) = f.await; all([a, b, c, d, e, g, h, i, j, k, l, m]) }) }
        (JOIN, ARRAY, 0) => { let f = join(arr::<_, 0>(iv())); Box::pin(async move { all(f.await) }) }
        (JOIN, TUPLE, 0) => { let f = join(()); Box::pin(async move { f.await; all([]) }) }
        (RACE, VEC, _) => { let f = race(iv()); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 1) => { let f = race(arr::<_, 1>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 2) => { let f = race(arr::<_, 2>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 3) => { let f = race(arr::<_, 3>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 4) => { let f = race(arr::<_, 4>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 66) => { let f = race(arr::<_, 66>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 130) => { let f = race(arr::<_, 130>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 1) => { let f = tup!(iv(), 1, race, a); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 2) => { let f = tup!(iv(), 2, race, a b); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 3) => { let f = tup!(iv(), 3, race, a b c); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 4) => { let f = tup!(iv(), 4, race, a b c d); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 5) => { let f = tup!(iv(), 5, race, a b c d e); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 6) => { let f = tup!(iv(), 6, race, a b c d e g); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 7) => { let f = tup!(iv(), 7, race, a b c d e g h); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 8) => { let f = tup!(iv(), 8, race, a b c d e g h i); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 9) => { let f = tup!(iv(), 9, race, a b c d e g h i j); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 10) => { let f = tup!(iv(), 10, race, a b c d e g h i j k); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 11) => { let f = tup!(iv(), 11, race, a b c d e g h i j k l); Box::pin(async move { Res::One(f.await) }) }
        (RACE, TUPLE, 12) => { let f = tup!(iv(), 12, race, a b c d e g h i j k l m); Box::pin(async move { Res::One(f.await) }) }
        (RACE, ARRAY, 0) => { let f = race(arr::<_, 0>(iv())); Box::pin(async move { Res::One(f.await) }) }
        (TRY_JOIN, VEC, _) => { let f = try_join(rv()); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, ARRAY, 1) => { let f = try_join(arr::<_, 1>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, ARRAY, 2) => { let f = try_join(arr::<_, 2>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, ARRAY, 3) => { let f = try_join(arr::<_, 3>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, ARRAY, 4) => { let f = try_join(arr::<_, 4>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, ARRAY, 66) => { let f = try_join(arr::<_, 66>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, ARRAY, 130) => { let f = try_join(arr::<_, 130>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (TRY_JOIN, TUPLE, 1) => { let f = tup!(rv(), 1, try_join, a); Box::pin(async move { tj(f.await, |(a,)| vec![a]) }) }
        (TRY_JOIN, TUPLE, 2) => { let f = tup!(rv(), 2, try_join, a b); Box::pin(async move { tj(f.await, |(a, b)| vec![a, b]) }) }
        (TRY_JOIN, TUPLE, 3) => { let f = tup!(rv(), 3, try_join, a b c); Box::pin(async move { tj(f.await, |(a, b, c)| vec![a, b, c]) }) }
        (TRY_JOIN, TUPLE, 4) => { let f = tup!(rv(), 4, try_join, a b c d); Box::pin(async move { tj(f.await, |(a, b, c, d)| vec![a, b, c, d]) }) }
        (TRY_JOIN, TUPLE, 5) => { let f = tup!(rv(), 5, try_join, a b c d e); Box::pin(async move { tj(f.await, |(a, b, c, d, e)| vec![a, b, c, d, e]) }) }
        (TRY_JOIN, TUPLE, 6) => { let f = tup!(rv(), 6, try_join, a b c d e g); Box::pin(async move { tj(f.await, |(a, b, c, d, e, g)| vec![a, b, c, d, e, g]) }) }
        (TRY_JOIN, TUPLE, 7) => { let f = tup!(rv(), 7, try_join, a b c d e g h); Box::pin(async move { tj(f.await, |(a, b, c, d, e, g, h)| vec![a, b, c, d, e, g, h]) }) }
        (TRY_JOIN, TUPLE, 8) => { let f = tup!(rv(), 8, try_join, a b c d e g h i); Box::pin(async move { tj(f.await, |(a, b, c, d, e, g, h, i)| vec![a, b, c, d, e, g, h, i]) }) }
        (TRY_JOIN, TUPLE, 9) => { let f = tup!(rv(), 9, try_join, a b c d e g h i j); Box::pin(async move { tj(f.await, |(a, b, c, d, e, g, h, i, j)| vec![a, b, c, d, e, g, h, i, j]) }) }
        (TRY_JOIN, TUPLE, 10) => { let f = tup!(rv(), 10, try_join, a b c d e g h i j k); Box::pin(async move { tj(f.await, |(a, b, c, d, e, g, h, i, j, k)| vec![a, b, c, d, e, g, h, i, j, k]) }) }
        (TRY_JOIN, TUPLE, 11) => { let f = tup!(rv(), 11, try_join, a b c d e g h i j k l); Box::pin(async move { tj(f.await, |(a, b, c, d, e, g, h, i, j, k, l)| vec![a, b, c, d, e, g, h, i, j, k, l]) }) }
        (TRY_JOIN, ARRAY, 0) => { let f = try_join(arr::<_, 0>(rv())); Box::pin(async move { tj(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, VEC, _) => { let f = race_ok(rv()); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, ARRAY, 1) => { let f = race_ok(arr::<_, 1>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, ARRAY, 2) => { let f = race_ok(arr::<_, 2>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, ARRAY, 3) => { let f = race_ok(arr::<_, 3>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, ARRAY, 4) => { let f = race_ok(arr::<_, 4>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, ARRAY, 66) => { let f = race_ok(arr::<_, 66>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, ARRAY, 130) => { let f = race_ok(arr::<_, 130>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (RACE_OK, TUPLE, 1) => { let f = tup!(rv(), 1, race_ok, a); Box::pin(async move { ro(f.await, |(a,)| vec![a]) }) }
        (RACE_OK, TUPLE, 2) => { let f = tup!(rv(), 2, race_ok, a b); Box::pin(async move { ro(f.await, |(a, b)| vec![a, b]) }) }
        (RACE_OK, TUPLE, 3) => { let f = tup!(rv(), 3, race_ok, a b c); Box::pin(async move { ro(f.await, |(a, b, c)| vec![a, b, c]) }) }
        (RACE_OK, TUPLE, 4) => { let f = tup!(rv(), 4, race_ok, a b c d); Box::pin(async move { ro(f.await, |(a, b, c, d)| vec![a, b, c, d]) }) }
        (RACE_OK, TUPLE, 5) => { let f = tup!(rv(), 5, race_ok, a b c d e); Box::pin(async move { ro(f.await, |(a, b, c, d, e)| vec![a, b, c, d, e]) }) }
        (RACE_OK, TUPLE, 6) => { let f = tup!(rv(), 6, race_ok, a b c d e g); Box::pin(async move { ro(f.await, |(a, b, c, d, e, g)| vec![a, b, c, d, e, g]) }) }
        (RACE_OK, TUPLE, 7) => { let f = tup!(rv(), 7, race_ok, a b c d e g h); Box::pin(async move { ro(f.await, |(a, b, c, d, e, g, h)| vec![a, b, c, d, e, g, h]) }) }
        (RACE_OK, TUPLE, 8) => { let f = tup!(rv(), 8, race_ok, a b c d e g h i); Box::pin(async move { ro(f.await, |(a, b, c, d, e, g, h, i)| vec![a, b, c, d, e, g, h, i]) }) }
        (RACE_OK, TUPLE, 9) => { let f = tup!(rv(), 9, race_ok, a b c d e g h i j); Box::pin(async move { ro(f.await, |(a, b, c, d, e, g, h, i, j)| vec![a, b, c, d, e, g, h, i, j]) }) }
        (RACE_OK, TUPLE, 10) => { let f = tup!(rv(), 10, race_ok, a b c d e g h i j k); Box::pin(async move { ro(f.await, |(a, b, c, d, e, g, h, i, j, k)| vec![a, b, c, d, e, g, h, i, j, k]) }) }
        (RACE_OK, TUPLE, 11) => { let f = tup!(rv(), 11, race_ok, a b c d e g h i j k l); Box::pin(async move { ro(f.await, |(a, b, c, d, e, g, h, i, j, k, l)| vec![a, b, c, d, e, g, h, i, j, k, l]) }) }
        (RACE_OK, ARRAY, 0) => { let f = race_ok(arr::<_, 0>(rv())); Box::pin(async move { ro(f.await, |v| v.into_iter().collect()) }) }
        (SELECT, _, 2) => {
            let c = ctls.to_vec();
            let [a, b] = arr::<_, 2>(iv());
            Box::pin(async move {
                select! {
                    t = a => won(&c, 0, t),
                    t = b => won(&c, 1, t),
                }
            })
        }
        (SELECT, _, 3) => {
            let c = ctls.to_vec();
            let [a, b, d] = arr::<_, 3>(iv());
            Box::pin(async move {
                let r = select! {
                    (x, t) = async { (5u8, a.await) } => {
                        nd::check(x == 5, "[C26] a pattern binds the wrong value");
                        won(&c, 0, t)
                    }
                    t = b => {
                        let r = won(&c, 1, t);
                        r
                    },
                    Wrap { t } = async move { Wrap { t: d.await } } => won(&c, 2, t)
                };
                r
            })
        }
        (SELECT, _, 4) => {
            let c = ctls.to_vec();
            let [a, b, d, e] = arr::<_, 4>(iv());
            Box::pin(async move {
                // nested, with an await in a branch
                select! {
                    t = a => { won(&c[..1], 0, t) },
                    r = async { select! { t = b => won(&c[1..3], 0, t), t = d => won(&c[1..3], 1, t) } } => {
                        std::future::ready(()).await;
                        r
                    },
                    t = e => won(&c, 3, t),
                }
            })
        }
        (SELECT_BOTH, _, 2) => {
            let c = ctls.to_vec();
            let [mut a, mut b] = arr::<_, 2>(iv());
            Box::pin(async move {
                // (`t = &mut a` doesn't compile: the macro awaits `a` and borrows the output)
                let (ra, rb) = (&mut a, &mut b);
                select! {
                    t = ra => {
                        nd::check(c[1].fut_drops.get() == 0, "[C26] a borrowed future is dropped");
                        let u = b.await;
                        all([t, u])
                    }
                    u = rb => {
                        nd::check(c[0].fut_drops.get() == 0, "[C26] a borrowed future is dropped");
                        let t = a.await;
                        all([t, u])
                    }
                }
            })
        }
        (MEANWHILE, _, 2) => {
            let [a, b] = arr::<_, 2>(iv());
            let f = a.meanwhile(b);
            Box::pin(async move { Res::One(f.await) })
        }
        (PEND, _, 1) => {
            let [a] = arr::<_, 1>(iv());
            Box::pin(a.pend_after::<Res>())
        }
        _ => unreachable!(),
    }
}
struct Wrap {
    t: Tok,
}
/// the branch of subfuture `i` runs
fn won(ctls: &[Rc<Ctl>], i: usize, t: Tok) -> Res {
    nd::check(Rc::ptr_eq(&t.0, &ctls[i]), "[C26] a branch gets the output of another one's future");
    for (j, c) in ctls.iter().enumerate() {
        nd::check(j == i || c.fut_drops.get() == 1, "[C26] a future that lost is alive while the winner's branch runs");
    }
    Res::One(t)
}
fn ctl(kind: u32, fallible: bool, self_wake: bool, passive: Option<bool>) -> Rc<Ctl> {
    Rc::new(Ctl {
        val: if passive.is_some() { 7 } else { nd::fresh(0, 255) },
        // a passive one doesn't decide the outcome
        ok: match passive {
            Some(_) => kind != RACE_OK,
            None => !fallible || nd::any_bool(),
        },
        passive,
        created: Cell::new(0),
        tok_drops: Cell::new(0),
        fut_drops: Cell::new(0),
        polls: Cell::new(0),
        done: Cell::new(false),
        woken: Cell::new(true),
        self_wake,
        waker: RefCell::new(None),
        old: RefCell::new(None),
    })
}
fn check_seq(v: &[Tok], ctls: &[Rc<Ctl>], msg: &str) {
    nd::check(v.len() == ctls.len(), "[C01 C02 C26] wrong number of outputs");
    for (t, c) in v.iter().zip(ctls) {
        nd::check(Rc::ptr_eq(&t.0, c) & (t.0.val == c.val), msg);
        nd::check(c.tok_drops.get() == 0, "[C04 C26] a returned output was already dropped");
    }
}
/// May the combinator still be pending in this situation?
fn must_finish(kind: u32, ctls: &[Rc<Ctl>]) -> bool {
    let alld = ctls.iter().all(|c| c.done.get());
    match kind {
        JOIN | SELECT_BOTH => alld,
        MEANWHILE => ctls[0].done.get(),
        PEND => false,
        RACE | SELECT => ctls.iter().any(|c| c.done.get()),
        TRY_JOIN => alld || ctls.iter().any(|c| c.done.get() && !c.ok),
        _ => alld || ctls.iter().any(|c| c.done.get() && c.ok),
    }
}
fn check_result(kind: u32, r: &Res, ctls: &[Rc<Ctl>]) {
    match (kind, r) {
        (JOIN | TRY_JOIN | SELECT_BOTH, Res::All(v)) => {
            nd::check(ctls.iter().all(|c| c.done.get() && c.ok), "[C01 C02 C26] completed before every subfuture succeeded");
            check_seq(v, ctls, "[C01 C02 C26] outputs are not in the order of the subfutures");
            nd::cover(1);
        }
        (RACE | SELECT, Res::One(t)) | (RACE_OK, Res::One(t)) | (TRY_JOIN, Res::Err(t)) => {
            let want_ok = kind != TRY_JOIN;
            nd::check(t.0.done.get() && t.0.ok == want_ok, "[C02 C26] returned the output of the wrong subfuture");
            nd::check(ctls.iter().any(|c| Rc::ptr_eq(&t.0, c)), "[C02 C26] unknown output");
            nd::check(t.0.tok_drops.get() == 0, "[C04 C26] a returned output was already dropped");
            // nothing but the returned one can have decided the outcome earlier
            nd::check(
                ctls.iter()
                    .all(|c| Rc::ptr_eq(&t.0, c) || !(c.done.get() && c.ok == want_ok)),
                "[C02 C26] another subfuture had already decided the outcome",
            );
            nd::cover(2);
        }
        (MEANWHILE, Res::One(t)) => {
            nd::check(Rc::ptr_eq(&t.0, &ctls[0]) && t.0.done.get(), "[C26] meanwhile returned another future's output");
            nd::check(t.0.tok_drops.get() == 0, "[C26] a returned output was already dropped");
            nd::cover(2);
        }
        (RACE_OK, Res::Errs(v)) => {
            nd::check(ctls.iter().all(|c| c.done.get() && !c.ok), "[C02 C26] failed although not every subfuture failed");
            check_seq(v, ctls, "[C02 C26] errors are not in the order of the subfutures");
            nd::cover(1);
        }
        _ => nd::fail("[C01 C02 C26] wrong kind of outcome"),
    }
}
/// `steps` symbolic operations on a combinator of `n` subfutures.
pub fn run(kind: u32, shape: u32, n: u32, steps: u32, flags: u32) {
    let self_wake = flags & 1 != 0;
    let change_waker = flags & 2 != 0;
    let root = div();
    // warm up lazily created globals before counting allocations
    {
        let mut m = Mounted::at(async { join([async {}]).await }, root.clone());
        nd::check(m.poll().is_ready(), "join of one ready future");
        m.unmount();
    }
    let n = n as usize;
    let parents = CountWaker::pair();
    let wide = flags & 4 != 0;
    // wide: three active subfutures, one of them anywhere, and one that is
    // woken for nothing; the others either finish at once or never
    let act = if wide {
        let v = if n > 66 {
            [1, 31, 63, 64, 127][nd::pick(0, 4) as usize]
        } else {
            nd::pick(1, n as u32 - 3) as usize
        };
        vec![0, v, n - 2, n - 1]
    } else {
        (0..n).collect::<Vec<_>>()
    };
    let quick = wide && kind != RACE && nd::any_bool();
    let ctls: Vec<_> = (0..n)
        .map(|i| {
            let p = if !wide || (act.contains(&i) && i != n - 2) { None } else { Some(quick) };
            ctl(kind, kind == TRY_JOIN || kind == RACE_OK, self_wake, p)
        })
        .collect();
    if flags & 16 != 0 {
        unsafe { PEERS = (act.iter().map(|i| ctls[*i].clone()).collect(), 2) }
    }
    let live0 = nd::live();
    let mut m = Mounted::at(build(kind, shape, &ctls), root);
    let mut cur = 0usize;
    let mut polled = false;
    let mut seen = 0;
    let mut result = None;
    for _ in 0..steps {
        let op = nd::pick(0, act.len() as u32 + 1) as usize;
        if op < act.len() {
            let c = &ctls[act[op]];
            let w = c.waker.borrow().clone();
            match w {
                None => nd::assume(false),
                Some(w) => {
                    if !c.done.get() {
                        c.woken.set(true);
                    }
                    w.wake();
                    nd::check(
                        c.done.get() || parents[cur].count() != seen,
                        "[C03 C26] a subfuture was woken but the task's current waker was not",
                    );
                }
            }
        } else if op == act.len() {
            if polled && change_waker && nd::any_bool() {
                cur = 1 - cur;
            }
            polled = true;
            let before: Vec<_> = ctls
                .iter()
                .map(|c| (c.woken.get(), c.done.get(), c.polls.get()))
                .collect();
            seen = parents[cur].count();
            let mut cx = Context::from_waker(&parents[cur].1);
            match m.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(r) => {
                    check_result(kind, &r, &ctls);
                    result = Some(r);
                    break;
                }
                Poll::Pending => {
                    nd::check(!must_finish(kind, &ctls), "[C01 C02 C03 C26] still pending although the outcome is decided");
                    for (c, &(w, d, p)) in ctls.iter().zip(&before) {
                        nd::check(
                            d || !w || c.polls.get() > p,
                            "[C03 C26] a woken subfuture was not polled",
                        );
                    }
                    if kind == PEND && ctls[0].done.get() || kind == MEANWHILE && ctls[1].done.get() {
                        nd::cover(4);
                    }
                    if ctls.iter().any(|c| !c.done.get() && c.woken.get()) {
                        nd::check(
                            parents[cur].count() != seen,
                            "[C03 C26] a subfuture woke itself during a poll but the task was not woken",
                        );
                    }
                }
            }
        } else {
            nd::cover(3);
            break;
        }
    }
    for c in &ctls {
        nd::trace(c.polls.get() as u64);
        nd::trace(c.val as u64);
    }
    // the combinator goes away; its wakers are still held by the outside
    m.unmount();
    drop(m);
    for c in &ctls {
        nd::check(c.fut_drops.get() == 1, "[C04 C26] a subfuture is not dropped with the combinator");
        for w in [&c.old, &c.waker] {
            if let Some(w) = w.borrow().as_ref() {
                w.wake_by_ref();
                let w2 = w.clone();
                w2.wake();
            }
        }
    }
    if let Some(r) = &result {
        check_result(kind, r, &ctls);
    }
    drop(result);
    for c in &ctls {
        nd::check(
            c.tok_drops.get() == c.created.get(),
            "[C04 C26] an output is leaked or dropped twice",
        );
    }
    // the remaining wakers go, woken or dropped
    let last = flags & 8 == 0 || nd::any_bool();
    for c in &ctls {
        for w in [&c.old, &c.waker] {
            if let Some(w) = w.take() {
                if last {
                    w.wake()
                }
            }
        }
    }
    nd::check(nd::live() == live0, "[C04 C05 C26] memory is leaked");
}
