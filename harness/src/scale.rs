//! Histories that are long or wide rather than intricate: numbers of events, wake-ups, items or
//! listeners beyond what fits into a byte or a machine word, with a few things symbolic.
use crate::dom::{self, Dyn, Leaf, T};
use crate::exec::drain;
use crate::util::*;
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use async_ui_web::components::{Dropdown, DynamicSlot};
use async_ui_web::executor::get_executor;
use async_ui_web::mount_at;
use async_ui_web_core::combinators::{join, race, race_ok, try_join};
use async_ui_web_core::executor::{run_now, schedule, set_executor_future};
use async_ui_web_html::events::EmitEvent;
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use web_sys::{mock, Event, EventTarget};

/// a number up to `max`
fn upto(max: u32) -> u32 {
    let total = nd::fresh(0, max);
    let mut n = 0;
    while n < total {
        n += 1;
    }
    n
}
/// a position below `n`: near the ends, the middle, or the boundaries of machine words
pub fn at(n: u32) -> u32 {
    let c = [0, 1, n / 2, 31, 32, 63, 64, n - 2, n - 1];
    let i = c[nd::pick(0, c.len() as u32 - 1) as usize];
    nd::assume(i < n);
    i
}
/// `a..b`, at most `n` long
fn range(n: u32) -> (u32, u32) {
    let (a, b) = (at(n), at(n));
    nd::assume(a <= b);
    (a, b + 1)
}

/// The executor: a root future that wakes itself, or is woken, up to `max` times in a row.
/// `kind`: 0 wakes itself during each poll, 1 woken from outside, 2 scheduled from outside,
/// 3 as 1 but without running in between, 4 several tasks at once, 5 `run_now` each time
pub fn exec(kind: u32, max: u32) {
    let polls = Rc::new(Cell::new(0u32));
    let left = Rc::new(Cell::new(0));
    let waker: Rc<RefCell<Option<Waker>>> = Default::default();
    let (p, l, w) = (polls.clone(), left.clone(), waker.clone());
    set_executor_future(Box::new(poll_fn(move |cx| {
        p.set(p.get() + 1);
        *w.borrow_mut() = Some(cx.waker().clone());
        if l.get() > 0 {
            l.set(l.get() - 1);
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    })));
    let run = || {
        let mut n = 0;
        while mock::run_timeout() {
            n += 1;
            nd::check(n < 2 * max + 40, "the executor keeps scheduling itself");
        }
    };
    schedule();
    run();
    nd::check(polls.get() == 1, "the root future is not polled");
    nd::cover(1);
    match kind {
        0 => {
            let n = upto(max);
            left.set(n);
            let w = waker.borrow().clone().unwrap();
            w.wake();
            if nd::any_bool() {
                run_now();
            }
            run();
            nd::check(left.get() == 0 && polls.get() == n + 2, "a wake-up is lost or polled for twice");
            nd::trace(polls.get() as u64);
        }
        1 | 2 | 5 => {
            let n = upto(max);
            for i in 0..n {
                match kind {
                    1 => waker.borrow().clone().unwrap().wake(),
                    _ => schedule(),
                }
                if kind == 5 {
                    run_now()
                } else {
                    nd::check(mock::pending_timeouts() > 0, "nothing is going to poll the root future");
                    run();
                }
                nd::check(polls.get() == i + 2, "a wake-up is lost");
            }
            run();
        }
        3 => {
            let n = upto(max);
            for _ in 0..n {
                let w = waker.borrow().clone().unwrap();
                w.wake();
            }
            run();
            nd::check(polls.get() == 1 + (n > 0) as u32, "a wake-up is lost or polled for more than once");
        }
        _ => {
            // as many tasks
            let n = max;
            let seen: Rc<Vec<Cell<u32>>> = Rc::new((0..n).map(|_| Cell::new(0)).collect());
            let wakers: Rc<RefCell<Vec<Option<Waker>>>> = Rc::new(RefCell::new(vec![None; n as usize]));
            let mut tasks: Vec<_> = (0..n as usize)
                .map(|i| {
                    let (seen, wakers) = (seen.clone(), wakers.clone());
                    Some(get_executor().spawn(poll_fn(move |cx: &mut Context<'_>| -> Poll<()> {
                        seen[i].set(seen[i].get() + 1);
                        wakers.borrow_mut()[i] = Some(cx.waker().clone());
                        Poll::Pending
                    })))
                })
                .collect();
            schedule();
            run();
            nd::check(seen.iter().all(|s| s.get() == 1), "a spawned task is not polled");
            let (a, b) = range(n);
            let (c, d) = range(n);
            let drop_first = nd::any_bool();
            for i in c..d {
                if drop_first {
                    tasks[i as usize] = None;
                }
            }
            for i in a..b {
                let w = wakers.borrow()[i as usize].clone();
                if let Some(w) = w {
                    w.wake()
                }
            }
            run();
            for i in 0..n {
                let gone = drop_first && c <= i && i < d;
                let want = 1 + (a <= i && i < b && !gone) as u32;
                nd::check(seen[i as usize].get() == want, "a woken task is not polled, or another one is");
            }
            nd::cover(2);
        }
    }
}

/// Up to `max` apps on the same root, any of which are unmounted.
pub fn apps(max: u32) {
    let root = div();
    mock::connect(&root);
    let leaves: Vec<_> = (0..max).map(|_| Leaf::new()).collect();
    leaves.iter().for_each(|l| l.set(true));
    let mut tasks: Vec<_> = leaves.iter().map(|l| Some(mount_at(dom::fut(&T::L(l.clone())), root.clone()))).collect();
    drain();
    let all: Vec<u32> = leaves.iter().map(|l| id(l.node())).collect();
    let mut shown = vec![true; max as usize];
    let sorted = |mut v: Vec<u32>| {
        v.sort();
        v
    };
    for _ in 0..2 {
        let (a, b) = range(max);
        let unmount = nd::any_bool();
        for i in a as usize..b as usize {
            if unmount {
                tasks[i] = None;
                shown[i] = false;
            } else if tasks[i].is_some() {
                leaves[i].toggle();
                shown[i] = leaves[i].get();
            }
        }
        drain();
        let want = all.iter().zip(&shown).filter(|x| *x.1).map(|x| *x.0).collect();
        nd::check(sorted(children(&root)) == sorted(want), "the mounted apps do not show what they should");
        nd::cover(unmount as u32);
    }
}

/// Up to `max` events for one listener (`kind` 0), one event for `max` listeners (1),
/// `max` listeners one after another (2).
pub fn events(kind: u32, max: u32) {
    let t: EventTarget = element().into();
    let base = mock::live_listeners();
    let new = || t.until_event::<Event>("alpha".into());
    let w = CountWaker::new();
    let mut cx = Context::from_waker(&w.1);
    nd::cover(1);
    match kind {
        0 => {
            let mut s = new();
            nd::check(Pin::new(&mut s).poll_next(&mut cx).is_pending(), "an event although none arrived");
            let each = nd::any_bool();
            let n = upto(max);
            for i in 0..n {
                let c = w.count();
                mock::dispatch(&t, "alpha", i);
                if each {
                    nd::check(w.count() != c, "an event arrived but the task awaiting it was not woken");
                    match Pin::new(&mut s).poll_next(&mut cx) {
                        Poll::Ready(Some(e)) => nd::check(mock::event_payload(&e) == i, "another event than the one that arrived"),
                        _ => nd::fail("an event that arrived is not yielded"),
                    }
                    nd::check(Pin::new(&mut s).poll_next(&mut cx).is_pending(), "an event is yielded twice");
                }
            }
            if !each && n > 0 {
                nd::check(w.count() > 0, "an event arrived but the task awaiting it was not woken");
                match Pin::new(&mut s).poll_next(&mut cx) {
                    Poll::Ready(Some(e)) => nd::check(mock::event_payload(&e) == n - 1, "yields another event than the last one"),
                    _ => nd::fail("an event that arrived is not yielded"),
                }
            }
            nd::check(mock::live_listeners() == base + 1, "a listener is left behind");
        }
        1 => {
            let ws: Vec<_> = (0..max).map(|_| CountWaker::new()).collect();
            let mut ss: Vec<_> = ws
                .iter()
                .map(|w| {
                    let mut s = new();
                    nd::check(
                        Pin::new(&mut s).poll_next(&mut Context::from_waker(&w.1)).is_pending(),
                        "an event although none arrived",
                    );
                    Some(s)
                })
                .collect();
            let (a, b) = range(max);
            for i in a..b {
                ss[i as usize] = None;
            }
            nd::check(mock::live_listeners() == base + (max - (b - a)) as usize, "a listener is left behind");
            mock::dispatch(&t, "alpha", 77);
            for (i, s) in ss.iter_mut().enumerate() {
                if let Some(s) = s {
                    nd::check(ws[i].count() > 0, "an event arrived but the task awaiting it was not woken");
                    match Pin::new(s).poll(&mut cx) {
                        Poll::Ready(e) => nd::check(mock::event_payload(&e) == 77, "another event than the one that arrived"),
                        _ => nd::fail("an event that arrived is not yielded"),
                    }
                }
            }
        }
        _ => {
            let n = upto(max);
            for i in 0..n {
                let mut s = new();
                nd::check(Pin::new(&mut s).poll(&mut cx).is_pending(), "an event although none arrived");
                let c = w.count();
                mock::dispatch(&t, "alpha", i);
                nd::check(w.count() != c, "an event arrived but the task awaiting it was not woken");
                match Pin::new(&mut s).poll(&mut cx) {
                    Poll::Ready(e) => nd::check(mock::event_payload(&e) == i, "another event than the one that arrived"),
                    _ => nd::fail("an event that arrived is not yielded"),
                }
                drop(s);
                nd::check(mock::live_listeners() == base, "a listener is left behind");
            }
        }
    }
    nd::trace(w.count() as u64);
}

/// A reactive cell: up to `max` changes between two polls (0), or one after another (1); `max`
/// listeners, some dropped (2).
pub fn cell(kind: u32, max: u32) {
    let c = ReactiveCell::new(0u32);
    let w = CountWaker::new();
    let mut cx = Context::from_waker(&w.1);
    nd::cover(1);
    if kind < 2 {
        let mut f = c.until_change();
        nd::check(Pin::new(&mut f).poll_next(&mut cx).is_pending(), "a change is reported although there was none");
        let n = upto(max);
        for i in 0..n {
            let before = w.count();
            *c.borrow_mut() = i;
            nd::check(kind == 0 || w.count() != before, "the cell changed but a listener was not woken");
            if kind == 1 {
                nd::check(Pin::new(&mut f).poll_next(&mut cx).is_ready(), "a change is not reported");
                nd::check(Pin::new(&mut f).poll_next(&mut cx).is_pending(), "a change is reported although there was none");
            }
        }
        nd::check(n == 0 || w.count() > 0, "the cell changed but a listener was not woken");
        let r = Pin::new(&mut f).poll_next(&mut cx).is_ready();
        nd::check(r == (kind == 0 && n > 0), "changes are not reported exactly");
    } else {
        let ws: Vec<_> = (0..max).map(|_| CountWaker::new()).collect();
        let mut fs: Vec<_> = ws
            .iter()
            .map(|w| {
                let mut f = c.until_change();
                nd::check(
                    Pin::new(&mut f).poll_next(&mut Context::from_waker(&w.1)).is_pending(),
                    "a change is reported although there was none",
                );
                Some(f)
            })
            .collect();
        let (a, b) = range(max);
        for i in a..b {
            fs[i as usize] = None;
        }
        if nd::any_bool() {
            // one is added again
            let mut f = c.until_change();
            let r = Pin::new(&mut f).poll_next(&mut Context::from_waker(&ws[a as usize].1));
            nd::check(r.is_pending(), "a change is reported although there was none");
            fs[a as usize] = Some(f);
        }
        *c.borrow_mut() = 5;
        for (i, f) in fs.iter_mut().enumerate() {
            let Some(f) = f else {
                continue;
            };
            nd::check(ws[i].count() > 0, "the cell changed but a listener was not woken");
            nd::check(Pin::new(f).poll_next(&mut cx).is_ready(), "a change is not reported");
        }
    }
}

/// A combinator of two futures, one of which is woken up to `max` times first.
pub fn comb(kind: u32, max: u32) {
    struct Sub {
        polls: Cell<u32>,
        open: Cell<bool>,
        waker: RefCell<Option<Waker>>,
    }
    struct F(Rc<Sub>);
    impl Future for F {
        type Output = Result<(), ()>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.polls.set(self.0.polls.get() + 1);
            *self.0.waker.borrow_mut() = Some(cx.waker().clone());
            if self.0.open.get() {
                Poll::Ready(Ok(()))
            } else {
                Poll::Pending
            }
        }
    }
    let subs: Vec<_> = (0..2)
        .map(|_| {
            Rc::new(Sub {
                polls: Cell::new(0),
                open: Cell::new(false),
                waker: RefCell::new(None),
            })
        })
        .collect();
    let (a, b) = (F(subs[0].clone()), F(subs[1].clone()));
    let all = kind % 4 == 0 || kind % 4 == 2;
    let f: Pin<Box<dyn Future<Output = ()>>> = match kind {
        0 => Box::pin(async move { drop(join((a, b)).await) }),
        1 => Box::pin(async move { drop(race((a, b)).await) }),
        2 => Box::pin(async move { drop(try_join((a, b)).await) }),
        3 => Box::pin(async move { drop(race_ok((a, b)).await) }),
        4 => Box::pin(async move { drop(join([a, b]).await) }),
        5 => Box::pin(async move { drop(race([a, b]).await) }),
        6 => Box::pin(async move { drop(try_join([a, b]).await) }),
        7 => Box::pin(async move { drop(race_ok([a, b]).await) }),
        8 => Box::pin(async move { drop(join(vec![a, b]).await) }),
        9 => Box::pin(async move { drop(race(vec![a, b]).await) }),
        10 => Box::pin(async move { drop(try_join(vec![a, b]).await) }),
        _ => Box::pin(async move { drop(race_ok(vec![a, b]).await) }),
    };
    let mut f = Mounted::new(f);
    let w = f.waker.clone();
    nd::check(f.poll().is_pending(), "complete although nothing is");
    let i = nd::pick(0, 1) as usize;
    let each = nd::any_bool();
    let n = upto(max);
    let wake = |i: usize| {
        let w = subs[i].waker.borrow().clone().unwrap();
        w.wake();
    };
    for k in 0..n {
        let c = w.count();
        wake(i);
        if each {
            nd::check(w.count() != c, "[C01 C02 C03] a woken subfuture does not wake the combinator");
            nd::check(f.poll().is_pending(), "complete although nothing is");
            nd::check(subs[i].polls.get() == k + 2, "[C03] a woken subfuture is not polled");
            nd::check(subs[1 - i].polls.get() == 1, "[C03] a subfuture is polled although it was not woken");
        }
    }
    if !each && n > 0 {
        nd::check(w.count() > 0, "[C01 C02 C03] a woken subfuture does not wake the combinator");
        nd::check(f.poll().is_pending(), "complete although nothing is");
        nd::check(subs[i].polls.get() == 2, "[C03] a woken subfuture is not polled");
    }
    nd::cover(1);
    for i in [1 - i, i] {
        let c = w.count();
        subs[i].open.set(true);
        wake(i);
        nd::check(w.count() != c, "[C01 C02 C03] a woken subfuture does not wake the combinator");
        if f.poll().is_ready() {
            nd::check(!all || subs.iter().all(|s| s.open.get()), "[C01 C02] complete too early");
            return;
        }
        nd::check(all, "[C01 C02] not complete in time");
    }
    nd::fail("[C01 C02] not complete in time")
}

/// A slot given up to `max` futures, with (0) or without (1) rendering in between.
pub fn slot(kind: u32, max: u32) {
    let slot = Rc::new(DynamicSlot::<Dyn>::new());
    let s = slot.clone();
    let mut m = Mounted::at(async move { s.render().await }, div());
    let _ = m.poll();
    let n = upto(max);
    let mut leaves = vec![];
    for _ in 0..n {
        let l = Leaf::new();
        l.set(true);
        slot.set_future(dom::fut(&T::L(l.clone())));
        leaves.push(l);
        nd::check(m.woken(), "setting a future does not wake the slot's task");
        if kind == 0 {
            let _ = m.run();
            nd::check(m.children() == [id(leaves.last().unwrap().node())], "the slot does not show the future it was given last");
        }
    }
    let _ = m.run();
    let last: Vec<u32> = leaves.last().iter().map(|l| id(l.node())).collect();
    nd::check(m.children() == last, "the slot does not show the future it was given last");
    for l in leaves.iter().rev().skip(1) {
        nd::check(l.is_dropped(), "a replaced future is still there");
    }
    slot.clear_future();
    nd::check(m.woken(), "clearing does not wake the slot's task");
    let _ = m.run();
    nd::check(m.children().is_empty(), "the slot does not show the future it was given last");
    nd::cover(1);
}

/// A dropdown of `n` options, of which another range is taken, then selections.
pub fn dropdown(n: u32) {
    let d = Dropdown::<u32>::new();
    let root = div();
    mock::connect(&root);
    let mut m = Mounted::at(d.render(), root.clone());
    let _ = m.poll();
    let select: web_sys::Node = AsRef::<web_sys::Node>::as_ref(&d.element).clone();
    let text = |k: u32| if k % 2 == 0 { "x" } else { "y" };
    let old: Vec<u32> = (0..n).collect();
    d.update_options(old.iter().map(|&k| (k, text(k))));
    let sel = at(n);
    if nd::any_bool() {
        mock::set_selected_index(&select, sel as i32);
    } else {
        d.set_value(Some(sel));
    }
    nd::check(d.value() == Some(sel), "value() is not the option that was selected last");
    let before = children(&select);
    let (a, b) = range(n);
    let new: Vec<u32> = match nd::pick(0, 3) {
        0 => (a..b).collect(),
        1 => (0..a).chain(b..n).collect(),
        2 => (0..a).chain((a..b).rev()).chain(b..n).collect(),
        _ => (0..a).chain([n, n + 1]).chain(a..n).collect(),
    };
    d.update_options(new.iter().map(|&k| (k, text(k))));
    let now = children(&select);
    nd::check(now.len() == new.len(), "not exactly one option element per option");
    for (i, &k) in new.iter().enumerate() {
        if k < n {
            nd::check(now[i] == before[k as usize], "options are out of order or the element of one that stays was replaced");
        }
    }
    for k in 0..n + 2 {
        nd::check(d.contains_key(&k) == new.contains(&k), "contains_key");
    }
    if let Some(p) = new.iter().position(|k| *k == sel) {
        nd::check(d.value() == Some(sel), "value() is not the option that was selected last");
        nd::check(mock::selected_index(&select) == p as i32, "the select element shows another option than the one that was selected last");
        nd::cover(1);
    } else {
        nd::cover(2);
    }
    if !new.is_empty() {
        let i = at(new.len() as u32 + 2);
        nd::assume(i < new.len() as u32);
        mock::set_selected_index(&select, i as i32);
        nd::check(d.value() == Some(new[i as usize]), "value() is not the option that was selected last");
    }
    m.unmount();
}
