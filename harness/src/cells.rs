//! ReactiveCell and the arena of waker lists.
use crate::util::*;
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use async_ui_internal_utils::wakers_arena::{WakerSlot, WakersArena, WakersSublist};
use futures_core::Stream;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// `n` listeners, `steps` symbolic operations.
pub fn cell(n: u32, steps: u32) {
    let c = ReactiveCell::new(nd::fresh(0, 0xffff));
    let mut value = *c.borrow();
    let [w0, w1] = CountWaker::pair();
    let wakers = [w0, w1, CountWaker::new()];
    struct L<F> {
        f: Option<Pin<Box<F>>>,
        on: bool,
        armed: bool,
        pending: bool,
        waker: usize,
        seen: u32,
    }
    let mut ls: Vec<_> = (0..n)
        .map(|_| L { f: None, on: false, armed: false, pending: false, waker: 0, seen: 0 })
        .collect();
    macro_rules! changed {
        () => {
            for l in &mut ls {
                if l.on {
                    l.pending = true;
                    // (after a report, it need not be woken before it is polled again)
                    nd::check(!l.armed || wakers[l.waker].count() != l.seen, "the cell changed but a listener was not woken");
                    nd::cover(1);
                }
            }
        };
    }
    for _ in 0..steps {
        match nd::pick(0, 5) {
            0 => {
                // write
                let v = nd::fresh(0, 0xffff);
                *c.borrow_mut() = v;
                value = v;
                changed!();
            }
            1 => {
                // a mutable borrow counts as a change whatever is done with it
                match c.try_borrow_mut() {
                    Ok(g) => nd::check(*g == value, "the cell holds another value"),
                    Err(_) => nd::fail("not borrowed, but try_borrow_mut fails"),
                }
                changed!();
            }
            2 => {
                let r = c.borrow();
                nd::check(*r == value, "the cell holds another value");
                nd::check(c.try_borrow_mut().is_err(), "borrowed mutably while borrowed");
                nd::check(c.try_borrow().is_ok(), "two shared borrows are fine");
                // reading wakes nobody
            }
            3 => {
                let i = nd::pick(0, n - 1) as usize;
                if ls[i].f.is_none() {
                    ls[i].f = Some(Box::pin(c.until_change()));
                }
                let l = &mut ls[i];
                l.waker = nd::pick(0, 2) as usize;
                let w = &wakers[l.waker];
                l.seen = w.count();
                let mut cx = Context::from_waker(&w.1);
                let f = l.f.as_mut().unwrap();
                let r = if nd::any_bool() {
                    f.as_mut().poll(&mut cx).is_ready()
                } else {
                    match f.as_mut().poll_next(&mut cx) {
                        Poll::Ready(Some(())) => true,
                        Poll::Ready(None) => nd::fail("the stream ended"),
                        Poll::Pending => false,
                    }
                };
                nd::check(r || !l.pending, "a change is not reported");
                nd::check(!r || l.pending, "a change is reported although there was none");
                if r {
                    nd::cover(2);
                }
                l.pending = false;
                l.on = true;
                l.armed = !r;
            }
            4 => {
                // created but not polled yet
                let i = nd::pick(0, n - 1) as usize;
                nd::assume(ls[i].f.is_none());
                ls[i].f = Some(Box::pin(c.until_change()));
            }
            _ => {
                let i = nd::pick(0, n - 1) as usize;
                nd::assume(ls[i].f.is_some());
                ls[i].f = None;
                ls[i].on = false;
                ls[i].pending = false;
                nd::cover(3);
            }
        }
    }
    // a clone has no listeners in common
    let before: Vec<u32> = wakers.iter().map(|w| w.count()).collect();
    let d = c.clone();
    nd::check(*d.borrow() == value, "a clone holds the same value");
    *d.borrow_mut() = 1;
    nd::check(*c.borrow() == value, "a clone is independent");
    nd::check(wakers.iter().map(|w| w.count()).eq(before), "a clone wakes the original's listeners");
    nd::trace(value as u64);
    nd::trace(wakers[0].count() as u64);
    nd::trace(wakers[1].count() as u64);
}
/// `ReactiveCell::for_each` sees the initial and then every latest value.
pub fn cell_for_each(steps: u32) {
    let c = ReactiveCell::new(nd::fresh(0, 0xff));
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    let w = CountWaker::new();
    {
        let mut f = Box::pin(c.for_each(|v: &u32| l2.borrow_mut().push(*v)));
        let mut value = *c.borrow();
        let mut want = vec![];
        let mut pending = true;
        let mut seen = 0;
        let mut started = false;
        for _ in 0..steps {
            if nd::any_bool() {
                value = nd::fresh(0, 0xff);
                *c.borrow_mut() = value;
                if started {
                    nd::check(w.count() != seen, "the cell changed but the loop was not woken");
                }
                pending = true;
            } else {
                seen = w.count();
                started = true;
                nd::check(f.as_mut().poll(&mut Context::from_waker(&w.1)).is_pending(), "for_each ended");
                if pending {
                    want.push(value);
                    nd::cover(1);
                }
                pending = false;
                nd::check(*log.borrow() == want, "for_each was not called once with the latest value");
            }
        }
    }
    for v in log.borrow().iter() {
        nd::trace(*v as u64);
    }
}

/// The arena against independent lists. `pre` wakers in a first list beforehand.
pub fn arena(lists: u32, pre: u32, steps: u32) {
    let mut a = WakersArena::new();
    struct List {
        head: WakersSublist,
        slots: Vec<(WakerSlot, Option<usize>)>,
    }
    let [w0, w1] = CountWaker::pair();
    let wakers = [w0, w1, CountWaker::new()];
    let mut ls: Vec<Option<List>> = (0..lists).map(|_| None).collect();
    if pre > 0 {
        let head = a.add_sublist();
        let slots = (0..pre).map(|_| (a.add(&head), None)).collect();
        ls[0] = Some(List { head, slots });
    }
    for _ in 0..steps {
        let i = nd::pick(0, lists - 1) as usize;
        match nd::pick(0, 4) {
            0 => {
                nd::assume(ls[i].is_none());
                ls[i] = Some(List { head: a.add_sublist(), slots: vec![] });
                nd::cover(1);
            }
            1 => {
                nd::assume(ls[i].is_some());
                let l = ls[i].as_mut().unwrap();
                let s = a.add(&l.head);
                l.slots.push((s, None));
                nd::cover(2);
            }
            2 => {
                nd::assume(ls[i].as_ref().is_some_and(|l| !l.slots.is_empty()));
                let l = ls[i].as_mut().unwrap();
                let k = nd::pick(0, l.slots.len() as u32 - 1) as usize;
                let (s, _) = l.slots.remove(k);
                a.remove(&s);
                nd::cover(3);
            }
            3 => {
                nd::assume(ls[i].as_ref().is_some_and(|l| !l.slots.is_empty()));
                let l = ls[i].as_mut().unwrap();
                let k = nd::pick(0, l.slots.len() as u32 - 1) as usize;
                let w = nd::pick(0, 2) as usize;
                a.update(&l.slots[k].0, &wakers[w].1);
                l.slots[k].1 = Some(w);
                nd::cover(4);
            }
            _ => {
                nd::assume(ls[i].is_some());
                let empty = ls[i].as_ref().unwrap().slots.is_empty();
                let r = a.remove_sublist_if_empty(&ls[i].as_ref().unwrap().head);
                nd::check(r == empty, "a list is removed exactly if it is empty");
                if r {
                    ls[i] = None;
                    nd::cover(5);
                }
            }
        }
        for l in ls.iter().flatten() {
            let before: Vec<u32> = wakers.iter().map(|w| w.count()).collect();
            let mut n = 0;
            for w in a.iter(&l.head) {
                n += 1;
                nd::check(n <= l.slots.len(), "a list has more entries than were added");
                w.wake_by_ref();
            }
            nd::check(n == l.slots.len(), "a list has fewer entries than were added");
            for (k, w) in wakers.iter().enumerate() {
                let c = l.slots.iter().filter(|s| s.1 == Some(k)).count() as u32;
                nd::check(w.count() - before[k] == c, "a list does not hold the wakers put into it");
            }
        }
    }
    nd::trace(wakers[0].count() as u64);
}
