//! The executor that drives the app, and mounting.
use crate::dom::{done, expect, fut, shape, Leaf, T};
use crate::util::*;
use async_ui_web::executor::get_executor;
use async_ui_web::mount_at;
use async_ui_web_core::combinators::{join, race};
use async_ui_web_core::executor::{run_now, schedule, set_executor_future};
use async_ui_web_html::events::EmitEvent;
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use web_sys::{mock, Event, EventTarget};

/// run timeouts until there are none left
pub fn drain() {
    let mut n = 0;
    while mock::run_timeout() {
        n += 1;
        nd::check(n < 40, "the executor keeps scheduling itself");
    }
}
struct Root {
    polls: Cell<u32>,
    polling: Cell<bool>,
    /// woken since the start of the last poll
    due: Cell<bool>,
    budget: Cell<u32>,
    waker: RefCell<Option<Waker>>,
}
struct RootFut(Rc<Root>);
impl Future for RootFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let r = &self.0;
        nd::check(!r.polling.replace(true), "the root future is polled within its own poll");
        r.polls.set(r.polls.get() + 1);
        r.due.set(false);
        *r.waker.borrow_mut() = Some(cx.waker().clone());
        // things that can happen during a poll
        while r.budget.get() > 0 && nd::any_bool() {
            r.budget.set(r.budget.get() - 1);
            match nd::pick(0, 3) {
                0 => {
                    r.due.set(true);
                    cx.waker().wake_by_ref();
                    nd::cover(1);
                }
                1 => {
                    r.due.set(true);
                    schedule();
                }
                2 => {
                    // e.g. an event that the app causes while it runs
                    run_now();
                    nd::cover(2);
                }
                _ => {
                    r.due.set(true);
                    cx.waker().clone().wake();
                    run_now();
                }
            }
        }
        r.polling.set(false);
        Poll::Pending
    }
}
/// The bare executor: `steps` symbolic operations from outside, up to `budget` from inside polls.
pub fn core(steps: u32, budget: u32) {
    let r = Rc::new(Root {
        polls: Cell::new(0),
        polling: Cell::new(false),
        due: Cell::new(true),
        budget: Cell::new(budget),
        waker: RefCell::new(None),
    });
    set_executor_future(Box::new(RootFut(r.clone())));
    schedule();
    for _ in 0..steps {
        match nd::pick(0, 3) {
            0 => {
                let w = r.waker.borrow().clone();
                nd::assume(w.is_some());
                r.due.set(true);
                if nd::any_bool() {
                    w.unwrap().wake();
                } else {
                    w.unwrap().wake_by_ref();
                }
                nd::cover(3);
            }
            1 => {
                r.due.set(true);
                schedule();
            }
            2 => {
                run_now();
                nd::check(!r.due.get(), "run_now leaves a scheduled poll for later");
            }
            _ => {
                nd::assume(mock::run_timeout());
                nd::cover(4);
            }
        }
        nd::check(
            !r.due.get() || mock::pending_timeouts() > 0,
            "the root future was woken but nothing is going to poll it",
        );
        nd::trace(r.polls.get() as u64);
    }
    let p = r.polls.get();
    let due = r.due.get();
    drain();
    nd::check(!r.due.get(), "a wake-up is lost");
    nd::check(!due || r.polls.get() > p, "a wake-up is lost");
}

/// Apps mounted with `mount_at`: structure `k` (see dom.rs), a second app, commands, unmounting.
pub fn mount(k: u32, steps: u32) {
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    let mut leaves = vec![];
    let t = shape(k, &mut leaves);
    for l in &leaves {
        l.set(nd::any_bool());
    }
    let n = leaves.len() as u32;
    let other = Leaf::new();
    other.set(true);
    let root2 = if nd::any_bool() { root.clone() } else { div() };
    let mut task = Some(mount_at(fut(&t), root.clone()));
    let mut other_task = None;
    let mut app = true;
    let mut two = false;
    for _ in 0..steps {
        let c = nd::pick(0, 2 * n + 3);
        if c < 2 * n {
            let l = &leaves[(c / 2) as usize];
            nd::assume(app && !l.is_done() && !l.is_dropped());
            if c % 2 == 0 {
                l.toggle();
            } else {
                l.finish();
            }
        } else if c == 2 * n {
            // unmount the app
            nd::assume(app && task.is_some());
            task = None;
            app = false;
            nd::cover(1);
        } else if c == 2 * n + 1 {
            nd::assume(task.is_some());
            task.take().unwrap().detach();
            nd::cover(2);
        } else if c == 2 * n + 2 {
            nd::assume(!two);
            two = true;
            other_task = Some(mount_at(fut(&T::L(other.clone())), root2.clone()));
        } else {
            nd::assume(two && other_task.is_some());
            other_task = None;
            other.set(false);
            nd::cover(3);
        }
        if nd::any_bool() {
            drain();
            settle(&t, app, &other, two, &root, &root2, id(&foreign));
        }
    }
    drain();
    settle(&t, app, &other, two, &root, &root2, id(&foreign));
    drop(task);
    drop(other_task);
    drain();
}
fn settle(
    t: &T,
    app: bool,
    other: &Rc<Leaf>,
    two: bool,
    root: &web_sys::Node,
    root2: &web_sys::Node,
    foreign: u32,
) {
    let mut v = vec![foreign];
    if app && !done(t) {
        expect(t, &mut v);
    } else if app {
        nd::cover(4);
    }
    trace_all(&v);
    let ot = if two && other.get() { Some(id(other.node())) } else { None };
    if id(root) == id(root2) {
        let mut c = children(root);
        if let Some(o) = ot {
            nd::check(c.contains(&o), "a second app is not shown");
            c.retain(|x| *x != o);
        }
        nd::check(c == v, "the mounted app does not show what it should");
    } else {
        nd::check(children(root) == v, "the mounted app does not show what it should");
        let want: Vec<u32> = ot.into_iter().collect();
        nd::check(children(root2) == want, "a second app does not show what it should");
    }
}

/// Events reach a mounted app at once: `n` buttons, each toggling a node when clicked; one that
/// ends the wait. `steps` symbolic events.
pub fn events(n: u32, steps: u32) {
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    let base = mock::live_listeners();
    let btns: Vec<EventTarget> = (0..n).map(|_| element().into()).collect();
    let stop: EventTarget = element().into();
    let leaves: Vec<_> = (0..n).map(|_| Leaf::new()).collect();
    let counts: Rc<Vec<Cell<u32>>> = Rc::new((0..n).map(|_| Cell::new(0)).collect());
    let app = {
        let futs: Vec<_> = (0..n as usize)
            .map(|i| {
                let (b, l, c) = (btns[i].clone(), leaves[i].clone(), counts.clone());
                let shown = fut(&T::L(l.clone()));
                async move {
                    join((shown, async {
                        loop {
                            b.until_event::<Event>("click".into()).await;
                            c[i].set(c[i].get() + 1);
                            l.toggle();
                        }
                    }))
                    .await;
                }
            })
            .collect();
        let s = stop.clone();
        let last = Leaf::new();
        async move {
            race((
                async {
                    join(futs).await;
                },
                async move {
                    s.until_event::<Event>("stop".into()).await;
                },
            ))
            .await;
            last.set(true);
            fut(&T::L(last)).await;
        }
    };
    let task = mount_at(app, root.clone());
    drain();
    let mut stopped = false;
    let mut clicks = vec![0; n as usize];
    for _ in 0..steps {
        let c = nd::pick(0, n + 1);
        if c < n {
            mock::dispatch(&btns[c as usize], "click", 0);
            if !stopped {
                clicks[c as usize] += 1;
                nd::cover(1);
            }
        } else if c == n {
            mock::dispatch(&stop, "stop", 0);
            stopped = true;
            nd::cover(2);
        } else {
            // whatever timeouts are pending run now
            nd::assume(mock::pending_timeouts() > 0);
            mock::run_timeout();
        }
        // handled by the time the event listener returns
        let mut want = vec![id(&foreign)];
        if !stopped {
            for (i, &k) in clicks.iter().enumerate() {
                if k % 2 == 1 {
                    want.push(id(leaves[i].node()));
                }
            }
            nd::check(children(&root) == want, "an event was not handled before its listener returned");
        } else {
            nd::check(children(&root).len() == 2, "an event was not handled before its listener returned");
            nd::check(mock::live_listeners() == base, "listeners are left behind");
        }
        for (i, &k) in clicks.iter().enumerate() {
            nd::check(counts[i].get() == k, "an event was handled not exactly once");
        }
    }
    drop(task);
    drain();
    nd::check(children(&root) == [id(&foreign)], "unmounting leaves nodes behind");
    nd::check(mock::live_listeners() == base, "listeners are left behind");
}

/// Tasks on the app's executor: spawned, woken from outside, cancelled.
pub fn spawn(n: u32, steps: u32) {
    struct Ctl {
        polls: Cell<u32>,
        due: Cell<bool>,
        drops: Cell<u32>,
        fin: Cell<bool>,
        waker: RefCell<Option<Waker>>,
    }
    struct F(Rc<Ctl>);
    impl Future for F {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let c = &self.0;
            c.polls.set(c.polls.get() + 1);
            c.due.set(false);
            *c.waker.borrow_mut() = Some(cx.waker().clone());
            if c.fin.get() {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    impl Drop for F {
        fn drop(&mut self) {
            self.0.drops.set(self.0.drops.get() + 1);
        }
    }
    let ctls: Vec<_> = (0..n)
        .map(|_| {
            Rc::new(Ctl {
                polls: Cell::new(0),
                due: Cell::new(false),
                drops: Cell::new(0),
                fin: Cell::new(false),
                waker: RefCell::new(None),
            })
        })
        .collect();
    let mut tasks: Vec<_> = (0..n).map(|_| None).collect();
    let mut started = vec![false; n as usize];
    let mut gone = vec![false; n as usize];
    // the app is running
    let t = mount_at(pending::<()>(), div());
    if nd::any_bool() {
        drain();
    }
    for _ in 0..steps {
        let i = nd::pick(0, n - 1) as usize;
        match nd::pick(0, 3) {
            0 => {
                nd::assume(!started[i]);
                started[i] = true;
                ctls[i].due.set(true);
                tasks[i] = Some(get_executor().spawn(F(ctls[i].clone())));
                nd::cover(1);
            }
            1 => {
                let w = ctls[i].waker.borrow().clone();
                nd::assume(w.is_some() && !gone[i]);
                if nd::any_bool() {
                    ctls[i].fin.set(true);
                    gone[i] = true;
                    nd::cover(2);
                }
                ctls[i].due.set(true);
                w.unwrap().wake();
            }
            2 => {
                nd::assume(tasks[i].is_some());
                tasks[i] = None;
                gone[i] = true;
                ctls[i].due.set(false);
                nd::cover(3);
            }
            _ => {
                drain();
                for (c, g) in ctls.iter().zip(&gone) {
                    nd::check(!c.due.get(), "a woken task is not polled");
                    nd::check(c.drops.get() == *g as u32, "a finished or cancelled task is not dropped");
                }
            }
        }
    }
    drain();
    for (c, g) in ctls.iter().zip(&gone) {
        nd::check(!c.due.get(), "a woken task is not polled");
        nd::check(c.drops.get() == *g as u32, "a finished or cancelled task is not dropped");
        nd::trace(c.polls.get() as u64);
    }
    drop(t);
    drain();
}

/// Applications that mount and unmount applications (themselves, too) and dispatch events to them,
/// while they are polled and when they are dropped.
struct Net {
    roots: Vec<web_sys::Node>,
    nodes: Vec<web_sys::Node>,
    els: Vec<EventTarget>,
    tasks: RefCell<Vec<Option<Box<dyn std::any::Any>>>>,
    a: Vec<AppState>,
    mounted: Cell<usize>,
    left: Cell<u32>,
}
#[derive(Default)]
struct AppState {
    alive: Cell<bool>,
    listening: Cell<bool>,
    pending: Cell<bool>,
    drops: Cell<u32>,
}
struct NetGuard(Rc<Net>, usize);
impl Drop for NetGuard {
    fn drop(&mut self) {
        let s = &self.0.a[self.1];
        s.drops.set(s.drops.get() + 1);
        s.listening.set(false);
        self.0.act(true);
    }
}
impl Net {
    fn mount(self: &Rc<Self>) {
        let i = self.mounted.get();
        if i == self.roots.len() {
            return;
        }
        self.mounted.set(i + 1);
        self.a[i].alive.set(true);
        let guard = NetGuard(self.clone(), i);
        let n = self.clone();
        let show = async_ui_web_core::ContainerNodeFuture::new(pending::<()>(), self.nodes[i].clone());
        let t = mount_at(
            async move {
                let _guard = guard;
                join((show, async {
                    n.act(true);
                    loop {
                        n.a[i].listening.set(true);
                        n.els[i].until_event::<Event>("e".into()).await;
                        n.a[i].listening.set(false);
                        n.a[i].pending.set(false);
                        nd::cover(4);
                        n.act(true);
                    }
                }))
                .await;
            },
            self.roots[i].clone(),
        );
        self.tasks.borrow_mut()[i] = Some(Box::new(t));
    }
    fn act(self: &Rc<Self>, nested: bool) {
        if nested {
            if self.left.get() == 0 {
                return;
            }
            self.left.set(self.left.get() - 1);
        }
        let which = || {
            let n = self.mounted.get() as u32;
            nd::assume(n > 0);
            nd::pick(0, n - 1) as usize
        };
        let c = nested as u32 * 5;
        match nd::pick(if nested { 0 } else { 1 }, 3) {
            0 => {}
            1 => {
                self.mount();
                nd::cover(1 + c);
            }
            2 => {
                let j = which();
                let t = self.tasks.borrow_mut()[j].take();
                self.a[j].alive.set(false);
                drop(t);
                nd::cover(2 + c);
            }
            _ => {
                let j = which();
                let s = &self.a[j];
                if s.listening.get() && s.alive.get() {
                    s.pending.set(true);
                    nd::cover(3 + c);
                }
                mock::dispatch(&self.els[j], "e", 0);
                if !nested {
                    nd::check(
                        self.a.iter().all(|s| !(s.alive.get() && s.pending.get())),
                        "[C10 C11] an event was not handled before its listener returned",
                    );
                }
            }
        }
    }
}
pub fn nested(apps: u32, inner: u32, steps: u32) {
    let base = mock::live_listeners();
    let n = Rc::new(Net {
        roots: (0..apps).map(|_| div()).collect(),
        nodes: (0..apps).map(|_| div()).collect(),
        els: (0..apps).map(|_| element().into()).collect(),
        tasks: RefCell::new((0..apps).map(|_| None).collect()),
        a: (0..apps).map(|_| AppState::default()).collect(),
        mounted: Cell::new(0),
        left: Cell::new(inner),
    });
    for s in 0..steps {
        n.act(false);
        if s + 1 < steps && nd::any_bool() {
            continue;
        }
        drain();
        for i in 0..n.mounted.get() {
            let s = &n.a[i];
            let v = children(&n.roots[i]);
            trace_all(&v);
            if s.alive.get() {
                nd::check(v == [id(&n.nodes[i])], "[C09] the mounted app does not show what it should");
                nd::check(!s.pending.get(), "[C10 C11] an event was not handled");
            } else {
                nd::check(v.is_empty(), "[C09] unmounting leaves nodes behind");
            }
            nd::check(s.drops.get() == !s.alive.get() as u32, "[C09] an app is not dropped exactly once when it is unmounted");
        }
    }
    n.left.set(0);
    n.tasks.borrow_mut().iter_mut().for_each(|t| *t = None);
    drain();
    nd::check(n.roots.iter().all(|r| children(r).is_empty()), "[C09] unmounting leaves nodes behind");
    nd::check(mock::live_listeners() == base, "[C09 C11] listeners are left behind");
}
