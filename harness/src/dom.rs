//! Rendering: order of nodes, removal, detachment of subtrees.
use crate::util::*;
use async_ui_web::components::DynamicSlot;
use async_ui_web::lists::DynamicList;
use async_ui_web_core::combinators::{join, race};
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll, Waker};
use web_sys::{mock, Node};

pub type Dyn = Pin<Box<dyn Future<Output = ()>>>;

/// A leaf shows and hides a node and finishes on command.
pub struct Leaf {
    node: Node,
    want: Cell<bool>,
    finish: Cell<bool>,
    shown: Cell<bool>,
    done: Cell<bool>,
    started: Cell<bool>,
    dropped: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}
impl Leaf {
    pub fn new() -> Rc<Leaf> {
        Rc::new(Leaf {
            node: div(),
            want: Cell::new(false),
            finish: Cell::new(false),
            shown: Cell::new(false),
            done: Cell::new(false),
            started: Cell::new(false),
            dropped: Cell::new(false),
            waker: RefCell::new(None),
        })
    }
    pub fn set(&self, on: bool) {
        self.want.set(on);
        let w = self.waker.borrow().clone();
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn toggle(&self) {
        self.set(!self.want.get())
    }
    pub fn get(&self) -> bool {
        self.want.get()
    }
    pub fn is_done(&self) -> bool {
        self.done.get()
    }
    pub fn is_dropped(&self) -> bool {
        self.dropped.get()
    }
    pub fn finish(&self) {
        self.finish.set(true);
        self.set(self.want.get());
    }
    pub fn node(&self) -> &Node {
        &self.node
    }
}
struct LeafFut {
    l: Rc<Leaf>,
    cur: Option<Pin<Box<ContainerNodeFuture<std::future::Pending<()>>>>>,
}
impl Future for LeafFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let l = self.l.clone();
        nd::check(!l.done.get(), "[C01 C02 C24] a leaf is polled after it completed");
        l.started.set(true);
        *l.waker.borrow_mut() = Some(cx.waker().clone());
        if l.want.get() {
            if self.cur.is_none() {
                self.cur = Some(Box::pin(ContainerNodeFuture::new(pending(), l.node.clone())));
            }
            let _ = self.cur.as_mut().unwrap().as_mut().poll(cx);
        } else {
            self.cur = None;
        }
        l.shown.set(l.want.get());
        if l.finish.get() {
            l.done.set(true);
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for LeafFut {
    fn drop(&mut self) {
        self.l.dropped.set(true);
    }
}

/// The structure that is rendered.
pub enum T {
    /// leaf
    L(Rc<Leaf>),
    /// join: vec, array or tuple
    J(u32, Vec<T>),
    /// race
    R(u32, Vec<T>),
    /// one after the other
    S(Box<T>, Box<T>),
    /// a container element with contents
    C(Node, Box<T>),
    /// contents that are shown in an element of their own, somewhere else
    P(Node, Box<T>),
    /// an item between two others in a list
    I(Rc<Host>, Box<T>),
    /// contents of a slot
    Z(Rc<Host>, Box<T>),
    /// join that is not wrapped in an async block (keeps its nodes until the owner drops it)
    B(Vec<T>),
    /// shows nothing and never ends
    N,
}
/// What holds a part of the structure that can be moved and removed.
#[derive(Default)]
pub struct Host {
    list: RefCell<Weak<DynamicList<'static, u32, Dyn>>>,
    slot: RefCell<Weak<DynamicSlot<Dyn>>>,
    sides: RefCell<Vec<Node>>,
    order: RefCell<Vec<u32>>,
}
impl Host {
    fn holds(&self) -> bool {
        self.order.borrow().contains(&1)
    }
    /// moves or removes the contents
    fn act(&self, c: u32) {
        nd::assume(self.holds());
        let mut order = self.order.borrow_mut();
        order.retain(|k| *k != 1);
        if let Some(slot) = self.slot.borrow().upgrade() {
            nd::assume(c == 0);
            slot.clear_future();
        }
        if let Some(list) = self.list.borrow().upgrade() {
            if c == 0 {
                nd::check(list.remove(&1), "[C20] the item is there");
            } else {
                let to = [Some(0), Some(2), None][c as usize - 1];
                list.move_before(&1, to.as_ref());
                let at = to.and_then(|t| order.iter().position(|k| *k == t));
                let at = at.unwrap_or(order.len());
                order.insert(at, 1);
            }
        }
        nd::cover(5);
    }
}
fn item(t: T) -> T {
    T::I(Default::default(), T::S(t.into(), T::N.into()).into())
}
fn slot(t: T) -> T {
    T::Z(Default::default(), T::S(t.into(), T::N.into()).into())
}
fn hosts<'a>(t: &'a T, out: &mut Vec<&'a Host>) {
    match t {
        T::L(_) | T::N => {}
        T::J(_, v) | T::R(_, v) | T::B(v) => v.iter().for_each(|t| hosts(t, out)),
        T::S(a, b) => {
            hosts(a, out);
            hosts(b, out)
        }
        T::C(_, t) | T::P(_, t) => hosts(t, out),
        T::I(h, t) | T::Z(h, t) => {
            out.push(h);
            hosts(t, out)
        }
    }
}
pub fn fut(t: &T) -> Dyn {
    match t {
        T::L(l) => Box::pin(LeafFut {
            l: l.clone(),
            cur: None,
        }),
        T::J(shape, v) => {
            let mut f: Vec<Dyn> = v.iter().map(fut).collect();
            match (*shape, v.len()) {
                (1, 2) => {
                    let b = f.pop().unwrap();
                    let a = f.pop().unwrap();
                    Box::pin(async move {
                        join([a, b]).await;
                    })
                }
                (2, 2) => {
                    let b = f.pop().unwrap();
                    let a = f.pop().unwrap();
                    Box::pin(async move {
                        join((a, b)).await;
                    })
                }
                (3, 12) => {
                    let Ok([a, b, c, d, e, f, g, h, i, j, k, l]) = <[Dyn; 12]>::try_from(f) else {
                        unreachable!()
                    };
                    Box::pin(async move {
                        join((a, b, c, d, e, f, g, h, i, j, k, l)).await;
                    })
                }
                (3, 70) => {
                    let Ok(f) = <[Dyn; 70]>::try_from(f) else { unreachable!() };
                    Box::pin(async move {
                        join(f).await;
                    })
                }
                (2, 3) => {
                    let c = f.pop().unwrap();
                    let b = f.pop().unwrap();
                    let a = f.pop().unwrap();
                    Box::pin(async move {
                        join((a, b, c)).await;
                    })
                }
                _ => Box::pin(async move {
                    join(f).await;
                }),
            }
        }
        T::R(shape, v) => {
            let mut f: Vec<Dyn> = v.iter().map(fut).collect();
            match (*shape, v.len()) {
                (1, 2) => {
                    let b = f.pop().unwrap();
                    let a = f.pop().unwrap();
                    Box::pin(async move { race([a, b]).await })
                }
                (2, 2) => {
                    let b = f.pop().unwrap();
                    let a = f.pop().unwrap();
                    Box::pin(async move { race((a, b)).await })
                }
                _ => Box::pin(async move { race(f).await }),
            }
        }
        T::S(a, b) => {
            let (a, b) = (fut(a), fut(b));
            Box::pin(async move {
                a.await;
                b.await;
            })
        }
        T::C(n, t) => {
            let f = fut(t);
            Box::pin(ContainerNodeFuture::new(f, n.clone()))
        }
        T::P(n, t) => {
            let f = fut(t);
            Box::pin(ContainerNodeFuture::new_root(f, n.clone()))
        }
        T::I(h, t) => {
            let f = fut(t);
            let (a, b) = (div(), div());
            *h.sides.borrow_mut() = vec![a.clone(), b.clone()];
            *h.order.borrow_mut() = vec![0, 1, 2];
            let list = Rc::new(DynamicList::new());
            *h.list.borrow_mut() = Rc::downgrade(&list);
            let side = |n: Node| -> Dyn { Box::pin(ContainerNodeFuture::new(pending(), n)) };
            list.insert(0, side(a), None);
            list.insert(2, side(b), None);
            list.insert(1, f, Some(&2));
            Box::pin(async move { list.render().await })
        }
        T::Z(h, t) => {
            let slot = Rc::new(DynamicSlot::new());
            slot.set_future(fut(t));
            *h.slot.borrow_mut() = Rc::downgrade(&slot);
            *h.order.borrow_mut() = vec![1];
            Box::pin(async move {
                slot.render().await;
            })
        }
        T::B(v) => {
            let f: Vec<Dyn> = v.iter().map(fut).collect();
            struct Unit<F>(F);
            impl<F: Future + Unpin> Future for Unit<F> {
                type Output = ();
                fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
                    Pin::new(&mut self.0).poll(cx).map(|_| ())
                }
            }
            Box::pin(Unit(Box::pin(join(f))))
        }
        T::N => Box::pin(pending()),
    }
}
pub fn done(t: &T) -> bool {
    match t {
        T::L(l) => l.done.get(),
        T::J(_, v) | T::B(v) => v.iter().all(done),
        T::R(_, v) => v.iter().any(done),
        T::S(a, b) => done(a) && done(b),
        T::C(_, t) | T::P(_, t) => done(t),
        T::I(..) | T::Z(..) => false,
        T::N => false,
    }
}
/// Checks the contents of nested containers, appends what `t` itself shows.
pub fn expect(t: &T, out: &mut Vec<u32>) {
    match t {
        T::L(l) => {
            if !l.started.get() {
                nd::fail("a future that is part of the structure was not polled");
            } else {
                nd::check(
                    l.done.get() || l.shown.get() == l.want.get(),
                    "[C03] a woken future was not polled",
                );
            }
            if l.shown.get() {
                out.push(id(&l.node));
            }
        }
        T::J(_, v) | T::R(_, v) => {
            if !done(t) {
                v.iter().for_each(|t| expect(t, out));
            }
        }
        T::B(v) => v.iter().for_each(|t| expect(t, out)),
        T::S(a, b) => {
            if !done(a) {
                expect(a, out)
            } else if !done(b) {
                expect(b, out)
            }
        }
        T::C(n, t) => {
            let mut v = vec![];
            expect(t, &mut v);
            same(&visible(n), &v);
            nd::check(
                visible(n) == v,
                "[C06] the contents of an element are not in structural order",
            );
            out.push(id(n));
        }
        T::P(n, t) => {
            let mut v = vec![];
            expect(t, &mut v);
            same(&visible(n), &v);
            nd::check(
                visible(n) == v,
                "[C06] the contents of an element are not in structural order",
            );
        }
        T::I(h, t) => h.order.borrow().iter().for_each(|k| match k {
            1 => expect(t, out),
            k => out.push(id(&h.sides.borrow()[*k as usize / 2])),
        }),
        T::Z(h, t) => {
            if h.holds() {
                expect(t, out)
            }
        }
        T::N => {}
    }
}
/// how many nodes `t` shows somewhere else
fn portals(t: &T, alive: bool) -> u32 {
    match t {
        T::L(_) | T::N => 0,
        T::J(_, v) | T::R(_, v) => {
            let a = alive && !done(t);
            v.iter().map(|t| portals(t, a)).sum()
        }
        T::B(v) => v.iter().map(|t| portals(t, alive)).sum(),
        T::S(a, b) => portals(a, alive && !done(a)) + portals(b, alive && done(a) && !done(b)),
        T::C(_, t) => portals(t, alive),
        T::I(h, t) | T::Z(h, t) => portals(t, alive && h.holds()),
        T::P(n, t) => {
            let here = children(n).len() as u32;
            nd::check(alive || here == 0, "[C07 C09] nodes shown somewhere else are left over");
            here + portals(t, alive)
        }
    }
}
/// the same nodes, whatever their order
fn same(a: &[u32], b: &[u32]) {
    nd::check(
        a.len() == b.len() && b.iter().all(|x| a.contains(x)),
        "[C07] nodes are missing or left over",
    );
}
fn conts<'a>(t: &'a T, out: &mut Vec<&'a Node>) {
    match t {
        T::L(_) | T::N => {}
        T::J(_, v) | T::R(_, v) | T::B(v) => v.iter().for_each(|t| conts(t, out)),
        T::S(a, b) => {
            conts(a, out);
            conts(b, out)
        }
        T::C(n, t) => {
            out.push(n);
            conts(t, out)
        }
        T::P(_, t) | T::I(_, t) | T::Z(_, t) => conts(t, out),
    }
}
/// Structures to explore.
pub fn shape(k: u32, leaves: &mut Vec<Rc<Leaf>>) -> T {
    let mut l = || {
        let x = Leaf::new();
        leaves.push(x.clone());
        T::L(x)
    };
    match k {
        0 => T::J(0, vec![l(), l(), l()]),
        1 => T::J(2, vec![l(), T::J(1, vec![l(), l()])]),
        2 => T::J(1, vec![T::J(2, vec![l(), l()]), l()]),
        3 => T::J(2, vec![l(), T::R(1, vec![l(), l()]), l()]),
        4 => T::J(0, vec![T::S(l().into(), l().into()), l()]),
        5 => T::J(2, vec![T::C(div(), T::J(0, vec![l(), l()]).into()), l()]),
        6 => T::R(0, vec![T::J(2, vec![l(), l()]), T::C(div(), l().into())]),
        7 => T::J(1, vec![T::B(vec![l(), l()]), l()]),
        8 => T::S(T::R(2, vec![l(), T::C(div(), l().into())]).into(), l().into()),
        9 => T::J(2, vec![T::J(2, vec![T::J(2, vec![l(), l()]), l()]), l()]),
        10 => T::J(0, vec![T::S(T::C(div(), l().into()).into(), T::J(1, vec![l(), l()]).into()), l()]),
        11 => T::C(div(), T::J(2, vec![T::C(div(), T::R(2, vec![l(), l()]).into()), l()]).into()),
        12 => T::J(0, vec![l(), T::J(0, vec![l(), T::J(0, vec![l(), T::J(0, vec![l(), l()])])])]),
        13 => T::R(1, vec![T::S(l().into(), T::B(vec![l(), l()]).into()), l()]),
        14 => T::J(2, vec![T::C(div(), T::P(div(), T::J(1, vec![l(), l()]).into()).into()), l()]),
        15 => T::R(2, vec![T::P(div(), l().into()), T::C(div(), T::B(vec![l(), T::P(div(), l().into())]).into())]),
        16 => T::S(T::P(div(), l().into()).into(), T::J(1, vec![l(), T::P(div(), l().into())]).into()),
        17 => T::P(div(), T::J(0, vec![T::C(div(), T::P(div(), l().into()).into()), l()]).into()),
        18 => item(T::J(0, vec![l(), l(), l(), l()])),
        19 => T::J(2, vec![l(), item(T::J(1, vec![l(), l()])), l()]),
        20 => item(T::J(0, vec![l(), item(T::J(2, vec![l(), l()]))])),
        21 => T::C(div(), item(T::J(1, vec![l(), T::C(div(), l().into())])).into()),
        22 => T::R(2, vec![item(T::B(vec![l(), l()])), l()]),
        23 => item(slot(T::J(2, vec![l(), T::R(1, vec![l(), l()])]))),
        24 => T::J(0, vec![slot(T::J(1, vec![l(), item(T::J(2, vec![l(), l()]))])), l()]),
        25 => T::S(T::R(0, vec![slot(l()), l()]).into(), item(T::B(vec![l(), l()])).into()),
        _ => nd::fail("no such structure"),
    }
}
/// `steps` symbolic commands to the leaves of a structure.
/// With `poll_each` every command is followed by a poll, otherwise that is symbolic.
pub fn run(k: u32, steps: u32, poll_each: u32) {
    let mut leaves = vec![];
    let t = shape(k, &mut leaves);
    play(t, leaves, steps, poll_each)
}
/// A chain of `min` to `max` nested combinators with a leaf somewhere along it
/// and two at its end.
pub fn chain(min: u32, max: u32, steps: u32) {
    let depth = nd::pick(min, max);
    let at = nd::pick(0, depth - 1);
    let side = nd::pick(0, 3);
    let mut leaves = vec![];
    let mut l = || {
        let x = Leaf::new();
        leaves.push(x.clone());
        T::L(x)
    };
    let mut t = T::J(2, vec![l(), l()]);
    for i in 0..depth {
        let other = if i == at { l() } else { T::N };
        let v = match side {
            0 => vec![t, other],
            1 => vec![other, t],
            2 if i % 2 == 0 => vec![t, other],
            2 => vec![other, t],
            _ if i == at => vec![t, other],
            _ => vec![other, t],
        };
        t = match i % 4 {
            3 => T::R(2, v),
            k => T::J(k, v),
        };
    }
    nd::cover(4);
    play(t, leaves, steps, 1)
}
/// A join or race of `n` futures; three of them do something.
pub fn wide(n: u32, steps: u32) {
    let mut leaves = vec![];
    let mut at = [0u32; 3];
    for i in 0..3 {
        let c = [0, 1, 63, 64, 65, 127, 128, 254, 255, 256, 257, n - 2, n - 1];
        at[i] = if n == 12 { nd::pick(0, 11) } else { c[nd::pick(0, c.len() as u32 - 1) as usize] };
        nd::assume(at[i] < n && (i == 0 || at[i - 1] < at[i]));
    }
    let v = (0..n)
        .map(|i| {
            if at.contains(&i) {
                let x = Leaf::new();
                leaves.push(x.clone());
                T::L(x)
            } else {
                T::N
            }
        })
        .collect();
    nd::cover(4);
    let t = if nd::any_bool() { T::J(3, v) } else { T::R(0, v) };
    play(t, leaves, steps, 1)
}
/// Any structure of up to `size` leaves and `depth` levels.
pub fn tree(size: u32, depth: u32, steps: u32) {
    let mut leaves = vec![];
    let mut left = size;
    let t = any_tree(&mut left, depth, &mut leaves, true);
    nd::assume(leaves.len() as u32 == size);
    play(t, leaves, steps, 1)
}
fn any_tree(left: &mut u32, depth: u32, leaves: &mut Vec<Rc<Leaf>>, top: bool) -> T {
    let leaf = |left: &mut u32, leaves: &mut Vec<Rc<Leaf>>| {
        *left -= 1;
        let x = Leaf::new();
        leaves.push(x.clone());
        T::L(x)
    };
    // inner nodes: a pair, or a container of one
    let k = if depth == 0 || *left == 0 {
        0
    } else {
        nd::pick(top as u32, 1 + (*left >= 2) as u32 * 4)
    };
    if k == 0 {
        nd::assume(*left > 0);
        return leaf(left, leaves);
    }
    if k == 1 {
        return T::C(div(), any_tree(left, depth - 1, leaves, false).into());
    }
    let shape = *left % 3;
    let a = any_tree(left, depth - 1, leaves, false);
    let b = any_tree(left, depth - 1, leaves, false);
    match k {
        2 => T::J(shape, vec![a, b]),
        3 => T::R(shape, vec![a, b]),
        4 => T::S(a.into(), b.into()),
        _ => T::B(vec![a, b]),
    }
}
fn play(t: T, leaves: Vec<Rc<Leaf>>, steps: u32, poll_each: u32) {
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    for l in &leaves {
        l.want.set(nd::any_bool());
    }
    let n = leaves.len() as u32;
    let mut held = vec![];
    hosts(&t, &mut held);
    let mut m = Mounted::at(fut(&t), root.clone());
    let mut res = m.poll();
    let mut steps = steps;
    loop {
        if res.is_pending() {
            res = m.run();
        }
        let mut want = vec![id(&foreign)];
        expect(&t, &mut want);
        portals(&t, true);
        nd::check(res.is_ready() == done(&t), "[C01 C02] completion of the whole");
        same(&m.visible(), &want);
        nd::check(m.visible() == want, "[C06] nodes are not in structural order");
        trace_all(&want);
        if want.len() > 2 {
            nd::cover(1);
        }
        if res.is_ready() {
            nd::cover(2);
            break;
        }
        if steps == 0 {
            break;
        }
        // a batch of commands
        loop {
            steps -= 1;
            let c = nd::pick(0, 2 * n + 4 * held.len() as u32 - 1);
            if c >= 2 * n {
                let c = c - 2 * n;
                held[c as usize / 4].act(c % 4);
                if poll_each != 0 || steps == 0 || nd::any_bool() {
                    break;
                }
                continue;
            }
            let l = &leaves[(c / 2) as usize];
            nd::assume(!l.done.get() && !l.dropped.get());
            if c % 2 == 0 {
                l.want.set(!l.want.get());
            } else {
                l.finish.set(true);
            }
            let w = l.waker.borrow().clone();
            if let Some(w) = w {
                w.wake()
            }
            if poll_each != 0 || steps == 0 || nd::any_bool() {
                break;
            }
        }
    }
    // unmount: one removal per top level node, the contents of the removed
    // elements are left alone
    let top = m.children().len() as u32 - 1 + portals(&t, true);
    let mut cs = vec![];
    conts(&t, &mut cs);
    let attached: Vec<(&Node, Vec<u32>)> = cs
        .into_iter()
        .filter(|n| held.is_empty() && root.contains(Some(n)))
        .map(|n| (n, children(n)))
        .collect();
    let muts = unsafe { mock::MUTATIONS };
    m.unmount();
    nd::check(m.children() == [id(&foreign)], "[C07] unmounting leaves nodes behind");
    nd::check(
        !held.is_empty() || unsafe { mock::MUTATIONS } - muts == top,
        "[C08] unmounting should remove each top level node once and nothing else",
    );
    portals(&t, false);
    for (n, c) in attached {
        nd::cover(3);
        nd::check(children(n) == c, "[C08] the contents of a removed element were taken apart");
    }
    for l in &leaves {
        nd::check(
            l.dropped.get(),
            "[C07] a future is not dropped when its ancestor is",
        );
    }
    // nothing stays blocked: a fresh mount still cleans up after itself
    after(&root, &foreign);
}
/// Removal still works after everything above.
pub fn after(root: &Node, foreign: &Node) {
    let l = Leaf::new();
    l.want.set(true);
    let g = Gate::new();
    let d = fut(&T::L(l.clone()));
    let w = g.wait();
    let mut m = Mounted::at(
        async move {
            race((d, w)).await;
            pending::<()>().await
        },
        root.clone(),
    );
    let _ = m.poll();
    nd::check(m.children() == [id(foreign), id(&l.node)], "[C07 C08] mounting again");
    g.open();
    let _ = m.run();
    nd::check(
        m.children() == [id(foreign)],
        "[C08] detachment is still blocked after an unmount",
    );
    m.unmount();
}
/// Statically nested futures, where everything lies inside one allocation.
pub fn nested(k: u32, drop_inner: u32) {
    // 14 and 2: every structure, both ways
    let k = if k >= 14 { nd::pick(0, 13) } else { k };
    let drop_inner = if drop_inner >= 2 { nd::pick(0, 1) } else { drop_inner };
    nd::cover(k + 1);
    use async_ui_web_html::nodes::{Div, Span};
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    let d: [Div; 6] = std::array::from_fn(|_| Div::new());
    let s: [Span; 4] = std::array::from_fn(|_| Span::new());
    let n = |d: &Div| -> Node { d.element.clone().into() };
    let g = Gate::new();
    macro_rules! go {
        ($f:expr) => {{
            let f = $f;
            let w = g.wait();
            let dd = &d[5];
            // the outer future shows a sibling that must survive
            let outer = async {
                join((
                    async {
                        race((async { f.await; }, w)).await;
                    },
                    dd.render(pending::<()>()),
                ))
                .await;
            };
            let mut m = Mounted::at(outer, root.clone());
            let _ = m.poll();
            nd::check(m.children().len() >= 3, "[C06] rendered");
            nd::check(*m.children().last().unwrap() == id(&n(dd)), "[C06] the sibling is last");
            if drop_inner != 0 {
                g.open();
                let _ = m.run();
                nd::check(m.children() == [id(&foreign), id(&n(dd))], "[C07] dropping a future removes exactly its nodes");
            }
            m.unmount();
            nd::check(m.children() == [id(&foreign)], "[C07] unmount removes all its nodes");
        }};
    }
    let p = pending::<()>;
    match k {
        0 => go!(d[0].render(d[1].render(p()))),
        1 => go!(d[0].render(join((d[1].render(p()), d[2].render(p()))))),
        2 => go!(d[0].render(join([d[1].render(p()), d[2].render(p())]))),
        3 => go!(join((d[0].render(join((d[1].render(p()), d[2].render(p())))), d[3].render(p())))),
        4 => go!(d[0].render(race((d[1].render(d[2].render(p())), d[3].render(p()))))),
        5 => go!(d[0].render(join((join((s[0].render(p()), s[1].render(p()))), join((s[2].render(p()), s[3].render(p()))))))),
        6 => go!(race((join((d[0].render(p()), d[1].render(p()))), join((s[2].render(p()), s[3].render(p())))))),
        7 => go!(d[0].render(async { join((d[1].render(p()), async { d[2].render(p()).await; })).await; })),
        8 => go!(join([d[0].render(join([d[2].render(p()), d[3].render(p())])), d[1].render(join([s[0].render(p()), s[1].render(p())]).into())].map(|f| async { f.await; }))),
        9 => go!(d[0].render(join(vec![d[1].render(join((s[0].render(p()), s[1].render(p())))), d[2].render(join((s[2].render(p()), s[3].render(p()))))]))),
        10 => go!(d[0].render(join((d[1].render(Wide(0)), d[2].render(p()))))),
        11 => go!(d[0].render(join([d[1].render(Wide(0)), d[2].render(Wide(1))]))),
        12 => go!(join((d[0].render(join((d[1].render(Wide(0)), d[2].render(Wide(0))))), d[3].render(Wide(1))))),
        13 => go!(d[0].render(race((join((d[1].render(Wide(0)), d[2].render(Wide(0)))), join((d[3].render(Wide(1)), d[4].render(Wide(1)))))))),
        _ => nd::fail("no such structure"),
    }
    drop(d);
    drop(s);
    after(&root, &foreign);
}

/// never finishes; 16 bytes, 16-aligned
#[repr(align(16))]
struct Wide(u64);
impl Future for Wide {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        nd::trace(self.0);
        Poll::Pending
    }
}
