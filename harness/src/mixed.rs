//! Lists and slots inside the items of a list that is rendered here and there.
use crate::dom::{fut, Dyn, Leaf, T};
use crate::util::*;
use async_ui_web::components::DynamicSlot;
use async_ui_web::lists::DynamicList;
use async_ui_web_core::combinators::join;
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use web_sys::Node;

struct Item {
    key: u32,
    head: Rc<Leaf>,
    list: DynamicList<'static, u32, Dyn>,
    slot: DynamicSlot<Dyn>,
    /// what they should show
    inner: RefCell<Vec<(u32, Rc<Leaf>)>>,
    shown: RefCell<Vec<Rc<Leaf>>>,
    /// the list in the slot
    held: RefCell<Option<Rc<Outer>>>,
    next: Cell<u32>,
}
fn leaf() -> Rc<Leaf> {
    let l = Leaf::new();
    l.set(true);
    l
}
impl Item {
    fn new(key: u32) -> Rc<Item> {
        Rc::new(Item {
            key,
            head: leaf(),
            list: DynamicList::new(),
            slot: DynamicSlot::new(),
            inner: Default::default(),
            shown: Default::default(),
            held: Default::default(),
            next: Cell::new(0),
        })
    }
    fn fut(self: &Rc<Self>) -> Dyn {
        let i = self.clone();
        Box::pin(async move {
            join((fut(&T::L(i.head.clone())), i.list.render(), i.slot.render())).await;
        })
    }
    fn nodes(&self, out: &mut Vec<u32>) {
        out.push(id(self.head.node()));
        out.extend(self.inner.borrow().iter().map(|(_, l)| id(l.node())));
        out.extend(self.shown.borrow().iter().map(|l| id(l.node())));
    }
    fn insert(&self, front: bool) {
        let (k, l) = (self.next.get(), leaf());
        self.next.set(k + 1);
        let mut v = self.inner.borrow_mut();
        let before = if front { v.first().map(|x| x.0) } else { None };
        self.list.insert(k, fut(&T::L(l.clone())), before.as_ref());
        let at = if front { 0 } else { v.len() };
        v.insert(at, (k, l));
    }
    fn op(&self, op: u32) {
        let len = self.inner.borrow().len();
        match op {
            0 => self.insert(false),
            1 => {
                nd::assume(len > 0);
                self.insert(true)
            }
            2 => {
                nd::assume(len > 0);
                let (k, _) = self.inner.borrow_mut().remove(0);
                nd::check(self.list.remove(&k), "an item is missing");
            }
            3 => {
                nd::assume(len > 1);
                let mut v = self.inner.borrow_mut();
                let x = v.pop().unwrap();
                self.list.move_before(&x.0, Some(&v[0].0));
                v.insert(0, x);
            }
            4 => {
                let l = leaf();
                self.slot.set_future(fut(&T::L(l.clone())));
                *self.shown.borrow_mut() = vec![l];
                *self.held.borrow_mut() = None;
            }
            5 => {
                nd::assume(!self.shown.borrow().is_empty());
                self.slot.clear_future();
                self.shown.borrow_mut().clear();
                *self.held.borrow_mut() = None;
            }
            _ => {
                let mut held = self.held.borrow_mut();
                if held.is_none() {
                    // a list in the slot
                    let l: Rc<Outer> = Rc::new(DynamicList::new());
                    *held = Some(l.clone());
                    self.slot.set_future(Box::pin(async move { l.render().await }));
                    self.shown.borrow_mut().clear();
                }
                let l = leaf();
                held.as_ref().unwrap().insert(self.next.get(), fut(&T::L(l.clone())), None);
                self.next.set(self.next.get() + 1);
                self.shown.borrow_mut().push(l);
                nd::cover(6);
            }
        }
    }
}
type Outer = DynamicList<'static, u32, Dyn>;
/// One of the places where the outer list can be rendered.
struct Place {
    here: u32,
    at: Rc<Cell<u32>>,
    wakers: Rc<RefCell<Vec<Option<Waker>>>>,
    outer: Rc<Outer>,
    cur: Option<Pin<Box<dyn Future<Output = ()>>>>,
}
impl Future for Place {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.wakers.borrow_mut()[self.here as usize] = Some(cx.waker().clone());
        if self.at.get() == self.here {
            if self.cur.is_none() {
                let o = self.outer.clone();
                self.cur = Some(Box::pin(async move { o.render().await }));
            }
            let _ = self.cur.as_mut().unwrap().as_mut().poll(cx);
        } else {
            self.cur = None;
        }
        Poll::Pending
    }
}
pub fn run(init: u32, steps: u32) {
    let outer: Rc<Outer> = Rc::new(DynamicList::new());
    let at = Rc::new(Cell::new(1));
    let wakers = Rc::new(RefCell::new(vec![None, None, None]));
    let place = |here| Place {
        here,
        at: at.clone(),
        wakers: wakers.clone(),
        outer: outer.clone(),
        cur: None,
    };
    let (pre, post) = (leaf(), leaf());
    let b = div();
    let (p1, p2) = (place(1), place(2));
    let (f1, f3) = (fut(&T::L(pre.clone())), fut(&T::L(post.clone())));
    let bn: Node = b.clone();
    let mut m = Mounted::new(async move {
        join((f1, p1, ContainerNodeFuture::new(p2, bn), f3)).await;
    });
    let mut items: Vec<Rc<Item>> = vec![];
    let mut next = 0;
    let mut insert = |items: &mut Vec<Rc<Item>>, front: bool| {
        let i = Item::new(next);
        next += 1;
        let before = if front { items.first().map(|x| x.key) } else { None };
        outer.insert(i.key, i.fut(), before.as_ref());
        let at = if front { 0 } else { items.len() };
        items.insert(at, i);
    };
    for k in 0..init {
        insert(&mut items, false);
        if k == 0 {
            items[0].op(0);
            items[0].op(0);
            items[0].op(4);
        }
    }
    if nd::any_bool() {
        // rendered before the first step
        nd::check(m.poll().is_pending(), "complete");
        let _ = m.run();
    } else {
        nd::cover(5);
    }
    let mut seen = 0;
    for _ in 0..steps {
        match nd::pick(0, 2) {
            0 => match nd::pick(0, 4) {
                0 => insert(&mut items, false),
                1 => {
                    nd::assume(!items.is_empty());
                    insert(&mut items, true)
                }
                2 => {
                    nd::assume(!items.is_empty());
                    let n = nd::pick(0, items.len() as u32 - 1) as usize;
                    let i = items.remove(n);
                    nd::check(outer.remove(&i.key), "an item is missing");
                }
                3 => {
                    nd::assume(items.len() > 1);
                    let i = items.pop().unwrap();
                    outer.move_before(&i.key, Some(&items[0].key));
                    items.insert(0, i);
                }
                _ => {
                    nd::assume(items.len() > 1);
                    let n = items.len() - 1;
                    outer.swap(&items[0].key, &items[n].key);
                    items.swap(0, n);
                }
            },
            1 => {
                nd::assume(!items.is_empty());
                let n = nd::pick(0, items.len() as u32 - 1) as usize;
                items[n].op(nd::pick(0, 6));
                nd::cover(if at.get() == 0 { 2 } else { 1 });
            }
            _ => {
                let to = nd::pick(0, 2);
                nd::assume(to != at.get());
                if at.get() == 2 {
                    // not in two places at once
                    at.set(0);
                    for w in wakers.borrow().iter().flatten() {
                        w.wake_by_ref();
                    }
                    let _ = m.run();
                }
                at.set(to);
                for w in wakers.borrow().iter().flatten() {
                    w.wake_by_ref();
                }
                nd::cover(3);
            }
        }
        if nd::any_bool() {
            continue;
        }
        if m.seen == 0 && m.waker.count() == 0 && seen == 0 {
            nd::check(m.poll().is_pending(), "complete");
        }
        seen += 1;
        let _ = m.run();
        check(&m, &b, &pre, &post, at.get(), &items);
        nd::cover(4);
    }
    m.unmount();
    nd::check(m.children().is_empty() && children(&b).iter().all(|_| true), "unmounting leaves nodes behind");
    drop(m);
    drop(items);
    drop(outer);
}
fn check<F: Future>(m: &Mounted<F>, b: &Node, pre: &Leaf, post: &Leaf, at: u32, items: &[Rc<Item>]) {
    let mut v = vec![];
    items.iter().for_each(|i| i.nodes(&mut v));
    let mut want = vec![id(pre.node())];
    if at == 1 {
        want.extend(&v);
    }
    want.push(id(b));
    want.push(id(post.node()));
    let got = m.visible();
    trace_all(&got);
    nd::check(got == want, "[C06 C07 C20 C24] the document does not show the items in order");
    let got = visible(b);
    if at == 2 {
        nd::check(got == v, "[C06 C07 C20 C24] the document does not show the items in order");
    } else {
        nd::check(got.is_empty(), "[C06 C07 C20 C24] nodes of a list that is not rendered are shown");
    }
}
