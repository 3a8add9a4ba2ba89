//! DynamicList, DiffedList, ModeledList/ListModel.
use crate::dom::{fut, Dyn, Leaf, T};
use crate::util::*;
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList};
use async_ui_web_core::combinators::join;
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll};
use web_sys::{mock, Node};

/// What a list item renders: one node, or two nodes one of which comes and goes.
pub struct Item {
    leaves: Vec<Rc<Leaf>>,
    drops: Cell<u32>,
    gone: Cell<bool>,
}
struct ItemFut {
    i: Rc<Item>,
    inner: Dyn,
}
impl Future for ItemFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.inner.as_mut().poll(cx)
    }
}
impl Drop for ItemFut {
    fn drop(&mut self) {
        let d = self.i.drops.get() + 1;
        self.i.drops.set(d);
        nd::check(self.i.gone.get(), "[C20 C21 C22] an item's future is dropped although it is still in the list");
    }
}
fn new_item(nodes: u32) -> Rc<Item> {
    let leaves: Vec<_> = (0..nodes).map(|_| Leaf::new()).collect();
    leaves.iter().for_each(|l| l.set(true));
    Rc::new(Item {
        leaves,
        drops: Cell::new(0),
        gone: Cell::new(false),
    })
}
fn item_fut(i: &Rc<Item>) -> Pin<Box<dyn Future<Output = ()>>> {
    let inner = match i.leaves.len() {
        1 => fut(&T::L(i.leaves[0].clone())),
        _ => fut(&T::J(0, i.leaves.iter().map(|l| T::L(l.clone())).collect())),
    };
    Box::pin(ItemFut {
        i: i.clone(),
        inner,
    })
}
fn nodes(i: &Item, out: &mut Vec<u32>) {
    for l in &i.leaves {
        if l.get() {
            out.push(id(l.node()));
        }
    }
}

/// A future in a slot that can be removed and put back: renders the list or not.
struct Maybe<'a> {
    on: Rc<Cell<bool>>,
    make: Box<dyn Fn() -> Pin<Box<dyn Future<Output = ()> + 'a>> + 'a>,
    cur: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>,
    waker: Rc<RefCell<Option<std::task::Waker>>>,
}
impl<'a> Future for Maybe<'a> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        *self.waker.borrow_mut() = Some(cx.waker().clone());
        if self.on.get() {
            if self.cur.is_none() {
                let f = (self.make)();
                self.cur = Some(f);
            }
            let _ = self.cur.as_mut().unwrap().as_mut().poll(cx);
        } else {
            self.cur = None;
        }
        Poll::Pending
    }
}
/// The list between two siblings that can come and go.
struct Stage {
    on: Rc<Cell<bool>>,
    waker: Rc<RefCell<Option<std::task::Waker>>>,
    pre: Rc<Leaf>,
    post: Rc<Leaf>,
    foreign: Node,
    root: Node,
    /// the root lies within this one
    outer: Option<Node>,
    /// how many nodes an empty list takes that are not displayed (markers), if known
    empty: Cell<Option<usize>>,
}
impl Stage {
    /// everything inside an element that goes with it
    fn inside() -> Stage {
        Stage { outer: Some(div()), ..Self::new() }
    }
    fn new() -> Stage {
        let root = div();
        let foreign = div();
        root.append_child(&foreign).unwrap();
        Stage {
            on: Rc::new(Cell::new(true)),
            waker: Default::default(),
            pre: Leaf::new(),
            post: Leaf::new(),
            foreign,
            root,
            outer: None,
            empty: Cell::new(None),
        }
    }
    fn mount<'a>(
        &self,
        make: impl Fn() -> Pin<Box<dyn Future<Output = ()> + 'a>> + 'a,
    ) -> Mounted<Pin<Box<dyn Future<Output = ()> + 'a>>> {
        let m = Maybe {
            on: self.on.clone(),
            make: Box::new(make),
            cur: None,
            waker: self.waker.clone(),
        };
        let (a, b) = (fut(&T::L(self.pre.clone())), fut(&T::L(self.post.clone())));
        let f: Pin<Box<dyn Future<Output = ()> + 'a>> = Box::pin(async move {
            join((a, m, b)).await;
        });
        match &self.outer {
            None => Mounted::at(f, self.root.clone()),
            Some(o) => {
                let mut m: Mounted<Pin<Box<dyn Future<Output = ()> + 'a>>> =
                    Mounted::at(Box::pin(ContainerNodeFuture::new(f, self.root.clone())), o.clone());
                m.root = self.root.clone();
                m
            }
        }
    }
    fn unmount<F: Future>(&self, m: &mut Mounted<F>) {
        let Some(o) = &self.outer else {
            m.unmount();
            nd::check(
                children(&self.root) == [id(&self.foreign)],
                "[C07 C20 C21 C22] unmounting leaves nodes behind",
            );
            return;
        };
        let muts = unsafe { mock::DOC_MUTATIONS };
        m.unmount();
        nd::check(children(o).is_empty(), "[C07 C20 C21 C22] unmounting leaves nodes behind");
        nd::check(
            unsafe { mock::DOC_MUTATIONS } - muts == 1,
            "[C08] unmounting should remove each top level node once and nothing else",
        );
        nd::cover(16);
    }
    /// what is displayed, compared with what should be
    fn shown<F: Future>(&self, m: &Mounted<F>, items: &[Rc<Item>]) {
        let (v, want) = (m.visible(), self.expect(items));
        if !self.on.get() {
            nd::check(v.len() == want.len() && want.iter().all(|x| v.contains(x)), "[C07 C20 C21 C22] a list that is gone leaves nodes behind");
        }
        let hidden = m.children().len() - v.len();
        match self.empty.get() {
            _ if !self.on.get() => nd::check(hidden == 0, "[C07 C20 C21 C22] a list that is gone leaves nodes behind"),
            Some(n) if items.is_empty() => nd::check(hidden == n, "[C07 C20] removed items leave nodes behind"),
            _ => {}
        }
        if want.len() < 100 {
            nd::check(
                v.iter().all(|x| want.contains(x)),
                "[C07 C20 C21 C22] an item that is gone leaves nodes behind",
            );
        }
        trace_all(&want);
        // what is around the list
        let (pre, post) = (id(self.pre.node()), id(self.post.node()));
        let lead = 1 + self.pre.get() as usize;
        let tail = v.len() - self.post.get() as usize;
        nd::check(
            lead <= tail && v[..lead] == want[..lead] && v[tail..] == want[want.len() - self.post.get() as usize..]
                && !v[lead..tail].iter().any(|x| *x == pre || *x == post),
            "[C06 C20 C21 C22] the siblings of a list are out of order",
        );
        nd::check(v == want, MSG);
    }
    fn toggle_list(&self) {
        self.on.set(!self.on.get());
        let w = self.waker.borrow().clone();
        if let Some(w) = w {
            w.wake()
        }
    }
    fn expect(&self, items: &[Rc<Item>]) -> Vec<u32> {
        let mut v = vec![id(&self.foreign)];
        if self.pre.get() {
            v.push(id(self.pre.node()));
        }
        if self.on.get() {
            items.iter().for_each(|i| nodes(i, &mut v));
        }
        if self.post.get() {
            v.push(id(self.post.node()));
        }
        v
    }
}
const MSG: &str = "[C20 C21 C22] the list is not displayed in order";

/// what the list should be: keys with their items, in order
#[derive(Default)]
struct Ref(Vec<(u32, Rc<Item>)>);
impl Ref {
    fn pos(&self, k: u32) -> Option<usize> {
        self.0.iter().position(|x| x.0 == k)
    }
    fn items(&self) -> Vec<Rc<Item>> {
        self.0.iter().map(|x| x.1.clone()).collect()
    }
}
/// DynamicList: `keys` keys, `init` of them present at first, `steps` symbolic operations of the
/// kinds in the mask `ops`, `nodes` nodes per item. With bit 0x800, only keys at or beyond the
/// ends, in the middle and at the boundaries of machine words are operated on.
pub fn dynamic(keys: u32, init: u32, steps: u32, ops: u32, nodes: u32) {
    let st = if ops & 0x1000 != 0 { Stage::inside() } else { Stage::new() };
    let mut all: Vec<Rc<Item>> = vec![];
    st.empty.set(Some({
        let l: DynamicList<'_, u32, Dyn> = DynamicList::new();
        let mut m = Mounted::at(Box::pin(l.render()), div());
        let _ = m.poll();
        let n = m.children().len() - m.visible().len();
        m.unmount();
        n
    }));
    let list: DynamicList<'_, u32, Dyn> = DynamicList::new();
    let mut r = Ref::default();
    let kinds: Vec<u32> = (0..8).filter(|k| ops >> k & 1 != 0).collect();
    for k in 0..init {
        let it = new_item(nodes);
        all.push(it.clone());
        r.0.push((k, it.clone()));
        nd::check(!list.insert(k, item_fut(&it), None), "insert of a new key");
    }
    let wide = ops & 0x800 != 0;
    let key = || if wide { crate::scale::at(keys) } else { nd::pick(0, keys - 1) };
    let opt = || {
        if wide {
            return nd::any_bool().then(|| crate::scale::at(keys));
        }
        let b = nd::pick(0, keys);
        (b < keys).then_some(b)
    };
    if ops & 0x100 != 0 {
        st.on.set(false);
    }
    let mut m = st.mount(|| Box::pin(list.render()));
    let _ = m.poll();
    let _ = m.run();
    st.shown(&m, &r.items());
    for _ in 0..steps {
        let op = kinds[nd::pick(0, kinds.len() as u32 - 1) as usize];
        match op {
            0 => {
                // insert
                let (k, b) = (key(), opt());
                let it = new_item(nodes);
                all.push(it.clone());
                let old = r.pos(k);
                if let Some(o) = old {
                    r.0[o].1.gone.set(true);
                    nd::cover(1);
                }
                nd::check(
                    list.insert(k, item_fut(&it), b.as_ref()) == old.is_some(),
                    "insert returns whether it replaced something",
                );
                // before the item (even if that is the one replaced), else at the end
                let at = b.and_then(|b| r.pos(b)).unwrap_or(r.0.len());
                r.0.insert(at, (k, it));
                if let Some(o) = old {
                    r.0.remove(if at <= o { o + 1 } else { o });
                }
            }
            1 => {
                let k = key();
                let p = r.pos(k);
                if let Some(p) = p {
                    r.0.remove(p).1.gone.set(true);
                    nd::cover(2);
                }
                nd::check(list.remove(&k) == p.is_some(), "remove returns whether it removed something");
            }
            2 => {
                let (k, b) = (key(), opt());
                let p = r.pos(k);
                nd::assume(p.is_some());
                if b != Some(k) {
                    let x = r.0.remove(p.unwrap());
                    let at = b.and_then(|b| r.pos(b)).unwrap_or(r.0.len());
                    r.0.insert(at, x);
                }
                list.move_before(&k, b.as_ref());
                nd::cover(3);
            }
            3 => {
                let (a, b) = (key(), key());
                let (pa, pb) = (r.pos(a), r.pos(b));
                nd::assume(pa.is_some() && pb.is_some());
                r.0.swap(pa.unwrap(), pb.unwrap());
                list.swap(&a, &b);
                nd::cover(4);
            }
            4 => {
                let mask = if wide { 0 } else { nd::pick(0, (1 << keys) - 1) };
                let (a, b, c) = if wide { (key(), key(), nd::any_bool()) } else { (0, 0, false) };
                let keeps = |k: u32| if wide { (a <= k && k < b) == c } else { mask >> k & 1 != 0 };
                r.0.retain(|(k, i)| {
                    let keep = keeps(*k);
                    if !keep {
                        i.gone.set(true);
                    }
                    keep
                });
                list.retain(|k| keeps(*k));
                nd::cover(5);
            }
            5 => {
                st.toggle_list();
                nd::cover(6);
            }
            6 => {
                if nd::any_bool() {
                    st.pre.toggle();
                } else {
                    st.post.toggle();
                }
                nd::cover(7);
            }
            _ => {
                // something inside an item changes
                nd::assume(!r.0.is_empty());
                let n = r.0.len() as u32;
                let i = if wide && n > 2 { crate::scale::at(n) } else { nd::pick(0, n - 1) };
                let j = nd::pick(0, nodes - 1);
                r.0[i as usize].1.leaves[j as usize].toggle();
                nd::cover(8);
            }
        }
        if ops & 0x200 == 0 || nd::any_bool() {
            let _ = m.run();
            st.shown(&m, &r.items());
        }
        for k in 0..keys {
            nd::check(list.contains_key(&k) == r.pos(k).is_some(), "[C20 C21 C22] contains_key");
        }
    }
    let _ = m.run();
    st.shown(&m, &r.items());
    if !st.on.get() {
        st.toggle_list();
        let _ = m.run();
        st.shown(&m, &r.items());
    }
    for i in &all {
        nd::check(
            i.drops.get() == i.gone.get() as u32,
            "[C20 C21 C22] a removed item's future is not dropped exactly once",
        );
        i.gone.set(true);
    }
    st.unmount(&mut m);
    drop(m);
    drop(list);
    for i in &all {
        nd::check(i.drops.get() == 1, "[C20 C21 C22] an item's future is not dropped with the list");
    }
    if st.outer.is_none() {
        crate::dom::after(&st.root, &st.foreign);
    } else {
        let (root, foreign) = (div(), div());
        root.append_child(&foreign).unwrap();
        crate::dom::after(&root, &foreign);
    }
}

/// Items that use their list while they are polled and when they are dropped.
struct Nest {
    list: DynamicList<'static, u32, Pin<Box<dyn Future<Output = ()>>>>,
    keys: u32,
    /// how many more items may be made, and operations be done by items
    left: Cell<(u32, u32)>,
    r: RefCell<Vec<(u32, u32)>>,
    made: RefCell<Vec<(Node, u32)>>,
}
struct NestItem {
    n: Rc<Nest>,
    me: usize,
    polled: bool,
    shown: ContainerNodeFuture<std::future::Pending<()>>,
}
impl Nest {
    fn act(self: &Rc<Self>, nested: bool) {
        let (items, ops) = self.left.get();
        if nested {
            if ops == 0 {
                return;
            }
            self.left.set((items, ops - 1));
            nd::cover(10);
        }
        let pos = |r: &[(u32, u32)], k| r.iter().position(|x| x.0 == k);
        let key = || nd::pick(0, self.keys - 1);
        match nd::pick(if nested { 0 } else { 1 }, 4) {
            0 => {}
            1 => {
                if items == 0 {
                    return;
                }
                self.left.set((items - 1, self.left.get().1));
                let (k, before) = (key(), nd::pick(0, self.keys));
                let node = div();
                let me = self.made.borrow().len();
                self.made.borrow_mut().push((node.clone(), 0));
                let had = {
                    let r = &mut *self.r.borrow_mut();
                    let at = pos(r, before).unwrap_or(r.len());
                    let old = pos(r, k);
                    r.insert(at, (k, me as u32));
                    if let Some(o) = old {
                        r.remove(if at <= o { o + 1 } else { o });
                    }
                    old.is_some()
                };
                let shown = ContainerNodeFuture::new(pending(), node);
                let f = Box::pin(NestItem { n: self.clone(), me, polled: false, shown });
                let b = (before < self.keys).then_some(before);
                nd::check(self.list.insert(k, f, b.as_ref()) == had, "insert returns whether it replaced something");
                nd::cover(1);
            }
            2 => {
                let k = key();
                let p = pos(&self.r.borrow(), k);
                if let Some(p) = p {
                    self.r.borrow_mut().remove(p);
                }
                nd::check(self.list.remove(&k) == p.is_some(), "remove returns whether it removed something");
                nd::cover(2);
            }
            3 => {
                let (k, before) = (key(), nd::pick(0, self.keys));
                {
                    let r = &mut *self.r.borrow_mut();
                    let p = pos(r, k);
                    nd::assume(p.is_some());
                    if before != k {
                        let x = r.remove(p.unwrap());
                        let at = pos(r, before).unwrap_or(r.len());
                        r.insert(at, x);
                    }
                }
                let b = (before < self.keys).then_some(before);
                self.list.move_before(&k, b.as_ref());
                nd::cover(3);
            }
            _ => {
                let (a, b) = (key(), key());
                {
                    let r = &mut *self.r.borrow_mut();
                    let (p, q) = (pos(r, a), pos(r, b));
                    nd::assume(p.is_some() && q.is_some());
                    r.swap(p.unwrap(), q.unwrap());
                }
                self.list.swap(&a, &b);
                nd::cover(4);
            }
        }
    }
}
impl Future for NestItem {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !self.polled {
            self.polled = true;
            let n = self.n.clone();
            n.act(true);
            nd::cover(5);
        }
        Pin::new(&mut self.shown).poll(cx)
    }
}
impl Drop for NestItem {
    fn drop(&mut self) {
        self.n.made.borrow_mut()[self.me].1 += 1;
        self.n.act(true);
        nd::cover(6);
    }
}
/// DynamicList with items that insert, remove, move and swap items of the same list themselves:
/// `keys` keys, at most `items` items, `inner` operations by items and `steps` from outside.
pub fn nested(keys: u32, items: u32, inner: u32, steps: u32) {
    let root = div();
    let n = Rc::new(Nest {
        list: DynamicList::new(),
        keys,
        left: Cell::new((items, inner)),
        r: Default::default(),
        made: Default::default(),
    });
    // what an empty list takes
    let empty = {
        let l: DynamicList<u32, Dyn> = DynamicList::new();
        let mut m: Mounted<Dyn> = Mounted::at(Box::pin(async move { l.render().await }), div());
        let _ = m.poll();
        m.children().len()
    };
    let f: Dyn = {
        let n = n.clone();
        Box::pin(async move { n.list.render().await })
    };
    let mut m = Mounted::at(f, root);
    if nd::any_bool() {
        let _ = m.poll();
    }
    for s in 0..steps {
        n.act(false);
        if s + 1 < steps && nd::any_bool() {
            continue;
        }
        let _ = m.poll();
        let _ = m.run();
        let r = n.r.borrow();
        let made = n.made.borrow();
        let want: Vec<u32> = r.iter().map(|x| id(&made[x.1 as usize].0)).collect();
        let v = m.visible();
        trace_all(&v);
        nd::check(v == want, MSG);
        for (i, x) in made.iter().enumerate() {
            let there = r.iter().any(|y| y.1 == i as u32);
            nd::check(x.1 == !there as u32, "[C20 C21 C22] a removed item's future is not dropped exactly once");
        }
    }
    n.left.set((0, 0));
    for k in 0..keys {
        n.list.remove(&k);
    }
    let _ = m.run();
    nd::check(m.children().len() == empty, "[C07 C20 C21 C22] removed items leave nodes behind");
    m.unmount();
    nd::check(m.children().is_empty(), "[C07 C20 C21 C22] unmounting leaves nodes behind");
}

/// a symbolic sequence of distinct keys below `keys`, of length at most `max`
fn seq(keys: u32, max: u32) -> Vec<u32> {
    let n = nd::pick(0, max);
    let mut v = vec![];
    for _ in 0..n {
        let k = nd::pick(0, keys - 1);
        nd::assume(!v.contains(&k));
        v.push(k);
    }
    v
}
struct Made {
    all: RefCell<Vec<(u32, Rc<Item>)>>,
    nodes: u32,
    /// during an update: keys for which a future may be made and thrown away again
    loose: RefCell<Vec<u32>>,
}
impl Made {
    fn make(&self, k: u32) -> Dyn {
        let it = new_item(self.nodes);
        it.gone.set(self.loose.borrow().contains(&k));
        self.all.borrow_mut().push((k, it.clone()));
        item_fut(&it)
    }
    /// Brings the model from the items `r` to the new keys. `touched`: keys that were removed
    /// since the last update; they may be back, and then either future may be shown.
    fn step(
        &self,
        r: &[(u32, Rc<Item>)],
        new: &[u32],
        touched: &[u32],
        update: impl FnOnce(),
    ) -> Vec<(u32, Rc<Item>)> {
        for (k, i) in r {
            if !new.contains(k) || touched.contains(k) {
                i.gone.set(true);
            }
        }
        let before = self.all.borrow().len();
        *self.loose.borrow_mut() = touched.to_vec();
        update();
        let all = self.all.borrow();
        let mut made: Vec<_> = all[before..].to_vec();
        let out = new
            .iter()
            .map(|&k| {
                let old = r.iter().find(|x| x.0 == k);
                match made.iter().rposition(|x| x.0 == k) {
                    Some(_) if old.is_some() && !touched.contains(&k) => {
                        nd::fail("[C20 C21 C22] a future was made for a key that was there already")
                    }
                    Some(p) => {
                        let x = made.remove(p);
                        x.1.gone.set(false);
                        x
                    }
                    None => match old {
                        Some(x) => {
                            x.1.gone.set(false);
                            x.clone()
                        }
                        None => nd::fail("[C20 C21 C22] no future was made for a new key"),
                    },
                }
            })
            .collect();
        for (k, i) in made {
            nd::check(touched.contains(&k), "[C20 C21 C22] more than one future was made for a new key");
            i.gone.set(true);
        }
        out
    }
    fn finish(&self) {
        for (_, i) in self.all.borrow().iter() {
            nd::check(
                i.drops.get() == i.gone.get() as u32,
                "[C20 C21 C22] a removed item's future is not dropped exactly once",
            );
            i.gone.set(true);
        }
    }
}
/// DiffedList: a symbolic sequence of updates.
pub fn diffed(keys: u32, max: u32, updates: u32, nodes: u32, toggle: u32) {
    let st = if toggle & 2 != 0 { Stage::inside() } else { Stage::new() };
    let made = Made {
        all: RefCell::new(vec![]),
        nodes,
        loose: Default::default(),
    };
    let list = DiffedList::new(|k: &u32| made.make(*k));
    let mut r: Vec<(u32, Rc<Item>)> = vec![];
    let mut m = st.mount(|| Box::pin(list.render()));
    let _ = m.poll();
    for u in 0..updates {
        let new = if u == 0 { (0..nd::pick(0, max)).collect() } else { seq(keys, max) };
        r = made.step(&r, &new, &[], || list.update(new.clone()));
        for k in 0..keys {
            nd::check(list.contains_key(&k) == new.contains(&k), "[C20 C21 C22] contains_key");
        }
        if toggle & 1 != 0 && nd::any_bool() {
            st.toggle_list();
        }
        let _ = m.run();
        let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
        let want = st.expect(&items);
        trace_all(&want);
        nd::check(m.visible() == want, MSG);
        nd::cover(new.len() as u64 as u32);
    }
    if !st.on.get() {
        st.toggle_list();
        let _ = m.run();
        let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
        nd::check(m.visible() == st.expect(&items), MSG);
    }
    made.finish();
    st.unmount(&mut m);
}

/// DiffedList with `n` keys at first and a symbolic rearrangement of them in each of `updates`.
pub fn diffed_wide(n: u32, updates: u32) {
    let st = Stage::new();
    let made = Made {
        all: RefCell::new(vec![]),
        nodes: 1,
        loose: Default::default(),
    };
    let list = DiffedList::new(|k: &u32| made.make(*k));
    let mut r: Vec<(u32, Rc<Item>)> = vec![];
    let mut m = st.mount(|| Box::pin(list.render()));
    let _ = m.poll();
    let mut v: Vec<u32> = (0..n).collect();
    let mut fresh = n;
    for u in 0..=updates {
        if u > 0 {
            let len = v.len() as u32;
            nd::assume(len > 2);
            let (a, b) = (crate::scale::at(len) as usize, crate::scale::at(len) as usize);
            nd::assume(a <= b);
            let b = b + 1;
            match nd::pick(0, 6) {
                0 => v[a..b].reverse(),
                1 => drop(v.drain(a..b)),
                2 => v[a..b].rotate_left(1),
                3 => v.rotate_left(a),
                4 => v.swap(a, b - 1),
                5 => {
                    // as many new ones instead
                    for x in &mut v[a..b] {
                        *x = fresh;
                        fresh += 1;
                    }
                }
                _ => {
                    // new ones in between
                    let new: Vec<u32> = (fresh..fresh + (b - a) as u32).collect();
                    fresh += (b - a) as u32;
                    v.splice(a..a, new);
                }
            }
        }
        r = made.step(&r, &v, &[], || list.update(v.clone()));
        let _ = m.run();
        let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
        let want = st.expect(&items);
        trace_all(&want);
        nd::check(m.visible() == want, MSG);
        nd::cover(u);
    }
    made.finish();
    st.unmount(&mut m);
}

/// ListModel and ModeledList: `init` items, then up to `max` changes before an update.
pub fn modeled_wide(init: u32, max: u32) {
    let st = Stage::new();
    let made = Made {
        all: RefCell::new(vec![]),
        nodes: 1,
        loose: Default::default(),
    };
    let list = ModeledList::new(|k: &u32| made.make(*k));
    let mut m = st.mount(|| Box::pin(list.render()));
    let _ = m.poll();
    let mut model: ListModel<u32> = (0..init).collect();
    let mut v: Vec<u32> = (0..init).collect();
    let mut r = made.step(&[], &v, &[], || list.update(&model));
    let _ = m.run();
    let mut fresh = init;
    let mut touched = vec![];
    let pattern = nd::pick(0, 6);
    let modified = nd::any_bool();
    let total = nd::fresh(0, max);
    let mut k = 0;
    loop {
        let (n, last) = (v.len(), k >= total);
        // the last change can be anywhere, of any kind
        let (kind, a, b) = if last {
            nd::assume(n > 2);
            let kind = nd::pick(0, 5);
            let at = || crate::scale::at(n as u32) as usize;
            (kind, if kind == 2 || kind == 3 { 0 } else { at() }, if kind > 3 { at() } else { 0 })
        } else {
            let n = n.max(1);
            (if pattern == 6 { k % 6 } else { pattern }, (k as usize * 7) % n, (k as usize * 3 + 1) % n)
        };
        match kind {
            0 => {
                model.insert(a, fresh);
                v.insert(a, fresh);
                fresh += 1;
            }
            1 => {
                if n > 0 {
                    nd::check(model.remove(a) == v[a], "[C23] ListModel::remove returns the item");
                    touched.push(v.remove(a));
                }
            }
            2 => {
                let x = v.pop();
                nd::check(model.pop() == x, "[C23] ListModel::pop");
                touched.extend(x);
            }
            3 => {
                model.push(fresh);
                v.push(fresh);
                fresh += 1;
            }
            4 => {
                if n > 0 {
                    model.swap(a, b);
                    v.swap(a, b);
                }
            }
            _ => {
                if n > 0 {
                    model.move_item(a, b);
                    let x = v.remove(a);
                    v.insert(b, x);
                }
            }
        }
        nd::check(model[..] == v[..], "[C23] ListModel does not hold the same items as a Vec");
        if last {
            break;
        }
        if modified && k == 2 {
            model.modify_vec().reverse();
            v.reverse();
            nd::cover(2);
        }
        k += 1;
    }
    r = made.step(&r, &v, &touched, || list.update(&model));
    let _ = m.run();
    let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
    let want = st.expect(&items);
    trace_all(&want);
    nd::check(m.visible() == want, MSG);
    nd::cover(1);
    made.finish();
    st.unmount(&mut m);
}

/// ListModel behaves like Vec, and ModeledList displays it after each update.
pub fn modeled(init: u32, max: u32, steps: u32, ops: u32, toggle: u32) {
    let st = Stage::new();
    let made = Made {
        all: RefCell::new(vec![]),
        nodes: 1,
        loose: Default::default(),
    };
    let list = ModeledList::new(|k: &u32| made.make(*k));
    let mut r: Vec<(u32, Rc<Item>)> = vec![];
    let mut m = st.mount(|| Box::pin(list.render()));
    let _ = m.poll();
    let mut model: ListModel<u32> = (0..init).collect();
    let mut v: Vec<u32> = (0..init).collect();
    // a copy of the model (or the original) that is put aside
    let mut other: Option<(ListModel<u32>, Vec<u32>)> = None;
    let mut fresh = init;
    // keys removed since the last update
    let mut touched: Vec<u32> = vec![];
    if ops & 0x400 == 0 {
        r = made.step(&r, &v, &std::mem::take(&mut touched), || list.update(&model));
        let _ = m.run();
    }
    let kinds: Vec<u32> = (0..9).filter(|k| ops >> k & 1 != 0).collect();
    // items that were in the list at some time and are not now (may come back)
    let mut past: Vec<u32> = vec![];
    for _ in 0..steps {
        let n = v.len() as u32;
        // a key that is not in the list: a new one or one that was removed before
        let mut newkey = |v: &Vec<u32>| {
            past.retain(|k| !v.contains(k));
            if !past.is_empty() && nd::any_bool() {
                past[0]
            } else {
                fresh += 1;
                fresh - 1
            }
        };
        let mut removed = None;
        match kinds[nd::pick(0, kinds.len() as u32 - 1) as usize] {
            0 => {
                nd::assume(n < max);
                let i = nd::pick(0, n);
                let k = newkey(&v);
                model.insert(i as usize, k);
                v.insert(i as usize, k);
            }
            1 => {
                nd::assume(n > 0);
                let i = nd::pick(0, n - 1) as usize;
                let a = model.remove(i);
                let b = v.remove(i);
                nd::check(a == b, "[C23] ListModel::remove returns the item");
                removed = Some(b);
            }
            2 => {
                let a = model.pop();
                let b = v.pop();
                nd::check(a == b, "[C23] ListModel::pop");
                removed = b;
            }
            3 => {
                nd::assume(n < max);
                let k = newkey(&v);
                model.push(k);
                v.push(k);
            }
            4 => {
                nd::assume(n > 0);
                let (a, b) = (nd::pick(0, n - 1) as usize, nd::pick(0, n - 1) as usize);
                model.swap(a, b);
                v.swap(a, b);
            }
            5 => {
                nd::assume(n > 0);
                let (a, b) = (nd::pick(0, n - 1) as usize, nd::pick(0, n - 1) as usize);
                model.move_item(a, b);
                let x = v.remove(a);
                v.insert(b, x);
            }
            6 => {
                // arbitrary modification: reverse, or drop the first, or add in front
                match nd::pick(0, 2) {
                    0 => {
                        model.modify_vec().reverse();
                        v.reverse();
                    }
                    1 => {
                        nd::assume(n > 0);
                        model.modify_vec().remove(0);
                        removed = Some(v.remove(0));
                    }
                    _ => {
                        nd::assume(n < max);
                        let k = newkey(&v);
                        model.modify_vec().insert(0, k);
                        v.insert(0, k);
                    }
                }
                nd::cover(1);
            }
            7 => {
                // make a copy and continue with it, or go back to the other one
                let o = match other.take() {
                    None => (model.clone(), v.clone()),
                    Some(o) => {
                        nd::cover(5);
                        o
                    }
                };
                other = Some((std::mem::replace(&mut model, o.0), std::mem::replace(&mut v, o.1)));
                nd::cover(2);
            }
            _ => {
                // show another model in between
                let other: Vec<u32> = match nd::pick(0, 2) {
                    0 => vec![],
                    1 => v.iter().rev().copied().collect(),
                    _ => v.iter().copied().skip(1).collect(),
                };
                let om = ListModel::from(other.clone());
                r = made.step(&r, &other, &std::mem::take(&mut touched), || list.update(&om));
                let _ = m.run();
                let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
                nd::check(m.visible() == st.expect(&items), MSG);
                nd::cover(3);
            }
        }
        past.extend(removed);
        touched.extend(removed);
        nd::check(model[..] == v[..], "[C23] ListModel does not hold the same items as a Vec");
        if toggle & 2 != 0 && nd::any_bool() {
            st.toggle_list();
        }
        // without an update in between, changes accumulate
        if toggle & 1 == 0 || nd::any_bool() {
            r = made.step(&r, &v, &std::mem::take(&mut touched), || list.update(&model));
            let _ = m.run();
            let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
            let want = st.expect(&items);
            trace_all(&want);
            nd::check(m.visible() == want, MSG);
            nd::cover(4);
        }
    }
    if toggle & 1 != 0 {
        r = made.step(&r, &v, &std::mem::take(&mut touched), || list.update(&model));
    }
    let _ = m.run();
    let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
    nd::check(m.visible() == st.expect(&items), MSG);
    if !st.on.get() {
        st.toggle_list();
        let _ = m.run();
        let items: Vec<_> = r.iter().map(|x| x.1.clone()).collect();
        nd::check(m.visible() == st.expect(&items), MSG);
    }
    made.finish();
    st.unmount(&mut m);
    let _ = pending::<()>;
}
/// Indices and keys that don't exist, where the operation has to panic.
pub fn bounds(n: u32) {
    let n = nd::pick(0, n) as usize;
    let kind = nd::pick(0, 5);
    let beyond = |n: usize| [n, n + 1, n + 300, usize::MAX][nd::pick(0, 3) as usize];
    let within = |n: usize| nd::pick(0, n as u32 - 1) as usize;
    nd::cover(kind + 1);
    if kind < 4 {
        let mut model: ListModel<u32> = (0..n as u32).collect();
        match nd::pick(0, 2) {
            0 => {}
            1 => model.push(1000),
            _ => {
                model.pop();
            }
        }
        let n = model.len();
        let (mut a, mut b) = (beyond(n), 0);
        if kind > 1 {
            b = if n > 0 && nd::any_bool() { within(n) } else { beyond(n) };
            if nd::any_bool() {
                std::mem::swap(&mut a, &mut b);
            }
        }
        nd::allow_panic(true);
        match kind {
            0 => model.insert(a.saturating_add(1), 9),
            1 => {
                model.remove(a);
            }
            2 => model.swap(a, b),
            _ => model.move_item(a, b),
        }
        nd::fail("[C23] an operation out of bounds does not panic")
    }
    let list: DynamicList<'_, u32, Pin<Box<dyn Future<Output = ()>>>> = DynamicList::new();
    for k in 0..n as u32 {
        list.insert(k, Box::pin(pending()), None);
    }
    let missing = n as u32 + nd::pick(0, 1);
    let any = nd::pick(0, n as u32 + 1);
    let first = nd::any_bool();
    nd::allow_panic(true);
    match kind {
        4 => list.move_before(&missing, (any <= n as u32).then_some(&any)),
        _ if first => list.swap(&missing, &any),
        _ => list.swap(&any, &missing),
    }
    nd::fail("[C20] an operation on a key that is not in the list does not panic")
}

type Renderer = Box<dyn Fn(&u32) -> Dyn>;
enum Upd {
    Diffed(DiffedList<'static, u32, Renderer, Dyn>),
    Modeled(ModeledList<'static, u32, Dyn, Renderer>, RefCell<ListModel<u32>>),
}
struct Up {
    list: Upd,
    keys: u32,
    left: Cell<u32>,
    r: RefCell<Vec<u32>>,
    made: RefCell<Vec<UpMade>>,
}
struct UpMade {
    key: u32,
    node: Node,
    drops: u32,
}
struct UpItem {
    n: Weak<Up>,
    me: usize,
    polled: bool,
    shown: ContainerNodeFuture<std::future::Pending<()>>,
}
impl Up {
    fn act(&self, nested: bool) {
        if nested {
            if self.left.get() == 0 || !nd::any_bool() {
                return;
            }
            self.left.set(self.left.get() - 1);
        }
        let before = self.r.borrow().clone();
        let made = self.made.borrow().len();
        match &self.list {
            Upd::Diffed(l) => {
                let new = seq(self.keys, self.keys);
                *self.r.borrow_mut() = new.clone();
                l.update(new);
            }
            Upd::Modeled(l, m) => {
                let mut m = m.borrow_mut();
                let r = &mut *self.r.borrow_mut();
                let n = r.len() as u32;
                match nd::pick(0, 3) {
                    0 => {
                        let (k, at) = (nd::pick(0, self.keys - 1), nd::pick(0, self.keys));
                        nd::assume(at <= n && !r.contains(&k));
                        r.insert(at as usize, k);
                        m.insert(at as usize, k);
                    }
                    1 => {
                        let at = nd::pick(0, self.keys - 1);
                        nd::assume(at < n);
                        r.remove(at as usize);
                        m.remove(at as usize);
                    }
                    2 => {
                        let (a, b) = (nd::pick(0, self.keys - 1), nd::pick(0, self.keys - 1));
                        nd::assume(a < n && b < n);
                        r.swap(a as usize, b as usize);
                        m.swap(a as usize, b as usize);
                    }
                    _ => {
                        let new = seq(self.keys, self.keys);
                        *r = new.clone();
                        *m.modify_vec() = new;
                    }
                }
                l.update(&m);
            }
        }
        for x in &self.made.borrow()[made..] {
            nd::check(!before.contains(&x.key), "[C21 C22] a future was made for a key that was there already");
        }
        nd::cover(1 + nested as u32);
    }
}
impl Future for UpItem {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let first = !std::mem::replace(&mut self.polled, true);
        let up = self.n.upgrade();
        let early = first && nd::any_bool();
        if let (Some(up), true, true) = (&up, first, early) {
            up.act(true);
        }
        let _ = Pin::new(&mut self.shown).poll(cx);
        if let (Some(up), true, false) = (&up, first, early) {
            up.act(true);
        }
        Poll::Pending
    }
}
impl Drop for UpItem {
    fn drop(&mut self) {
        if let Some(up) = self.n.upgrade() {
            up.made.borrow_mut()[self.me].drops += 1;
        }
    }
}
/// DiffedList (`kind` 0) and ModeledList (1) with items that update their list while they are
/// polled: `keys` keys, `inner` updates by items and `steps` from outside.
pub fn nested_update(kind: u32, keys: u32, inner: u32, steps: u32) {
    let up = Rc::new_cyclic(|w: &Weak<Up>| {
        let w = w.clone();
        let renderer: Renderer = Box::new(move |k| {
            let up = w.upgrade().unwrap();
            let node = div();
            let me = up.made.borrow().len();
            up.made.borrow_mut().push(UpMade { key: *k, node: node.clone(), drops: 0 });
            let shown = ContainerNodeFuture::new(pending(), node);
            Box::pin(UpItem { n: w.clone(), me, polled: false, shown })
        });
        Up {
            list: match kind {
                0 => Upd::Diffed(DiffedList::new(renderer)),
                _ => Upd::Modeled(ModeledList::new(renderer), RefCell::new(ListModel::new())),
            },
            keys,
            left: Cell::new(inner),
            r: Default::default(),
            made: Default::default(),
        }
    });
    let f: Dyn = {
        let up = up.clone();
        Box::pin(async move {
            match &up.list {
                Upd::Diffed(l) => l.render().await,
                Upd::Modeled(l, _) => l.render().await,
            }
        })
    };
    let mut m = Mounted::at(f, div());
    let _ = m.poll();
    for _ in 0..steps {
        up.act(false);
        let _ = m.run();
        let made = up.made.borrow();
        let now: Vec<&UpMade> = made.iter().filter(|x| x.drops == 0).collect();
        let r = up.r.borrow();
        for x in made.iter() {
            nd::check(x.drops < 2, "[C20 C21 C22] an item's future is dropped twice");
        }
        nd::check(now.len() == r.len(), "[C20 C21 C22] a removed item's future is not dropped exactly once");
        let want: Vec<u32> = r
            .iter()
            .map(|k| match now.iter().find(|x| x.key == *k) {
                Some(x) => id(&x.node),
                None => nd::fail("[C20 C21 C22] an item's future is dropped although its key is there"),
            })
            .collect();
        let v = m.visible();
        trace_all(&v);
        nd::check(v == want, MSG);
    }
    m.unmount();
    nd::check(m.children().is_empty(), "[C07 C20 C21 C22] unmounting leaves nodes behind");
}
