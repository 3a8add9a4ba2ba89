//! Slots, dropdowns, class shortcuts, the HTML tables, virtualized lists.
use crate::dom::{self, Dyn, Leaf, T};
use crate::util::*;
use async_ui_web::components::{Dropdown, DynamicSlot};
use async_ui_web::html;
use async_ui_web::prelude_traits::*;
use async_ui_web_core::combinators::join;
use std::collections::BTreeSet;
use std::future::Future;
use std::rc::Rc;
use std::task::Context;
use web_sys::{mock, Node};

struct Item {
    leaves: Vec<Rc<Leaf>>,
    t: T,
    set: bool,
}
fn item(two: bool, on: bool) -> Item {
    let leaves: Vec<_> = (0..1 + two as usize).map(|_| Leaf::new()).collect();
    for l in &leaves {
        l.set(on);
    }
    let t = if two {
        T::J(2, leaves.iter().map(|l| T::L(l.clone())).collect())
    } else {
        T::L(leaves[0].clone())
    };
    Item { leaves, t, set: false }
}
/// A slot between two siblings, `steps` symbolic operations.
/// `flags`: 1 the slot is the root itself and can be polled at any time with any waker, 2 items of
/// two nodes, 4 the items' leaves change
pub fn slot(steps: u32, flags: u32) {
    let direct = flags & 1 != 0;
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    let slot = Rc::new(DynamicSlot::<Dyn>::new());
    let (a, b) = (Leaf::new(), Leaf::new());
    a.set(nd::any_bool());
    b.set(nd::any_bool());
    let f: Dyn = if direct {
        let slot = slot.clone();
        Box::pin(async move { slot.render().await })
    } else {
        let slot = slot.clone();
        let (a, b) = (dom::fut(&T::L(a.clone())), dom::fut(&T::L(b.clone())));
        Box::pin(async move {
            join((a, slot.render(), b)).await;
        })
    };
    let mut m = Mounted::at(f, root.clone());
    let mut items: Vec<Item> = vec![];
    // what the slot has been told last, and what it shows
    let mut cur: Option<usize> = None;
    let mut live: Option<usize> = None;
    let mut started = false;
    let mut ended: Vec<usize> = vec![];
    for _ in 0..steps {
        match nd::pick(0, 4) {
            0 => {
                let i = item(flags & 2 != 0 && nd::any_bool(), nd::any_bool());
                slot.set_future(dom::fut(&i.t));
                items.push(i);
                cur = Some(items.len() - 1);
                items[cur.unwrap()].set = true;
                nd::check(!started || m.woken(), "setting a future does not wake the slot's task");
                nd::cover(1);
            }
            1 => {
                slot.clear_future();
                cur = None;
                nd::check(!started || m.woken(), "clearing does not wake the slot's task");
                nd::cover(2);
            }
            2 => {
                // the current item changes or ends
                nd::assume(live.is_some() && live == cur);
                let l = &items[live.unwrap()].leaves;
                let l = &l[nd::pick(0, l.len() as u32 - 1) as usize];
                nd::assume(!l.is_done());
                if flags & 4 != 0 && nd::any_bool() {
                    l.toggle()
                } else {
                    l.finish();
                }
            }
            3 => {
                if direct {
                    // polled for no reason, perhaps by another task
                    if nd::any_bool() {
                        m.waker = CountWaker::new();
                    }
                    nd::assume(started);
                    nd::check(m.poll().is_pending(), "a slot completed");
                    live = cur;
                    nd::cover(5);
                } else {
                    let l = [&a, &b][nd::pick(0, 1) as usize];
                    l.toggle();
                }
            }
            _ => {
                // used again before the application runs
                nd::assume(!started);
            }
        }
        if nd::any_bool() {
            continue;
        }
        if !started {
            started = true;
            nd::check(m.poll().is_pending(), "a slot completed");
        }
        nd::check(m.run().is_pending(), "a slot completed");
        live = cur;
        for (i, it) in items.iter().enumerate() {
            if Some(i) != cur {
                if !ended.contains(&i) {
                    ended.push(i);
                }
                nd::check(it.leaves.iter().all(|l| l.is_dropped()), "a replaced future is still there");
            } else if !dom::done(&it.t) {
                nd::check(it.leaves.iter().all(|l| !l.is_dropped() || l.is_done()), "the current future is gone");
            }
        }
        let mut want = vec![id(&foreign)];
        let mut alt = want.clone();
        if !direct && a.get() {
            want.push(id(a.node()));
            alt.push(id(a.node()));
        }
        if let Some(c) = cur {
            let it = &items[c];
            if dom::done(&it.t) {
                // an unfinished business of nobody: the nodes of a future that is done may go or stay
                dom::expect(&it.t, &mut alt);
                nd::cover(4);
            } else {
                dom::expect(&it.t, &mut want);
                dom::expect(&it.t, &mut alt);
                nd::cover(3);
            }
        }
        if !direct && b.get() {
            want.push(id(b.node()));
            alt.push(id(b.node()));
        }
        let v = m.children();
        trace_all(&v);
        nd::check(v == want || v == alt, "the slot does not show the future it was given last");
    }
    m.unmount();
    nd::check(m.children() == [id(&foreign)], "nodes are left over");
    drop(slot);
    nd::check(items.iter().all(|i| i.leaves.iter().all(|l| l.is_dropped())), "a future is never dropped");
}

/// The contents of a slot that use the slot themselves, up to `max` contents.
struct Nested {
    slot: DynamicSlot<Dyn>,
    max: usize,
    nodes: std::cell::RefCell<Vec<(Node, u32)>>,
    cur: std::cell::Cell<Option<usize>>,
}
struct Content {
    n: Rc<Nested>,
    me: usize,
    polled: bool,
    shown: async_ui_web_core::ContainerNodeFuture<std::future::Pending<()>>,
}
impl Nested {
    /// uses the slot in one of the possible ways
    fn act(self: &Rc<Self>, cover: u32) {
        match nd::pick(0, 2) {
            0 => {}
            1 => {
                self.cur.set(None);
                self.slot.clear_future();
                nd::cover(cover);
            }
            _ => {
                let me = self.nodes.borrow().len();
                if me >= self.max {
                    return;
                }
                let node = div();
                self.nodes.borrow_mut().push((node.clone(), 0));
                self.cur.set(Some(me));
                let shown = async_ui_web_core::ContainerNodeFuture::new(std::future::pending(), node);
                self.slot.set_future(Box::pin(Content { n: self.clone(), me, polled: false, shown }));
                nd::cover(cover + 1);
            }
        }
    }
}
impl Future for Content {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<()> {
        if !self.polled {
            self.polled = true;
            let n = self.n.clone();
            n.act(2);
        }
        std::pin::Pin::new(&mut self.shown).poll(cx)
    }
}
impl Drop for Content {
    fn drop(&mut self) {
        self.n.nodes.borrow_mut()[self.me].1 += 1;
        if self.n.max > 0 {
            self.n.act(4);
        }
    }
}
/// Contents that set or clear their slot while they are polled and when they are dropped.
pub fn slot_nested(max: u32, steps: u32) {
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    let n = Rc::new(Nested {
        slot: DynamicSlot::new(),
        max: max as usize,
        nodes: Default::default(),
        cur: Default::default(),
    });
    let f: Dyn = {
        let n = n.clone();
        Box::pin(async move { n.slot.render().await })
    };
    let mut m = Mounted::at(f, root.clone());
    let _ = m.poll();
    for _ in 0..steps {
        n.act(0);
        if nd::any_bool() {
            continue;
        }
        nd::check(m.run().is_pending(), "a slot completed");
        let mut want = vec![id(&foreign)];
        let nodes = n.nodes.borrow();
        want.extend(n.cur.get().map(|c| id(&nodes[c].0)));
        let v = m.children();
        trace_all(&v);
        nd::check(v == want, "the slot does not show the future it was given last");
        for (i, x) in nodes.iter().enumerate() {
            nd::check(x.1 == (Some(i) != n.cur.get()) as u32, "a replaced future is not dropped exactly once");
        }
    }
    m.unmount();
    nd::check(m.children() == [id(&foreign)], "nodes are left over");
}

const TEXTS: [&str; 3] = ["x", "", "y"];
/// Option updates (up to `max` of `keys` keys), selections by program and user.
/// `flags`: 1 texts are symbolic
pub fn dropdown(keys: u32, max: u32, steps: u32, flags: u32) {
    let d = Dropdown::<u32>::new();
    let select: Node = AsRef::<Node>::as_ref(&d.element).clone();
    let root = div();
    mock::connect(&root);
    let mut m = Mounted::at(d.render(), root.clone());
    let mut opts: Vec<(u32, u32)> = vec![];
    let mut elems: Vec<Option<u32>> = vec![None; keys as usize];
    let mut sel: Option<u32> = None;
    // a selected option that was removed: may be remembered, and taken up again
    let mut ghost: Option<u32> = None;
    if nd::any_bool() {
        let _ = m.poll();
    }
    for _ in 0..steps {
        match nd::pick(0, 2) {
            0 => {
                let len = nd::pick(0, max);
                let mut new: Vec<(u32, u32)> = vec![];
                for _ in 0..len {
                    let k = nd::pick(0, keys - 1);
                    nd::assume(new.iter().all(|(x, _)| *x != k));
                    new.push((k, if flags & 1 != 0 { nd::pick(0, 2) } else { 1 }));
                }
                d.update_options(new.iter().map(|&(k, t)| (k, TEXTS[t as usize])));
                let old = sel.or(ghost);
                match sel {
                    Some(k) if new.iter().any(|(x, _)| *x == k) => nd::cover(1),
                    _ => {
                        let v = d.value();
                        ghost = old;
                        sel = None;
                        if let Some(k) = old {
                            if new.iter().any(|(x, _)| *x == k) && v == old {
                                sel = old;
                                ghost = None;
                                nd::cover(2);
                            } else {
                                nd::cover(3);
                            }
                        }
                    }
                }
                opts = new;
            }
            1 => {
                let k = nd::pick(0, keys);
                d.set_value((k < keys).then_some(k));
                ghost = None;
                sel = opts.iter().map(|(x, _)| *x).find(|x| *x == k);
                nd::cover(4 + sel.is_some() as u32);
            }
            _ => {
                // the user chooses
                let n = opts.len() as u32;
                nd::assume(n > 0);
                let i = nd::pick(0, n - 1);
                mock::set_selected_index(&select, i as i32);
                sel = Some(opts[i as usize].0);
                ghost = None;
                nd::cover(6);
            }
        }
        let ch = children(&select);
        nd::check(ch.len() == opts.len(), "not exactly one option element per option");
        trace_all(&ch);
        let now: Vec<Node> = {
            let mut v = vec![];
            let mut c = select.first_child();
            while let Some(x) = c {
                c = x.next_sibling();
                v.push(x);
            }
            v
        };
        for (&(k, t), e) in opts.iter().zip(&now) {
            nd::check(mock::tag_id(e) == wasm_bindgen::mock::str_id("option"), "not an option element");
            nd::check(
                mock::text_id(e) == wasm_bindgen::mock::str_id(TEXTS[t as usize]),
                "options are not in the given order or have the wrong text",
            );
            match elems[k as usize] {
                Some(x) => nd::check(x == id(e), "options are out of order or the element of one that stays was replaced"),
                None => nd::check(
                    !elems.contains(&Some(id(e))),
                    "a new option got the element of another one",
                ),
            }
        }
        for k in 0..keys {
            let p = opts.iter().position(|o| o.0 == k);
            elems[k as usize] = p.map(|p| id(&now[p]));
            nd::check(d.contains_key(&k) == p.is_some(), "contains_key");
        }
        let (v, si) = (d.value(), mock::selected_index(&select));
        match sel {
            Some(k) => {
                nd::check(v == Some(k), "value() is not the option that was selected last");
                nd::check(
                    si >= 0 && opts[si as usize].0 == k,
                    "the select element shows another option than the one that was selected last",
                );
            }
            None => {
                nd::check(si < 0, "the select element shows an option although none is selected");
                nd::check(v.is_none() || v == ghost, "value() is an option although none is selected");
            }
        }
        nd::trace(si as u64);
    }
    let mut c = mock::listener_count(&select, "change") as u32;
    let mut s = Box::pin(d.until_change());
    let w = CountWaker::new();
    let mut cx = Context::from_waker(&w.1);
    nd::check(Future::poll(s.as_mut(), &mut cx).is_pending(), "a change without an event");
    c += 1;
    nd::check(mock::listener_count(&select, "change") as u32 == c, "until_change does not listen");
    mock::dispatch(&select, "change", 5);
    nd::check(w.count() > 0, "until_change is not woken");
    nd::check(Future::poll(s.as_mut(), &mut cx).is_ready(), "until_change misses a change");
    let _ = m.poll();
    nd::check(m.children() == [id(&select)], "the select element is not rendered");
    m.unmount();
    nd::check(m.children().is_empty(), "the select element is not removed");
}

const CLASSES: [&str; 4] = ["a", "b", "a-b", "ab"];
fn names() -> Vec<usize> {
    let n = nd::pick(0, 2);
    (0..n).map(|_| nd::pick(0, 2) as usize).collect()
}
/// `steps` symbolic calls of the class shortcuts on two elements.
pub fn classes(steps: u32) {
    let els = [html::Div::new(), html::Div::new()];
    let mut model: [BTreeSet<usize>; 2] = Default::default();
    for _ in 0..steps {
        let e = nd::pick(0, 1) as usize;
        let (el, set) = (&els[e], &mut model[e]);
        let nd_: &web_sys::Element = el.as_ref();
        match nd::pick(0, 7) {
            0 => {
                let c = nd::pick(0, 3) as usize;
                el.add_class(CLASSES[c]);
                set.insert(c);
                nd::cover(1);
            }
            1 => {
                let c = nd::pick(0, 3) as usize;
                el.del_class(CLASSES[c]);
                set.remove(&c);
            }
            2 => {
                let v = names();
                el.add_classes(v.iter().map(|&c| CLASSES[c]));
                set.extend(v);
                nd::cover(2);
            }
            3 => {
                let v = names();
                el.del_classes(v.iter().map(|&c| CLASSES[c]));
                for c in v {
                    set.remove(&c);
                }
                nd::cover(3);
            }
            4 => {
                let (c, on) = (nd::pick(0, 3) as usize, nd::any_bool());
                el.set_class(CLASSES[c], on);
                if on {
                    set.insert(c);
                } else {
                    set.remove(&c);
                }
                nd::cover(4);
            }
            5 => {
                let c = nd::pick(0, 3) as usize;
                let r = el.with_class(CLASSES[c]);
                nd::check(std::ptr::eq(r, el), "with_class returns something else");
                set.insert(c);
            }
            6 => {
                let v = names();
                let r = el.with_classes(v.iter().map(|&c| CLASSES[c]));
                nd::check(std::ptr::eq(r, el), "with_classes returns something else");
                set.extend(v);
            }
            _ => {
                // chained
                let (c, d) = (nd::pick(0, 3) as usize, nd::pick(0, 3) as usize);
                nd_.with_class(CLASSES[c]).with_class(CLASSES[d]);
                set.insert(c);
                set.insert(d);
                nd::cover(5);
            }
        }
        for (el, set) in els.iter().zip(&model) {
            let list = el.class_list();
            let n = mock::class_count(AsRef::<Node>::as_ref(&el.element).mock_id());
            nd::check(n == set.len(), "classes were added or removed that were not named");
            for (i, c) in CLASSES.iter().enumerate() {
                nd::check(list.contains(c) == set.contains(&i), "a class is present or absent against the calls");
            }
            nd::trace(n as u64);
        }
    }
}
trait MockId {
    fn mock_id(&self) -> u32;
}
impl MockId for Node {
    fn mock_id(&self) -> u32 {
        mock::id(self)
    }
}
