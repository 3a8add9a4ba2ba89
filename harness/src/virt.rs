//! VirtualizedList in a scrolling element with a simple layout.
use crate::exec::drain;
use crate::util::*;
use async_ui_web::html;
use async_ui_web::lists::VirtualizedList;
use async_ui_web::mount_at;
use async_ui_web_core::ContainerNodeFuture;
use std::cell::RefCell;
use std::future::{pending, Pending};
use std::rc::Rc;
use web_sys::{mock, HtmlElement, Node};

/// The element that scrolls: its size along the axis, and how far it is scrolled.
static mut VIEW: f64 = 100.0;
static mut SCROLL: f64 = 0.0;
static mut ITEM: f64 = 25.0;
static mut ROOT: u32 = 0;
static mut SPACERS: [u32; 2] = [0; 2];

fn view() -> f64 {
    unsafe { VIEW }
}
fn node(i: u32) -> Node {
    mock::js(i as mock::Ix).unwrap()
}
fn size(n: &Node) -> f64 {
    unsafe {
        if SPACERS.contains(&id(n)) {
            mock::SIZES[id(n) as usize]
        } else if mock::node_kind(n) == mock::K_ELEMENT {
            ITEM
        } else {
            0.0
        }
    }
}
/// Where a node is along the axis: the contents of ROOT follow each other.
fn layout(i: u32) -> (f64, f64) {
    unsafe {
        if !node(i).is_connected() {
            return (0.0, 0.0);
        }
        if i == ROOT {
            return (10.0, 10.0 + view());
        }
        let mut at = 10.0 - SCROLL;
        let mut c = node(ROOT).first_child();
        while let Some(x) = c {
            let s = size(&x);
            if id(&x) == i {
                return (at, at + s);
            }
            at += s;
            c = x.next_sibling();
        }
        (0.0, 0.0)
    }
}
fn content() -> f64 {
    let mut at = 0.0;
    let mut c = node(unsafe { ROOT }).first_child();
    while let Some(x) = c {
        at += size(&x);
        c = x.next_sibling();
    }
    at
}
type Ren = Box<dyn FnMut(usize) -> ContainerNodeFuture<Pending<()>>>;
type L = VirtualizedList<'static, ContainerNodeFuture<Pending<()>>, Ren>;

/// `steps` symbolic operations: the number of items, scrolling, observers.
/// `flags`: 2 operations can come before the application has run,
/// 4 several operations can come before the application runs again,
/// 8 the viewport has another size, which changes
pub fn run(steps: u32, flags: u32) {
    // number the elements that are shown
    let made: Rc<RefCell<Vec<(u32, usize)>>> = Default::default();
    let root: &'static html::Div = Box::leak(Box::new(html::Div::new()));
    let [f, b]: [HtmlElement; 2] =
        [0, 1].map(|_| AsRef::<HtmlElement>::as_ref(&html::Div::new().element).clone());
    unsafe {
        ROOT = id(AsRef::<Node>::as_ref(&root.element));
        SPACERS = [id(&f), id(&b)];
        ITEM = [25.0, 50.0, 20.0, 140.0][nd::pick(0, 3) as usize];
        mock::LAYOUT = Some(layout);
        mock::HORIZONTAL = false;
    }
    let base = mock::live_listeners();
    let m2 = made.clone();
    let list: L = VirtualizedList::new(
        root.element.as_ref(),
        f.clone(),
        b.clone(),
        Box::new(move |i| {
            let d = html::Div::new();
            let n = AsRef::<Node>::as_ref(&d.element).clone();
            m2.borrow_mut().push((id(&n), i));
            ContainerNodeFuture::new(pending(), n)
        }),
    );
    let list: &'static L = Box::leak(Box::new(list));
    let body = div();
    mock::connect(&body);
    let task = mount_at(async move { root.render(list.render()).await }, body.clone());
    const VIEWS: [f64; 4] = [100.0, 30.0, 250.0, 0.0];
    if flags & 8 != 0 {
        unsafe { VIEW = VIEWS[nd::pick(0, 3) as usize] }
    }
    let mut num = 0usize;
    let mut running = flags & 2 == 0;
    if running {
        drain();
    }
    let scrolled = |running: bool| {
        mock::dispatch(&root.element, "scroll", 0);
        if running {
            let now = children(&node(unsafe { ROOT }));
            drain();
            nd::check(
                now == children(&node(unsafe { ROOT })),
                "[C10] work triggered by an event is left for later",
            );
        }
    };
    for _ in 0..steps {
        match nd::pick(0, 1 + if running { 1 + (flags >> 3 & 1) } else { 0 }) {
            0 => {
                num = [12, 0, 1, 30, 4, 60][nd::pick(0, 5) as usize];
                list.set_num_items(num);
                nd::cover(1);
            }
            1 => {
                nd::assume(!running);
                running = true;
                drain();
            }
            3 => {
                unsafe {
                    let to = VIEWS[nd::pick(0, 3) as usize];
                    nd::assume(to != VIEW);
                    VIEW = to;
                }
                // the browser tells when that brings the spacers closer
                mock::fire_observers();
                nd::cover(6);
            }
            _ => {
                let max = content() - view();
                nd::assume(max > 0.0);
                let to = match nd::pick(0, 4) {
                    0 => 0.0,
                    1 => max,
                    2 => max / 2.0,
                    3 => 70.0,
                    _ => 330.0,
                };
                nd::assume(to <= max);
                unsafe {
                    nd::assume(to != SCROLL);
                    SCROLL = to;
                }
                scrolled(flags & 4 == 0);
                nd::cover(2);
            }
        }
        if !running {
            continue;
        }
        if flags & 4 != 0 && nd::any_bool() {
            continue;
        }
        drain();
        look(num, &made.borrow(), false);
        // the browser takes note of the new layout
        let mut n = 0;
        loop {
            let before = children(&node(unsafe { ROOT }));
            let (c0, s0) = (content(), unsafe { SCROLL });
            let max = (content() - view()).max(0.0);
            if unsafe { SCROLL > max } {
                unsafe { SCROLL = max }
                scrolled(true);
                nd::cover(3);
            }
            mock::fire_observers();
            drain();
            look(num, &made.borrow(), false);
            if before == children(&node(unsafe { ROOT })) && content() == c0 && s0 == unsafe { SCROLL } {
                break;
            }
            n += 1;
            if n >= 12 {
                // there is nothing to see in a viewport without a size
                nd::check(view() == 0.0, "the list does not come to rest");
                break;
            }
        }
        nd::trace(n);
        look(num, &made.borrow(), true);
    }
    drop(task);
    drain();
    nd::check(children(&body).is_empty(), "the list is left over");
    nd::check(mock::live_listeners() == base, "the scroll listener is left over");
    nd::check(mock::live_observers() == 0, "an observer is left over");
}
fn look(num: usize, made: &[(u32, usize)], rest: bool) {
    let r = node(unsafe { ROOT });
    let ch = children(&r);
    let [sf, sb] = unsafe { SPACERS };
    let shown: Vec<u32> = visible(&r);
    nd::check(
        shown.first() == Some(&sf) && shown.last() == Some(&sb) && ch.first() == Some(&sf) && ch.last() == Some(&sb),
        "the items are not between the spacers",
    );
    let idx: Vec<usize> = shown[1..shown.len() - 1]
        .iter()
        .map(|n| match made.iter().find(|(m, _)| m == n) {
            Some((_, i)) => *i,
            None => nd::fail("an unknown item is shown"),
        })
        .collect();
    nd::check(
        idx.windows(2).all(|w| w[1] == w[0] + 1),
        "the items are not a contiguous range in order",
    );
    if let Some(l) = idx.last() {
        nd::check(*l < num, "an item beyond the number of items is shown");
    }
    nd::trace(idx.len() as u64);
    nd::trace(idx.first().copied().unwrap_or(0) as u64);
    if idx.len() > 3 && idx[0] > 0 {
        nd::cover(4);
    }
    if rest {
        let (f, b) = (layout(sf), layout(sb));
        let (top, bottom) = (10.0, 10.0 + view());
        let eps = 0.001;
        nd::check(
            f.1 <= f.0.max(top) + eps,
            "the visible part is not covered by items but by the spacer before them",
        );
        nd::check(
            b.0 >= b.1.min(bottom) - eps,
            "the visible part is not covered by items but by the spacer after them",
        );
        // all content is accounted for
        if view() > 0.0 && content() <= view() {
            nd::check(idx.len() == num, "items are missing although there is space for all");
            nd::cover(5);
        }
    }
}
