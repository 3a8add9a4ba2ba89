//! x-bow: stores, paths and listeners.
use crate::util::*;
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

#[derive(Trackable, Clone, PartialEq, Default)]
#[track(deep)]
pub struct Root {
    pub a: Inner,
    pub v: Vec<Inner>,
    pub m: HashMap<u32, Inner>,
    pub e: Kind,
    pub o: Option<Inner>,
    pub b: Box<Inner>,
    pub t: (u32, Inner),
    pub g: Gen<u32>,
    pub n: Option<Option<u32>>,
    pub w: Vec<Vec<u32>>,
    pub r: Rc<u32>,
}
#[derive(Trackable, Clone, PartialEq, Default)]
pub struct Inner {
    pub x: u32,
    pub y: u32,
}
#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
pub enum Kind {
    Unit,
    One(u32),
    Two(u32, Inner),
    Named {
        p: u32,
        #[track(skip)]
        #[allow(dead_code)]
        hidden: u32,
        #[track(shallow)]
        q: Inner,
    },
}
impl Default for Kind {
    fn default() -> Self {
        Kind::Unit
    }
}
/// a generic tuple struct; one field is not tracked
#[derive(Trackable, Clone, PartialEq, Default)]
#[track(deep)]
pub struct Gen<T>(pub Box<T>, #[track(skip)] T, pub T);

/// A path with its data type hidden.
pub trait Node {
    fn listen(&self, bubbling: bool) -> Pin<Box<dyn Stream<Item = ()> + '_>>;
    /// mode: 0 borrow_mut, 1 without notifying, 2 notify_changed, 3 borrow, 4 get+set back
    /// Returns whether this counts as a change.
    fn touch(&self, mode: u32) -> bool;
    fn exists(&self) -> bool;
}
impl<P: Path> Node for P
where
    P::Out: Sized + Clone,
{
    fn listen(&self, bubbling: bool) -> Pin<Box<dyn Stream<Item = ()> + '_>> {
        if bubbling {
            Box::pin(self.until_bubbling_change())
        } else {
            Box::pin(self.until_change())
        }
    }
    fn touch(&self, mode: u32) -> bool {
        match mode {
            0 => self.borrow_opt_mut().is_some(),
            1 => {
                self.borrow_opt_mut_without_notifying();
                false
            }
            2 => {
                self.notify_changed();
                true
            }
            3 => {
                self.borrow_opt();
                false
            }
            _ => match self.get_opt() {
                Some(v) => self.set_opt(v).is_ok(),
                None => false,
            },
        }
    }
    fn exists(&self) -> bool {
        self.borrow_opt().is_some()
    }
}
const NODES: u32 = 41;
/// The paths the harnesses know, with their segments.
fn node<'s>(s: &'s Store<Root>, i: u32) -> (&'static [u32], Box<dyn Node + 's>) {
    let p = s.build_path();
    macro_rules! n {
        ($($s:expr),* ; $p:expr) => {{ const S: &[u32] = &[$($s),*]; (S, Box::new($p.into_path())) }};
    }
    match i {
        0 => n!(; p),
        1 => n!(0; p.a()),
        2 => n!(0, 0; p.a().x()),
        3 => n!(0, 1; p.a().y()),
        4 => n!(1; p.v()),
        5 => n!(1, 0; p.v().index(0)),
        6 => n!(1, 1; p.v().index(1)),
        7 => n!(1, 7; p.v().index(7)),
        8 => n!(1, 0, 0; p.v().index(0).x()),
        9 => n!(1, 1, 0; p.v().index(1).x()),
        10 => n!(1, 1, 1; p.v().index(1).y()),
        11 => n!(2; p.m()),
        12 => n!(2, 0; p.m().key(0)),
        13 => n!(2, 5; p.m().key(5)),
        14 => n!(2, 6; p.m().key(6)),
        15 => n!(2, 0, 0; p.m().key(0).x()),
        16 => n!(2, 5, 1; p.m().key(5).y()),
        17 => n!(3; p.e()),
        18 => n!(3, 0; p.e().One_0()),
        19 => n!(3, 1; p.e().Two_0()),
        20 => n!(3, 2; p.e().Two_1()),
        21 => n!(3, 2, 0; p.e().Two_1().x()),
        22 => n!(3, 3; p.e().Named_p()),
        23 => n!(3, 4; p.e().Named_q()),
        24 => n!(4; p.o()),
        25 => n!(4, 0; p.o().Some_0()),
        26 => n!(4, 0, 1; p.o().Some_0().y()),
        27 => n!(5; p.b()),
        28 => n!(5, 0; p.b().content()),
        29 => n!(5, 0, 1; p.b().content().y()),
        30 => n!(6; p.t()),
        31 => n!(6, 0; p.t().t0()),
        32 => n!(6, 1; p.t().t1()),
        33 => n!(6, 1, 0; p.t().t1().x()),
        34 => n!(7; p.g()),
        35 => n!(7, 0; p.g().t2()),
        36 => n!(7, 1, 0; p.g().t0().content()),
        37 => n!(8, 0; p.n().Some_0()),
        38 => n!(8, 0, 0; p.n().Some_0().Some_0()),
        39 => n!(9, 1, 0; p.w().index(1).index(0)),
        _ => n!(10, 0; p.r().content()),
    }
}
/// `e` selects the variant of the enum
fn data(e: u32, val: &mut dyn FnMut() -> u32) -> Root {
    let mut inner = || Inner { x: val(), y: val() };
    let (a, v0, v1, m0, m5, o, b, t1, e2) =
        (inner(), inner(), inner(), inner(), inner(), inner(), inner(), inner(), inner());
    let mut m = HashMap::new();
    m.insert(0, m0);
    m.insert(5, m5);
    Root {
        a,
        v: vec![v0, v1],
        m,
        e: match e {
            0 => Kind::Unit,
            1 => Kind::One(val()),
            2 => Kind::Two(val(), e2),
            _ => Kind::Named { p: val(), hidden: 3, q: e2 },
        },
        o: Some(o),
        b: Box::new(b),
        t: (val(), t1),
        g: Gen(Box::new(val()), 77, val()),
        n: Some(Some(val())),
        w: vec![vec![], vec![val(), val()]],
        r: Rc::new(val()),
    }
}
fn prefix(p: &[u32], q: &[u32]) -> bool {
    p.len() <= q.len() && p == &q[..p.len()]
}

/// Which changes reach which listeners: `n` listeners, `steps` symbolic
/// operations (flags bit 0: only a few paths; bit 3: only plain mutable borrows; bit 2: one waker; bit 1: start
/// with all listeners in place and polled).
pub fn listen(n: u32, steps: u32, flags: u32) {
    const FEW: [u32; 6] = [0, 4, 5, 8, 6, 1];
    let path = |flags: u32| {
        if flags & 1 != 0 {
            FEW[nd::pick(0, 5) as usize]
        } else {
            nd::pick(0, NODES - 1)
        }
    };
    let store = Store::new(data(if flags & 1 != 0 { 2 } else { nd::pick(0, 3) }, &mut || 1));
    // all paths are built up front so that listeners can borrow them
    let nodes: Vec<_> = (0..NODES).map(|i| node(&store, i)).collect();
    struct L<'a> {
        s: Option<Pin<Box<dyn Stream<Item = ()> + 'a>>>,
        segs: &'static [u32],
        bubbling: bool,
        polled: bool,
        // the last poll was pending
        armed: bool,
        changed: bool,
        // a change between the creation and the first poll: may or may not be reported
        early: bool,
        w: usize,
        seen: u32,
    }
    let ([w0, w1], [w2, w3]) = (CountWaker::pair(), CountWaker::pair());
    let wakers = [w0, w1, w2, w3];
    let mut ls: Vec<L> = vec![];
    let make = |ls: &mut Vec<L<'_>>, i: u32, b: bool| {
        let (segs, n) = &nodes[i as usize];
        // safety of lifetimes: `nodes` outlives `ls`
        let n: &'static dyn Node = unsafe { std::mem::transmute(&**n) };
        ls.push(L { s: Some(n.listen(b)), segs, bubbling: b, polled: false, armed: false, changed: false, early: false, w: 0, seen: 0 });
    };
    let poll = |l: &mut L<'_>, w: usize| {
        let mut cx = Context::from_waker(&wakers[w].1);
        let r = l.s.as_mut().unwrap().as_mut().poll_next(&mut cx);
        l.w = w;
        l.seen = wakers[w].count();
        match r {
            Poll::Ready(Some(())) => {
                nd::check(
                    l.changed || l.early,
                    "[C15 C16 C18] a listener fires without a change that concerns it",
                );
                nd::cover(if l.bubbling { 2 } else { 1 });
            }
            Poll::Ready(None) => nd::fail("a change stream ended"),
            Poll::Pending => {
                if l.changed {
                    nd::check(!l.bubbling, "[C16 C18] a change inside is not reported");
                    nd::check(l.bubbling, "[C14 C18] a change is not reported");
                }
            }
        }
        l.polled = true;
        l.armed = r.is_pending();
        l.changed = false;
        l.early = false;
    };
    if flags & 2 != 0 {
        for k in 0..n {
            let b = nd::any_bool();
            make(&mut ls, path(flags), b);
            poll(&mut ls[k as usize], k as usize % 3);
        }
    }
    for _ in 0..steps {
        let alive = ls.iter().filter(|l| l.s.is_some()).count() as u32;
        match nd::pick(0, 3) {
            0 => {
                nd::assume(alive < n);
                let b = nd::any_bool();
                make(&mut ls, path(flags), b);
            }
            1 => {
                nd::assume(alive > 0);
                let i = nd::pick(0, ls.len() as u32 - 1) as usize;
                nd::assume(ls[i].s.is_some());
                let w = if flags & 4 != 0 { 3 } else { i % 3 };
                poll(&mut ls[i], w);
            }
            2 => {
                nd::assume(alive > 0);
                let i = nd::pick(0, ls.len() as u32 - 1) as usize;
                nd::assume(ls[i].s.is_some());
                ls[i].s = None;
                nd::cover(3);
            }
            _ => {
                let i = path(flags);
                let (segs, p) = &nodes[i as usize];
                let before: Vec<u32> = wakers.iter().map(|w| w.count()).collect();
                let changed = p.touch(if flags & 8 != 0 { 0 } else { nd::pick(0, 4) });
                let mut due = [false; 4];
                for l in &mut ls {
                    if l.s.is_none() {
                        continue;
                    }
                    let hit = changed
                        && if l.bubbling { prefix(l.segs, segs) } else { prefix(segs, l.segs) };
                    if hit && l.polled {
                        l.changed = true;
                        due[l.w] = true;
                        let m = !l.armed || wakers[l.w].count() != l.seen;
                        if l.bubbling {
                            nd::check(m, "[C16 C18] changed inside but the listener is not woken");
                        } else {
                            nd::check(m, "[C14 C18] changed but the listener is not woken");
                        }
                    } else if hit {
                        l.early = true;
                    }
                }
                for k in 0..4 {
                    if !due[k] {
                        nd::check(
                            before[k] == wakers[k].count(),
                            "[C15 C16 C18] woken by a change that does not concern it",
                        );
                    } else {
                        nd::cover(4);
                    }
                }
            }
        }
    }
    // in the end everyone hears of a change to the root (regular) or to its own data (bubbling)
    for i in 0..ls.len() {
        if ls[i].s.is_some() {
            let w = i % 3;
            poll(&mut ls[i], w);
        }
    }
    let root = store.build_path();
    *root.borrow_mut() = data(2, &mut || 2);
    for l in &mut ls {
        if l.s.is_some() {
            l.changed = !l.bubbling || l.segs.is_empty();
            let w = l.w;
            poll(l, w);
        }
    }
    for w in &wakers {
        nd::trace(w.count() as u64);
    }
    drop(ls);
}

/// numbers which agree in their low or high parts
const INDICES: [usize; 15] = [
    0, 1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x100_0000, 0x8000_0001,
];
const STRINGS: [&str; 12] = [
    "", "a", "b", "ab", "ba", "aa", "abcdefgh", "abcdefghabcdefgh", "abcdefgi", "é", "e", "abcdefghabcdefgi",
];
#[derive(Trackable, Default)]
#[track(deep)]
pub struct Wide {
    a: u32,
    b: u32,
    c: u32,
    d: u32,
    e: u32,
    f: u32,
    g: u32,
    h: u32,
    i: u32,
    j: u32,
    k: u32,
    l: u32,
    m: u32,
    n: u32,
    o: u32,
    p: u32,
    q: u32,
    r: u32,
}
#[derive(Trackable, Default)]
#[track(deep)]
pub struct Places {
    v: Vec<u32>,
    m: HashMap<u64, u32>,
    s: HashMap<String, u32>,
    w: Wide,
    t: (u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32, u32),
    vm: Vec<HashMap<u32, Vec<u32>>>,
}
/// Two paths under the same parent, or in the same places under different parents:
/// a change at one reaches a listener at the other only if they are the same.
pub fn places(kind: u32) {
    let store = Store::new(Places::default());
    let p = || store.build_path();
    let bubbling = nd::any_bool();
    macro_rules! idx {
        ($n:expr) => {
            nd::pick(0, $n as u32 - 1) as usize
        };
    }
    macro_rules! n {
        ($p:expr) => {
            Box::new($p.into_path())
        };
    }
    let (same, a, b): (bool, Box<dyn Node + '_>, Box<dyn Node + '_>) = match kind {
        0 => {
            let (i, j) = (idx!(INDICES.len()), idx!(INDICES.len()));
            (i == j, n!(p().v().index(INDICES[i])), n!(p().v().index(INDICES[j])))
        }
        1 => {
            let (i, j) = (idx!(INDICES.len()), idx!(INDICES.len()));
            let k = |i: usize| (INDICES[i] as u64) << if i & 1 == 0 { 32 } else { 0 };
            (k(i) == k(j), n!(p().m().key(k(i))), n!(p().m().key(k(j))))
        }
        2 => {
            let (i, j) = (idx!(STRINGS.len()), idx!(STRINGS.len()));
            (i == j, n!(p().s().key(STRINGS[i].into())), n!(p().s().key(STRINGS[j].into())))
        }
        3 => {
            // an index in a vector in a map in a vector
            const N: [usize; 4] = [0, 1, 256, 0x1_0000];
            let (a, b, c) = (idx!(4), idx!(4), idx!(4));
            let (d, e, f) = (idx!(4), idx!(4), idx!(4));
            (
                (a, b, c) == (d, e, f),
                n!(p().vm().index(N[a]).key(N[b] as u32).index(N[c])),
                n!(p().vm().index(N[d]).key(N[e] as u32).index(N[f])),
            )
        }
        _ => {
            // fields of a wide struct and of a wide tuple
            let store = &store;
            let field = move |i: usize| -> Box<dyn Node + '_> {
                let w = move || store.build_path().w();
                let t = move || store.build_path().t();
                match i {
                    0 => n!(w().a()),
                    1 => n!(w().b()),
                    2 => n!(w().c()),
                    3 => n!(w().d()),
                    4 => n!(w().e()),
                    5 => n!(w().f()),
                    6 => n!(w().g()),
                    7 => n!(w().h()),
                    8 => n!(w().i()),
                    9 => n!(w().j()),
                    10 => n!(w().k()),
                    11 => n!(w().l()),
                    12 => n!(w().m()),
                    13 => n!(w().n()),
                    14 => n!(w().o()),
                    15 => n!(w().p()),
                    16 => n!(w().q()),
                    17 => n!(w().r()),
                    18 => n!(t().t0()),
                    19 => n!(t().t1()),
                    20 => n!(t().t2()),
                    21 => n!(t().t3()),
                    22 => n!(t().t4()),
                    23 => n!(t().t5()),
                    24 => n!(t().t6()),
                    25 => n!(t().t7()),
                    26 => n!(t().t8()),
                    27 => n!(t().t9()),
                    28 => n!(t().t10()),
                    _ => n!(t().t11()),
                }
            };
            let (i, j) = (idx!(30), idx!(30));
            (i == j, field(i), field(j))
        }
    };
    let count = CountWaker::new();
    let mut cx = Context::from_waker(&count.1);
    let mut s = a.listen(bubbling);
    nd::check(s.as_mut().poll_next(&mut cx).is_pending(), "a change is reported before any");
    nd::check(s.as_mut().poll_next(&mut cx).is_pending(), "a change is reported before any");
    b.touch(2);
    nd::cover(if same { 2 } else { 1 });
    let woken = count.count() > 0;
    let ready = s.as_mut().poll_next(&mut cx).is_ready();
    if !same {
        nd::check(!woken, "[C15 C16 C18] woken by a change elsewhere");
        nd::check(!ready, "[C15 C16 C18] a change elsewhere is reported");
    } else if bubbling {
        nd::check(woken && ready, "[C16 C18] a change at the place is not reported");
    } else {
        nd::check(woken && ready, "[C14 C18] a change at the place is not reported");
    }
}

#[derive(Trackable, Default, Clone)]
#[track(deep)]
pub struct Chain {
    next: Vec<Chain>,
}
/// A path of `n` steps (two segments each) from the root, and another of up to `n` that
/// leaves it after some steps, or never.
pub fn deep(n: u32) {
    type P<'s> = Rc<dyn Path<Out = Chain> + 's>;
    fn extend(p: P<'_>, index: usize) -> P<'_> {
        Rc::new(p.build_path().next().index(index).into_path())
    }
    let at = || {
        if n <= 10 {
            nd::pick(0, n)
        } else {
            [0, 1, 2, n / 2, n - 1, n][nd::pick(0, 5) as usize]
        }
    };
    let store = Store::new(Chain::default());
    let bubbling = nd::any_bool();
    let (i, j, m) = (at(), at(), at());
    nd::assume(m <= j);
    let root: P = Rc::new(store.build_path().into_path());
    let listened = (0..i).fold(root.clone(), |p, _| extend(p, 0));
    let changed = (0..j).fold(root, |p, k| extend(p, (k == m) as usize));
    let count = CountWaker::new();
    let mut cx = Context::from_waker(&count.1);
    let mut s = Node::listen(&listened, bubbling);
    nd::check(s.as_mut().poll_next(&mut cx).is_pending(), "a change is reported before any");
    Node::touch(&changed, 2);
    // how far the two go together
    let shared = i.min(j).min(m);
    let hears = shared == if bubbling { i } else { j };
    nd::cover(if hears { 2 } else { 1 });
    let woken = count.count() > 0;
    let ready = s.as_mut().poll_next(&mut cx).is_ready();
    if !hears {
        nd::check(!woken && !ready, "[C15 C16 C18] a change elsewhere reaches a listener");
    } else if bubbling {
        nd::check(woken && ready, "[C16 C18] a change to a part is not reported");
    } else {
        nd::check(woken && ready, "[C14 C18] a change to what contains the data is not reported");
    }
}

/// `kind` 0: up to `max` changes between two polls of a listener, 1: each followed by a poll,
/// 2: `max` elements with a listener each, some dropped, and one of the whole; one change,
/// 3: up to `max` listeners one after another
pub fn wide(kind: u32, max: u32) {
    let n = if kind == 2 { max } else { 2 };
    let store = Store::new(Chain { next: vec![Chain::default(); n as usize] });
    let path = |i: u32| store.build_path().next().index(i as usize).into_path();
    let whole = store.build_path().next().into_path();
    let w = CountWaker::new();
    let mut cx = Context::from_waker(&w.1);
    nd::cover(1);
    if kind < 2 {
        let (p, q) = (path(1), path(0));
        let bubbling = nd::any_bool();
        let mut s = if bubbling { Node::listen(&whole, true) } else { Node::listen(&p, false) };
        nd::check(s.as_mut().poll_next(&mut cx).is_pending(), "a change is reported before any");
        let total = nd::fresh(0, max);
        let mut i = 0;
        while i < total {
            i += 1;
            let c = w.count();
            if i % 3 == 0 && !bubbling {
                Node::touch(&q, 2);
                nd::check(w.count() == c, "[C15 C16 C18] woken by a change elsewhere");
            }
            Node::touch(&p, 2);
            if kind == 1 {
                nd::check(w.count() != c, "[C14 C16 C18] a change is not reported");
                nd::check(s.as_mut().poll_next(&mut cx).is_ready(), "[C14 C16 C18] a change is not reported");
                nd::check(s.as_mut().poll_next(&mut cx).is_pending(), "[C15 C16 C18] a change is reported twice");
            }
        }
        if kind == 0 {
            nd::check((w.count() > 0) == (i > 0), "[C14 C16 C18] changes are not reported");
            nd::check(s.as_mut().poll_next(&mut cx).is_ready() == (i > 0), "[C14 C16 C18] changes are not reported");
        }
    } else if kind == 2 {
        use crate::scale::at;
        let paths: Vec<_> = (0..n).map(path).collect();
        let ws: Vec<_> = (0..n).map(|_| CountWaker::new()).collect();
        let mut ls: Vec<_> = (0..n as usize)
            .map(|i| {
                let mut s = Node::listen(&paths[i], false);
                let r = s.as_mut().poll_next(&mut Context::from_waker(&ws[i].1));
                nd::check(r.is_pending(), "a change is reported before any");
                Some(s)
            })
            .collect();
        let mut all = Node::listen(&whole, true);
        nd::check(all.as_mut().poll_next(&mut cx).is_pending(), "a change is reported before any");
        let (a, b) = (at(n), at(n));
        for i in a..b {
            ls[i as usize] = None;
        }
        let again = nd::any_bool();
        if again {
            let mut s = Node::listen(&paths[a as usize], false);
            let r = s.as_mut().poll_next(&mut Context::from_waker(&ws[a as usize].1));
            nd::check(r.is_pending(), "a change is reported before any");
            ls[a as usize] = Some(s);
        }
        let one = nd::any_bool();
        let c = at(n);
        if one {
            Node::touch(&paths[c as usize], 2);
        } else {
            Node::touch(&whole, 2);
        }
        for (i, s) in ls.iter_mut().enumerate() {
            let Some(s) = s else {
                continue;
            };
            let woken = ws[i].count() > 0;
            let ready = s.as_mut().poll_next(&mut cx).is_ready();
            if !one || i as u32 == c {
                nd::check(woken && ready, "[C14 C18] a change is not reported");
            } else {
                nd::check(!woken && !ready, "[C15 C18] a change elsewhere is reported");
            }
        }
        nd::check(w.count() > 0 && all.as_mut().poll_next(&mut cx).is_ready(), "[C16 C18] a change is not reported");
        nd::cover(2 + one as u32);
    } else {
        let total = nd::fresh(0, max);
        let mut i = 0;
        let p = path(0);
        while i < total {
            i += 1;
            let mut s = Node::listen(&p, i % 4 == 0);
            nd::check(s.as_mut().poll_next(&mut cx).is_pending(), "a change is reported before any");
            let c = w.count();
            Node::touch(&p, 2);
            nd::check(w.count() != c, "[C14 C16 C18] a change is not reported");
            if i % 2 == 0 {
                nd::check(s.as_mut().poll_next(&mut cx).is_ready(), "[C14 C16 C18] a change is not reported");
            }
        }
    }
}

/// Reads and writes through paths reach exactly the data they name.
/// `wrap`: 0 as built, 1 as_ref_path, 2 boxed, 3 in an Rc, 4 rebuilt with build_path
pub fn project(steps: u32) {
    let mut vals = vec![];
    let kind = nd::pick(0, 3);
    let root = data(kind, &mut || {
        let v = nd::fresh(0, 0xffff_ffff);
        vals.push(v);
        v
    });
    let mut model = root.clone();
    model.r = Rc::new(*root.r); // a count of its own
    let store = Store::new(root);
    for _ in 0..steps {
        step(&store, &mut model);
    }
    nd::check(*store.build_path().borrow() == model, "the store differs from the model in the end");
}
/// What path `i` names, in plain Rust.
fn direct(r: &mut Root, i: u32) -> Option<&mut u32> {
    Some(match i {
        0 => &mut r.a.x,
        1 => &mut r.a.y,
        2 => &mut r.v.get_mut(0)?.x,
        3 => &mut r.v.get_mut(1)?.y,
        4 => &mut r.v.get_mut(2)?.y,
        5 => &mut r.m.get_mut(&0)?.x,
        6 => &mut r.m.get_mut(&5)?.y,
        7 => &mut r.m.get_mut(&6)?.y,
        8 => match &mut r.e {
            Kind::One(x) => x,
            _ => return None,
        },
        9 => match &mut r.e {
            Kind::Two(x, _) => x,
            _ => return None,
        },
        10 => match &mut r.e {
            Kind::Two(_, i) => &mut i.y,
            _ => return None,
        },
        11 => match &mut r.e {
            Kind::Named { p, .. } => p,
            _ => return None,
        },
        12 => &mut r.o.as_mut()?.x,
        13 => &mut r.b.y,
        14 => &mut r.t.0,
        15 => &mut r.t.1.x,
        16 => &mut r.g.2,
        17 => &mut r.g.0,
        18 => r.n.as_mut()?.as_mut()?,
        19 => r.w.get_mut(1)?.get_mut(0)?,
        20 => r.w.get_mut(1)?.get_mut(1)?,
        21 => r.w.get_mut(0)?.get_mut(0)?,
        _ => Rc::get_mut(&mut r.r)?,
    })
}
const LEAVES: u32 = 23;
fn step(s: &Store<Root>, model: &mut Root) {
    let p = s.build_path();
    if nd::pick(0, 1) == 1 {
        // changes of shape
        match nd::pick(0, 8) {
            0 => {
                let v = nd::fresh(0, 9);
                p.e().set(Kind::One(v));
                model.e = Kind::One(v);
            }
            1 => {
                p.o().set(None);
                model.o = None;
            }
            2 => {
                let l = p.v().borrow_mut().pop();
                nd::check(l == model.v.pop(), "popped something else");
            }
            3 => {
                let v = Inner { x: nd::fresh(0, 9), y: 3 };
                p.m().borrow_mut().insert(6, v.clone());
                model.m.insert(6, v);
            }
            4 => {
                p.m().borrow_mut().remove(&0);
                model.m.remove(&0);
            }
            5 => {
                p.n().set(Some(None));
                model.n = Some(None);
            }
            6 => {
                // set_opt of a whole sub-structure
                let v = Inner { x: nd::fresh(0, 9), y: 4 };
                let r = p.v().index(1).set_opt(v.clone());
                match model.v.get_mut(1) {
                    Some(d) => {
                        *d = v;
                        nd::check(r.is_ok(), "the data is there but cannot be set");
                    }
                    None => nd::check(r == Err(v), "the value comes back if it cannot be set"),
                }
            }
            7 => {
                let q = p.e().Named_q();
                let v = Inner { x: 5, y: nd::fresh(0, 9) };
                let g = q.borrow_opt_mut();
                match (&mut model.e, g) {
                    (Kind::Named { q, .. }, Some(mut g)) => {
                        nd::check(*g == *q, "named field");
                        *g = v.clone();
                        *q = v;
                    }
                    (Kind::Named { .. }, None) => nd::fail("the data is there but cannot be borrowed"),
                    (_, Some(_)) => nd::fail("the data is not there but can be borrowed"),
                    _ => nd::cover(3),
                };
            }
            _ => {
                let c = p.a().get();
                nd::check(c == model.a, "get of a structure");
                p.t().t1().set(c.clone());
                model.t.1 = c;
            }
        }
        return;
    }
    let i = nd::pick(0, LEAVES - 1);
    let wrap = nd::pick(0, 4);
    macro_rules! w {
        ($p:expr) => {{
            let path = $p;
            match wrap {
                0 => leaf(&*path, i, model),
                1 => leaf(&*path.as_ref_path(), i, model),
                2 => {
                    let b: Box<dyn Path<Out = u32> + '_> = Box::new(path.into_path());
                    leaf(&b, i, model)
                }
                3 => {
                    let b: Rc<dyn Path<Out = u32> + '_> = Rc::new(path.into_path());
                    leaf(&b.clone(), i, model)
                }
                _ => leaf(&*path.into_path().build_path(), i, model),
            }
        }};
    }
    match i {
        0 => w!(p.a().x()),
        1 => w!(p.a().y()),
        2 => w!(p.v().index(0).x()),
        3 => w!(p.v().index(1).y()),
        4 => w!(p.v().index(2).y()),
        5 => w!(p.m().key(0).x()),
        6 => w!(p.m().key(5).y()),
        7 => w!(p.m().key(6).y()),
        8 => w!(p.e().One_0()),
        9 => w!(p.e().Two_0()),
        10 => w!(p.e().Two_1().y()),
        11 => w!(p.e().Named_p()),
        12 => w!(p.o().Some_0().x()),
        13 => w!(p.b().content().y()),
        14 => w!(p.t().t0()),
        15 => w!(p.t().t1().x()),
        16 => w!(p.g().t2()),
        17 => w!(p.g().t0().content()),
        18 => w!(p.n().Some_0().Some_0()),
        19 => w!(p.w().index(1).index(0)),
        20 => w!(p.w().index(1).index(1)),
        21 => w!(p.w().index(0).index(0)),
        _ => w!(p.r().content()),
    }
}
fn leaf<P: Path<Out = u32> + ?Sized>(path: &P, i: u32, model: &mut Root) {
    let want = direct(model, i).map(|x| *x);
    nd::check(path.get_opt() == want, "a path reads something else than what it names");
    nd::check(path.borrow_opt().as_deref().copied() == want, "borrow_opt");
    match nd::pick(0, 3) {
        0 => {
            let v = nd::fresh(0, 0xffff);
            match path.set_opt(v) {
                Ok(()) => {
                    nd::check(want.is_some(), "set although the data is not there");
                    *direct(model, i).unwrap() = v;
                    nd::cover(1);
                }
                Err(e) => {
                    nd::check(want.is_none() && e == v, "not set although the data is there");
                    nd::cover(2);
                }
            }
        }
        1 => match path.borrow_opt_mut() {
            Some(mut g) => {
                nd::check(want == Some(*g), "borrow_opt_mut gives something else");
                *g = g.wrapping_add(1);
                nd::check(path_value(&*g) == want.unwrap().wrapping_add(1), "the guard writes elsewhere");
                *direct(model, i).unwrap() = want.unwrap().wrapping_add(1);
            }
            None => nd::check(want.is_none(), "the data is there but cannot be borrowed"),
        },
        2 => match path.borrow_opt_mut_without_notifying() {
            Some(mut g) => {
                nd::check(want == Some(*g), "borrow_opt_mut_without_notifying gives something else");
                *g ^= 0x8000;
                *direct(model, i).unwrap() = want.unwrap() ^ 0x8000;
            }
            None => nd::check(want.is_none(), "the data is there but cannot be borrowed"),
        },
        _ => {}
    }
    nd::check(path.get_opt() == direct(model, i).map(|x| *x), "reads back something else");
}
fn path_value(x: &u32) -> u32 {
    *x
}

/// A stream fed by the harness.
#[derive(Clone, Default)]
struct Feed(Rc<FeedIn>);
#[derive(Default)]
struct FeedIn {
    q: RefCell<VecDeque<u32>>,
    end: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}
impl Stream for Feed {
    type Item = u32;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        let i = &self.0;
        if let Some(v) = i.q.borrow_mut().pop_front() {
            return Poll::Ready(Some(v));
        }
        if i.end.get() {
            return Poll::Ready(None);
        }
        *i.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Feed {
    fn wake(&self) {
        if let Some(w) = self.0.waker.borrow_mut().take() {
            w.wake()
        }
    }
}

#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
struct Small {
    v: Vec<u32>,
    other: u32,
}
/// for_each (0), for_each_async (1), bind_for_each (2) and signal_stream (3; 4
/// without firing immediately) on an element of a vector.
pub fn follow(kind: u32, steps: u32) {
    let v0 = nd::fresh(0, 0xffff);
    let store = Store::new(Small { v: vec![v0], other: 0 });
    let path = store.build_path().v().index(0);
    let path = &*path;
    let calls = RefCell::new(vec![]);
    let running: RefCell<Vec<(u32, Gate, Rc<Cell<u32>>)>> = RefCell::new(vec![]);
    let feed = Feed::default();
    let w = CountWaker::new();
    let mut cx = Context::from_waker(&w.1);
    let mut fut: Pin<Box<dyn Future<Output = ()> + '_>> = match kind {
        0 => Box::pin(path.for_each(|x| calls.borrow_mut().push(*x))),
        1 => Box::pin(path.for_each_async(|x| {
            let x = *x;
            let (g, d) = (Gate::new(), Rc::new(Cell::new(0)));
            running.borrow_mut().push((x, g.clone(), d.clone()));
            let d = DropCount(d);
            let calls = &calls;
            async move {
                let _d = d;
                calls.borrow_mut().push(x);
                g.wait().await;
                calls.borrow_mut().push(x + 0x10000);
            }
        })),
        2 => Box::pin(path.bind_for_each(|x| calls.borrow_mut().push(*x), feed.clone())),
        _ => {
            let mut s = Box::pin(path.signal_stream(kind == 3));
            let calls = &calls;
            Box::pin(std::future::poll_fn(move |cx| loop {
                match s.as_mut().poll_next(cx) {
                    Poll::Ready(Some(r)) => calls.borrow_mut().push(*r),
                    Poll::Ready(None) => return Poll::Ready(()),
                    Poll::Pending => return Poll::Pending,
                }
            }))
        }
    };
    let mut polled = false;
    let mut early = false; // changed before the first poll
    let mut dirty = false; // changed since the last poll (by someone else)
    let mut model = Small { v: vec![v0], other: 0 };
    let mut fed: VecDeque<u32> = VecDeque::new();
    let mut ended = false;
    let mut done = false;
    let mut seen = 0;
    let mut last_done = false;
    for _ in 0..steps {
        let op = nd::pick(0, if kind == 1 { 5 } else if kind == 2 { 6 } else { 4 });
        let mut change = false;
        match op {
            0 => {
                let v = nd::fresh(0, 0xffff);
                let r = store.build_path().v().index(0).set_opt(v);
                match model.v.get_mut(0) {
                    Some(d) => {
                        *d = v;
                        change = true;
                        nd::check(r.is_ok(), "not set");
                    }
                    None => nd::check(r.is_err(), "set"),
                }
            }
            1 => {
                let v = if nd::any_bool() { vec![] } else { vec![nd::fresh(0, 0xffff)] };
                store.build_path().v().set(v.clone());
                model.v = v;
                change = true;
            }
            2 => {
                let before = w.count();
                store.build_path().other().set(9);
                model.other = 9;
                store.build_path().v().index(1).notify_changed();
                nd::check(w.count() == before, "woken by another change");
            }
            3 | 4 => {
                if op == 4 {
                    // only when woken, as an executor would
                    nd::assume(polled && w.count() != seen);
                }
                nd::assume(!done);
                let n0 = calls.borrow().len();
                seen = w.count();
                let nr = running.borrow().len();
                let r = fut.as_mut().poll(&mut cx);
                let first = !polled;
                polled = true;
                let new: Vec<u32> = calls.borrow()[n0..].to_vec();
                let cur = model.v.first().copied();
                match kind {
                    0 => {
                        nd::check(r.is_pending(), "for_each never finishes");
                        let want = (first || dirty) && cur.is_some();
                        nd::check(
                            new == if want { vec![cur.unwrap()] } else { vec![] } || (first && early),
                            "for_each: called with the current data after every change",
                        );
                        if want && !first {
                            nd::cover(1);
                        }
                    }
                    1 => {
                        nd::check(r.is_pending(), "for_each_async never finishes");
                        let want = (first || dirty) && cur.is_some();
                        nd::check(
                            running.borrow().len() == nr + want as usize,
                            "for_each_async: one new call after every change",
                        );
                        let run = running.borrow();
                        let mut exp = vec![];
                        if want {
                            last_done = false;
                            nd::check(Some(run[nr].0) == cur, "called with the current data");
                            exp.push(run[nr].0);
                        }
                        if let Some((x, g, d)) = run.last() {
                            if g.is_open() && !last_done {
                                exp.push(*x + 0x10000);
                                last_done = true;
                                nd::cover(2);
                            }
                            nd::check(d.get() == last_done as u32, "a run is kept until it finishes");
                            for (_, _, d) in &run[..run.len() - 1] {
                                nd::check(d.get() == 1, "the previous run is dropped when a new one starts");
                                nd::cover(1);
                            }
                        }
                        nd::check(new == exp, "for_each_async runs the futures it is given");
                    }
                    2 => {
                        // incoming values reach the data; on_change is not called for them
                        let incoming = fed.back().copied();
                        fed.clear();
                        if let (Some(v), Some(d)) = (incoming, model.v.get_mut(0)) {
                            *d = v;
                            nd::cover(2);
                        }
                        let cur = model.v.first().copied();
                        nd::check(
                            store.build_path().v().get() == model.v,
                            "bind_for_each: the data is the last incoming value",
                        );
                        if ended {
                            nd::check(r.is_ready(), "bind_for_each finishes with the incoming stream");
                            done = true;
                        } else if incoming.is_some() && cur.is_none() {
                            // nowhere to put the value: finishing is allowed
                            if r.is_ready() {
                                done = true;
                            }
                        } else {
                            nd::check(r.is_pending(), "bind_for_each finishes early");
                            let must = cur.is_some() && (first || (dirty && incoming.is_none()));
                            let may = cur.is_some() && (first || dirty);
                            nd::check(
                                (!must || new == vec![cur.unwrap()]) && (may || new.is_empty()),
                                "bind_for_each: on_change is called in the beginning and after others' changes",
                            );
                            if must && !first {
                                nd::cover(1);
                            }
                        }
                    }
                    _ => {
                        let fire = (first && kind == 3) || dirty;
                        if fire && cur.is_none() {
                            nd::check(r.is_ready() && new.is_empty(), "signal_stream ends when the data is gone");
                            done = true;
                            nd::cover(2);
                        } else if first && early {
                        } else {
                            nd::check(r.is_pending(), "signal_stream ends while the data is there");
                            nd::check(
                                new == if fire { vec![cur.unwrap()] } else { vec![] },
                                "signal_stream yields the data after every change",
                            );
                            if fire && !first {
                                nd::cover(1);
                            }
                        }
                        if r.is_ready() {
                            done = true;
                        }
                    }
                }
                dirty = false;
            }
            5 if kind == 1 => {
                let run = running.borrow();
                nd::assume(!run.is_empty());
                let (_, g, _) = run.last().unwrap();
                nd::assume(!g.is_open());
                g.open();
                nd::check(last_done || w.count() != seen, "the running future's wake-up is lost");
            }
            5 => {
                nd::assume(!ended && !done);
                let v = nd::fresh(0, 0xffff);
                fed.push_back(v);
                feed.0.q.borrow_mut().push_back(v);
                feed.wake();
                nd::check(!polled || w.count() != seen, "the incoming stream's wake-up is lost");
            }
            _ => {
                nd::assume(!ended);
                ended = true;
                feed.0.end.set(true);
                feed.wake();
                nd::cover(3);
            }
        }
        if change {
            if polled {
                dirty = true;
                nd::check(done || w.count() != seen, "changed but not woken");
            } else {
                early = true;
            }
        }
    }
    drop(fut);
    for (_, _, d) in running.borrow().iter() {
        nd::check(d.get() == 1, "a run is dropped exactly once");
    }
    trace_all(&calls.borrow());
    nd::trace(w.count() as u64);
}
