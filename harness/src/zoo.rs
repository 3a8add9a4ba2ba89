//! The forms of types that paths can be derived for.
use crate::util::*;
use futures_core::Stream;
use std::collections::HashMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Context;
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
#[allow(dead_code)]
pub enum Zoo {
    Pair(u32, u32, u32),
    /// what is not tracked does not count for the others' place
    Hid(#[track(skip)] u32, u32, #[track(skip)] u32, u32),
    Left { x: u32, y: u32 },
    Right { y: u32, x: u32 },
    Unit,
    Sub(Pt, #[track(shallow)] u32, Either<u32, Pt>),
    Named {
        #[track(skip)]
        a: u32,
        b: u32,
        #[track(skip)]
        c: u32,
        d: u32,
    },
}
/// shallow unless it says otherwise
#[derive(Trackable, Clone, PartialEq)]
pub struct Pt {
    pub u: u32,
    #[track(skip)]
    pub hidden: u32,
    pub w: u32,
    #[track(deep)]
    pub v: (u32, u32),
}
#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
pub enum Either<L, R> {
    L(L),
    R(R),
}
#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
pub struct Cage<T>
where
    T: Clone,
{
    pub first: T,
    pub more: Vec<T>,
    pub last: Option<Box<T>>,
    pub both: Rc<Either<T, (T, T)>>,
}
#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
pub struct Tup(u32, #[track(skip)] u32, pub u32, #[track(shallow)] pub u32, #[track(skip)] u32, u32);
type U = u32;
#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
pub struct Den {
    pub z: Zoo,
    pub pt: Pt,
    pub cage: Cage<u32>,
    pub nest: Cage<Pt>,
    pub tup: Tup,
    pub map: HashMap<u32, u32>,
    pub text: Option<Box<u32>>,
    pub t1: (U,),
    pub t2: (U, U),
    pub t3: (U, U, U),
    pub t4: (U, U, U, U),
    pub t5: (U, U, U, U, U),
    pub t6: (U, U, U, U, U, U),
    pub t7: (U, U, U, U, U, U, U),
    pub t8: (U, U, U, U, U, U, U, U),
    pub t9: (U, U, U, U, U, U, U, U, U),
    pub t10: (U, U, U, U, U, U, U, U, U, U),
    pub t11: (U, U, U, U, U, U, U, U, U, U, U),
    pub t12: (U, U, U, U, U, U, U, U, U, U, U, U),
}
/// each path with what it names in plain Rust
macro_rules! rows {
    ($p:ident $d:ident : $($path:expr => $direct:expr;)*) => {
        type Dy<'s> = Box<dyn Path<Out = u32> + 's>;
        fn path<'s>(s: &'s Store<Den>, i: u32) -> Dy<'s> {
            let fs: &[fn(&'s Store<Den>) -> Dy<'s>] = &[$(|s| { let $p = s.build_path(); Box::new($path.into_path()) }),*];
            fs[i as usize](s)
        }
        fn direct(d: &mut Den, i: u32) -> Option<&mut u32> {
            let fs: &[fn(&mut Den) -> Option<&mut u32>] = &[$(|$d| $direct),*];
            fs[i as usize](d)
        }
        const ROWS: u32 = [$(stringify!($path)),*].len() as u32;
    };
}
macro_rules! if_let {
    ($p:pat = $e:expr => $v:expr) => {
        match $e {
            $p => Some($v),
            _ => None,
        }
    };
}
rows! { p d:
    p.z().Pair_0() => if_let!(Zoo::Pair(a, _, _) = &mut d.z => a);
    p.z().Pair_1() => if_let!(Zoo::Pair(_, a, _) = &mut d.z => a);
    p.z().Pair_2() => if_let!(Zoo::Pair(_, _, a) = &mut d.z => a);
    p.z().Hid_1() => if_let!(Zoo::Hid(_, a, _, _) = &mut d.z => a);
    p.z().Hid_3() => if_let!(Zoo::Hid(_, _, _, a) = &mut d.z => a);
    p.z().Left_x() => if_let!(Zoo::Left { x, .. } = &mut d.z => x);
    p.z().Left_y() => if_let!(Zoo::Left { y, .. } = &mut d.z => y);
    p.z().Right_x() => if_let!(Zoo::Right { x, .. } = &mut d.z => x);
    p.z().Right_y() => if_let!(Zoo::Right { y, .. } = &mut d.z => y);
    p.z().Sub_0().u() => if_let!(Zoo::Sub(a, ..) = &mut d.z => &mut a.u);
    p.z().Sub_0().v().t1() => if_let!(Zoo::Sub(a, ..) = &mut d.z => &mut a.v.1);
    p.z().Sub_1() => if_let!(Zoo::Sub(_, a, _) = &mut d.z => a);
    p.z().Sub_2().L_0() => if_let!(Zoo::Sub(_, _, Either::L(a)) = &mut d.z => a);
    p.z().Sub_2().R_0().w() => if_let!(Zoo::Sub(_, _, Either::R(a)) = &mut d.z => &mut a.w);
    p.z().Named_b() => if_let!(Zoo::Named { b, .. } = &mut d.z => b);
    p.z().Named_d() => if_let!(Zoo::Named { d, .. } = &mut d.z => d);
    // 16
    p.pt().u() => Some(&mut d.pt.u);
    p.pt().w() => Some(&mut d.pt.w);
    p.pt().v().t0() => Some(&mut d.pt.v.0);
    p.pt().v().t1() => Some(&mut d.pt.v.1);
    p.cage().first() => Some(&mut d.cage.first);
    p.cage().more().index(0) => d.cage.more.get_mut(0);
    p.cage().more().index_shallow(1) => d.cage.more.get_mut(1);
    p.cage().more().index(2) => d.cage.more.get_mut(2);
    p.cage().last().Some_0().content() => d.cage.last.as_mut().map(|b| &mut **b);
    p.cage().both().content().L_0() => if_let!(Either::L(a) = Rc::get_mut(&mut d.cage.both)? => a);
    p.cage().both().content().R_0().t1() => if_let!(Either::R(a) = Rc::get_mut(&mut d.cage.both)? => &mut a.1);
    p.nest().first().w() => Some(&mut d.nest.first.w);
    p.nest().first().v().t0() => Some(&mut d.nest.first.v.0);
    p.nest().more().index(1).u() => d.nest.more.get_mut(1).map(|p| &mut p.u);
    p.nest().last().Some_0().content().w() => d.nest.last.as_mut().map(|b| &mut b.w);
    p.nest().both().content().R_0().t0().u() => if_let!(Either::R(a) = Rc::get_mut(&mut d.nest.both)? => &mut a.0.u);
    p.nest().both().content().R_0().t1().u() => if_let!(Either::R(a) = Rc::get_mut(&mut d.nest.both)? => &mut a.1.u);
    p.tup().t0() => Some(&mut d.tup.0);
    p.tup().t2() => Some(&mut d.tup.2);
    p.tup().t3() => Some(&mut d.tup.3);
    p.tup().t5() => Some(&mut d.tup.5);
    p.cage().more().index(1) => d.cage.more.get_mut(1);
    p.cage().last().Some_0().content_shallow() => d.cage.last.as_mut().map(|b| &mut **b);
    p.map().key(7) => d.map.get_mut(&7);
    p.map().key_shallow(7) => d.map.get_mut(&7);
    p.map().key(8) => d.map.get_mut(&8);
    p.text().Some_0().content() => d.text.as_mut().map(|b| &mut **b);
    // 43
    p.t1().t0() => Some(&mut d.t1.0);
    p.t2().t0() => Some(&mut d.t2.0);
    p.t2().t1() => Some(&mut d.t2.1);
    p.t3().t0() => Some(&mut d.t3.0);
    p.t3().t1() => Some(&mut d.t3.1);
    p.t3().t2() => Some(&mut d.t3.2);
    p.t4().t0() => Some(&mut d.t4.0);
    p.t4().t1() => Some(&mut d.t4.1);
    p.t4().t2() => Some(&mut d.t4.2);
    p.t4().t3() => Some(&mut d.t4.3);
    p.t5().t0() => Some(&mut d.t5.0);
    p.t5().t1() => Some(&mut d.t5.1);
    p.t5().t2() => Some(&mut d.t5.2);
    p.t5().t3() => Some(&mut d.t5.3);
    p.t5().t4() => Some(&mut d.t5.4);
    p.t6().t0() => Some(&mut d.t6.0);
    p.t6().t1() => Some(&mut d.t6.1);
    p.t6().t2() => Some(&mut d.t6.2);
    p.t6().t3() => Some(&mut d.t6.3);
    p.t6().t4() => Some(&mut d.t6.4);
    p.t6().t5() => Some(&mut d.t6.5);
    p.t7().t0() => Some(&mut d.t7.0);
    p.t7().t1() => Some(&mut d.t7.1);
    p.t7().t2() => Some(&mut d.t7.2);
    p.t7().t3() => Some(&mut d.t7.3);
    p.t7().t4() => Some(&mut d.t7.4);
    p.t7().t5() => Some(&mut d.t7.5);
    p.t7().t6() => Some(&mut d.t7.6);
    p.t8().t0() => Some(&mut d.t8.0);
    p.t8().t1() => Some(&mut d.t8.1);
    p.t8().t2() => Some(&mut d.t8.2);
    p.t8().t3() => Some(&mut d.t8.3);
    p.t8().t4() => Some(&mut d.t8.4);
    p.t8().t5() => Some(&mut d.t8.5);
    p.t8().t6() => Some(&mut d.t8.6);
    p.t8().t7() => Some(&mut d.t8.7);
    p.t9().t0() => Some(&mut d.t9.0);
    p.t9().t1() => Some(&mut d.t9.1);
    p.t9().t2() => Some(&mut d.t9.2);
    p.t9().t3() => Some(&mut d.t9.3);
    p.t9().t4() => Some(&mut d.t9.4);
    p.t9().t5() => Some(&mut d.t9.5);
    p.t9().t6() => Some(&mut d.t9.6);
    p.t9().t7() => Some(&mut d.t9.7);
    p.t9().t8() => Some(&mut d.t9.8);
    p.t10().t0() => Some(&mut d.t10.0);
    p.t10().t1() => Some(&mut d.t10.1);
    p.t10().t2() => Some(&mut d.t10.2);
    p.t10().t3() => Some(&mut d.t10.3);
    p.t10().t4() => Some(&mut d.t10.4);
    p.t10().t5() => Some(&mut d.t10.5);
    p.t10().t6() => Some(&mut d.t10.6);
    p.t10().t7() => Some(&mut d.t10.7);
    p.t10().t8() => Some(&mut d.t10.8);
    p.t10().t9() => Some(&mut d.t10.9);
    p.t11().t0() => Some(&mut d.t11.0);
    p.t11().t1() => Some(&mut d.t11.1);
    p.t11().t2() => Some(&mut d.t11.2);
    p.t11().t3() => Some(&mut d.t11.3);
    p.t11().t4() => Some(&mut d.t11.4);
    p.t11().t5() => Some(&mut d.t11.5);
    p.t11().t6() => Some(&mut d.t11.6);
    p.t11().t7() => Some(&mut d.t11.7);
    p.t11().t8() => Some(&mut d.t11.8);
    p.t11().t9() => Some(&mut d.t11.9);
    p.t11().t10() => Some(&mut d.t11.10);
    p.t12().t0() => Some(&mut d.t12.0);
    p.t12().t1() => Some(&mut d.t12.1);
    p.t12().t2() => Some(&mut d.t12.2);
    p.t12().t3() => Some(&mut d.t12.3);
    p.t12().t4() => Some(&mut d.t12.4);
    p.t12().t5() => Some(&mut d.t12.5);
    p.t12().t6() => Some(&mut d.t12.6);
    p.t12().t7() => Some(&mut d.t12.7);
    p.t12().t8() => Some(&mut d.t12.8);
    p.t12().t9() => Some(&mut d.t12.9);
    p.t12().t10() => Some(&mut d.t12.10);
    p.t12().t11() => Some(&mut d.t12.11);
}
const FIRST_TUPLE: u32 = 43;
/// the same path, wrapped in one of the ways there are
fn wrapped<'s>(s: &'s Store<Den>, i: u32, wrap: u32) -> Dy<'s> {
    let p = path(s, i);
    match wrap {
        0 => p,
        1 => Box::new(Rc::new(p) as Rc<dyn Path<Out = u32> + 's>),
        _ => {
            let p: &'s Dy<'s> = Box::leak(Box::new(p));
            Box::new(p.as_ref_path().into_path())
        }
    }
}
fn zoo(kind: u32, mut v: impl FnMut() -> u32) -> Zoo {
    match kind {
        0 => Zoo::Pair(v(), v(), v()),
        1 => Zoo::Hid(v(), v(), v(), v()),
        2 => Zoo::Left { x: v(), y: v() },
        3 => Zoo::Right { x: v(), y: v() },
        4 => Zoo::Unit,
        5 => Zoo::Sub(pt(&mut v), v(), Either::L(v())),
        6 => Zoo::Sub(pt(&mut v), v(), Either::R(pt(&mut v))),
        _ => Zoo::Named { a: v(), b: v(), c: v(), d: v() },
    }
}
const KINDS: u32 = 8;
fn pt(mut v: impl FnMut() -> u32) -> Pt {
    Pt { u: v(), hidden: v(), w: v(), v: (v(), v()) }
}
fn cage<T: Clone>(full: bool, mut v: impl FnMut() -> T) -> Cage<T> {
    Cage {
        first: v(),
        more: if full { vec![v(), v()] } else { vec![] },
        last: if full { Some(Box::new(v())) } else { None },
        both: Rc::new(if full { Either::R((v(), v())) } else { Either::L(v()) }),
    }
}
fn den(kind: u32, full: bool, mut v: impl FnMut() -> u32) -> Den {
    Den {
        z: zoo(kind, &mut v),
        pt: pt(&mut v),
        cage: cage(full, &mut v),
        nest: cage(full, || pt(&mut v)),
        tup: Tup(v(), v(), v(), v(), v(), v()),
        map: [(7, v()), (8, v())].into_iter().filter(|e| full || e.0 == 7).collect(),
        text: full.then(|| Box::new(v())),
        t1: (v(),),
        t2: (v(), v()),
        t3: (v(), v(), v()),
        t4: (v(), v(), v(), v()),
        t5: (v(), v(), v(), v(), v()),
        t6: (v(), v(), v(), v(), v(), v()),
        t7: (v(), v(), v(), v(), v(), v(), v()),
        t8: (v(), v(), v(), v(), v(), v(), v(), v()),
        t9: (v(), v(), v(), v(), v(), v(), v(), v(), v()),
        t10: (v(), v(), v(), v(), v(), v(), v(), v(), v(), v()),
        t11: (v(), v(), v(), v(), v(), v(), v(), v(), v(), v(), v()),
        t12: (v(), v(), v(), v(), v(), v(), v(), v(), v(), v(), v(), v()),
    }
}
/// whether two paths name the same place
fn same(d: &mut Den, i: u32, j: u32) -> bool {
    let a = direct(d, i).map(|x| x as *const u32);
    i == j || a.is_some() && a == direct(d, j).map(|x| x as *const u32)
}
/// `steps` reads and writes of fields, while one field is listened to.
/// `group`: 0 derived types, 1 tuples
pub fn run(group: u32, steps: u32) {
    let mut vals = 100;
    let (kind, full) = if group == 0 { (nd::pick(0, KINDS - 1), nd::any_bool()) } else { (4, true) };
    let mut first = true;
    let mut fresh = || {
        vals += 1;
        // one of the values is anything
        if std::mem::take(&mut first) {
            nd::fresh(0, 0xffff_ffff)
        } else {
            vals
        }
    };
    let root = den(kind, full, &mut fresh);
    let mut model = root.clone();
    model.cage.both = Rc::new((*root.cage.both).clone());
    model.nest.both = Rc::new((*root.nest.both).clone());
    let store = Store::new(root);
    let (lo, hi) = if group == 0 { (0, FIRST_TUPLE - 1) } else { (FIRST_TUPLE, ROWS - 1) };
    for _ in 0..steps {
        let j = nd::pick(lo, hi);
        let w = CountWaker::new();
        let wrap = if group == 1 { 0 } else { nd::pick(0, 2) };
        let at = wrapped(&store, j, wrap);
        let bubbling = nd::any_bool();
        let mut s: Pin<Box<dyn Stream<Item = ()>>> =
            if bubbling { Box::pin(at.until_bubbling_change()) } else { Box::pin(at.until_change()) };
        nd::check(s.as_mut().poll_next(&mut Context::from_waker(&w.1)).is_pending(), "a change is reported before any");
        let changed;
        if group == 0 && nd::any_bool() {
            // another variant
            let z = zoo(nd::pick(0, KINDS - 1), &mut fresh);
            store.build_path().z().set(z.clone());
            model.z = z;
            changed = j < 16 && !bubbling;
            nd::cover(3);
        } else {
            let i = nd::pick(lo, hi);
            let p = wrapped(&store, i, (wrap + 1) % 3);
            let want = direct(&mut model, i).map(|x| *x);
            nd::check(p.get_opt() == want, "[C17] a path reads something else than what it names");
            let v = nd::fresh(0, 0xffff);
            let done = match nd::pick(0, 2) {
                0 => p.set_opt(v).is_ok(),
                1 => p.borrow_opt_mut().map(|mut g| *g = v).is_some(),
                _ => match want {
                    Some(old) => {
                        *p.borrow_opt_mut_without_notifying().unwrap() = old;
                        false
                    }
                    None => false,
                },
            };
            if done {
                nd::check(want.is_some(), "[C17] set although the data is not there");
                *direct(&mut model, i).unwrap() = v;
                nd::check(p.get_opt() == Some(v), "[C17] reads back something else");
                nd::cover(1);
            }
            changed = done && same(&mut model, i, j);
            nd::cover(2);
        }
        nd::check(*store.build_path().borrow() == model, "[C17] something else was written");
        let ready = s.as_mut().poll_next(&mut Context::from_waker(&w.1)).is_ready();
        if changed {
            nd::check(ready && w.count() > 0, if bubbling { "[C16 C18] a change is not reported" } else { "[C14 C18] a change is not reported" });
            nd::cover(4);
        } else {
            nd::check(!ready && w.count() == 0, if bubbling { "[C16 C18] a change elsewhere is reported" } else { "[C15 C18] a change elsewhere is reported" });
        }
    }
}
#[derive(Trackable, Clone, PartialEq)]
#[track(deep)]
struct Long {
    v: Vec<u32>,
    m: HashMap<u32, u32>,
}
/// Elements and entries at the beginning, at the end and outside of long sequences.
pub fn long(n: u32) {
    let mut model = Long {
        v: (0..n).map(|i| 1000 + i).collect(),
        m: (0..n).map(|i| (i, 2000 + i)).collect(),
    };
    let store = Store::new(model.clone());
    let any = || {
        let c = [0, 1, 31, 63, 64, 127, 128, 255, 256, n - 1, n, n + 1, 0xffff, 0x1_0000, 0x8000_0001, 0xffff_ffff];
        c[nd::pick(0, c.len() as u32 - 1) as usize]
    };
    let (i, j) = (any(), any());
    let map = nd::any_bool();
    let path = |i: u32| -> Box<dyn Path<Out = u32> + '_> {
        if map {
            Box::new(store.build_path().m().key(i).into_path())
        } else {
            Box::new(store.build_path().v().index(i as usize).into_path())
        }
    };
    let direct = |l: &mut Long, i: u32| -> Option<*mut u32> {
        if map {
            l.m.get_mut(&i).map(|x| x as _)
        } else {
            l.v.get_mut(i as usize).map(|x| x as _)
        }
    };
    let w = CountWaker::new();
    let at = path(j);
    let mut s = at.until_change();
    let mut ready = || Pin::new(&mut s).poll_next(&mut Context::from_waker(&w.1)).is_ready();
    nd::check(!ready(), "a change is reported before any");
    let p = path(i);
    let want = direct(&mut model, i).map(|x| unsafe { *x });
    nd::check(p.get_opt() == want, "[C17] a path reads something else than what it names");
    let v = nd::fresh(0, 0xffff_ffff);
    let done = p.set_opt(v).is_ok();
    nd::check(done == want.is_some(), "[C17] setting succeeds if the data is there and only then");
    if let Some(x) = direct(&mut model, i) {
        unsafe { *x = v }
        nd::check(p.get_opt() == Some(v), "[C17] reads back something else");
        nd::cover(1);
    } else {
        nd::cover(2);
    }
    nd::check(*store.build_path().borrow() == model, "[C17] something else was written");
    if done && i == j {
        nd::check(ready() && w.count() > 0, "[C14 C18] a change is not reported");
        nd::cover(3);
    } else {
        nd::check(!ready() && w.count() == 0, "[C15 C18] a change elsewhere is reported");
    }
}
