//! Shared pieces of the harnesses.
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use web_sys::{mock, Node};

/// Wakers that count how often they were woken.
#[derive(Default)]
pub struct Count([AtomicU32; 2]);
static TABLES: [RawWakerVTable; 2] = [
    RawWakerVTable::new(Count::clone::<0>, Count::wake::<0>, Count::wake_by_ref::<0>, Count::drop),
    RawWakerVTable::new(Count::clone::<1>, Count::wake::<1>, Count::wake_by_ref::<1>, Count::drop),
];
impl Count {
    fn waker(self: Arc<Self>, k: usize) -> Waker {
        unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(self) as *const (), &TABLES[k])) }
    }
    unsafe fn clone<const K: usize>(p: *const ()) -> RawWaker {
        Arc::increment_strong_count(p as *const Self);
        RawWaker::new(p, &TABLES[K])
    }
    unsafe fn wake<const K: usize>(p: *const ()) {
        Self::wake_by_ref::<K>(p);
        Self::drop(p);
    }
    unsafe fn wake_by_ref<const K: usize>(p: *const ()) {
        (*(p as *const Self)).0[K].fetch_add(1, Relaxed);
    }
    unsafe fn drop(p: *const ()) {
        drop(Arc::from_raw(p as *const Self));
    }
}
#[derive(Clone)]
pub struct CountWaker(Arc<Count>, pub Waker, usize);
impl CountWaker {
    pub fn new() -> Self {
        let a = Arc::new(Count::default());
        let w = a.clone().waker(0);
        CountWaker(a, w, 0)
    }
    /// Two wakers with the same data pointer and different functions.
    pub fn pair() -> [Self; 2] {
        let a = Arc::new(Count::default());
        [0, 1].map(|k| CountWaker(a.clone(), a.clone().waker(k), k))
    }
    pub fn count(&self) -> u32 {
        self.0 .0[self.2].load(Relaxed)
    }
}

pub fn element() -> web_sys::Element {
    web_sys::Document::create_element(&doc(), "div").unwrap()
}
pub fn doc() -> web_sys::Document {
    web_sys::window().unwrap().document().unwrap()
}
pub fn div() -> Node {
    element().into()
}
/// ids of the children of a node, in order
pub fn children(n: &Node) -> Vec<u32> {
    let mut v = vec![];
    let mut c = n.first_child();
    while let Some(x) = c {
        v.push(mock::id(&x));
        c = x.next_sibling();
    }
    v
}
/// ids of the children that are not comments (list anchors and the like)
pub fn visible(n: &Node) -> Vec<u32> {
    let mut v = vec![];
    let mut c = n.first_child();
    while let Some(x) = c {
        if mock::node_kind(&x) != mock::K_COMMENT {
            v.push(mock::id(&x));
        }
        c = x.next_sibling();
    }
    v
}
pub fn id(n: &Node) -> u32 {
    mock::id(n)
}

/// A future mounted on a root node and polled by hand.
pub struct Mounted<F: Future> {
    pub fut: Option<Pin<Box<ContainerNodeFuture<F>>>>,
    pub root: Node,
    pub waker: CountWaker,
    /// wake count that the last poll has taken into account
    pub seen: u32,
}
impl<F: Future> Mounted<F> {
    pub fn new(f: F) -> Self {
        Self::at(f, div())
    }
    pub fn at(f: F, root: Node) -> Self {
        mock::connect(&root);
        Mounted {
            fut: Some(Box::pin(ContainerNodeFuture::new_root(f, root.clone()))),
            root,
            waker: CountWaker::new(),
            seen: 0,
        }
    }
    pub fn poll(&mut self) -> Poll<F::Output> {
        self.seen = self.waker.count();
        let mut cx = Context::from_waker(&self.waker.1);
        self.fut.as_mut().unwrap().as_mut().poll(&mut cx)
    }
    pub fn woken(&self) -> bool {
        self.waker.count() != self.seen
    }
    /// Poll as an executor would: as long as there are wake-ups (bounded).
    pub fn run(&mut self) -> Poll<F::Output> {
        let mut n = 0;
        while self.woken() {
            n += 1;
            nd::check(n < 50, "the future keeps waking itself");
            if let Poll::Ready(r) = self.poll() {
                return Poll::Ready(r);
            }
        }
        Poll::Pending
    }
    pub fn unmount(&mut self) {
        self.fut = None;
    }
    pub fn children(&self) -> Vec<u32> {
        children(&self.root)
    }
    pub fn visible(&self) -> Vec<u32> {
        visible(&self.root)
    }
}

/// A one-shot gate: a future that completes when opened from outside.
#[derive(Clone, Default)]
pub struct Gate(Rc<GateInner>);
#[derive(Default)]
struct GateInner {
    open: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}
impl Gate {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn open(&self) {
        self.0.open.set(true);
        self.wake();
    }
    pub fn is_open(&self) -> bool {
        self.0.open.get()
    }
    pub fn wake(&self) {
        let w = self.0.waker.borrow().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn wait(&self) -> GateWait {
        GateWait(self.clone())
    }
}
pub struct GateWait(Gate);
impl Future for GateWait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 .0.open.get() {
            Poll::Ready(())
        } else {
            *self.0 .0.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
/// Counts drops.
pub struct DropCount(pub Rc<Cell<u32>>);
impl Drop for DropCount {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}
pub fn trace_all(v: &[u32]) {
    nd::trace(v.len() as u64);
    for &x in v {
        nd::trace(x as u64);
    }
}
