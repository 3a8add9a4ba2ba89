//! EventFutureStream: delivery, wake-ups, options, listener bookkeeping.
use crate::util::*;
use async_ui_web_html::events::{EmitEvent, EventFutureStream};
use futures_core::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use web_sys::{mock, Event, EventTarget};

const NAMES: [&str; 2] = ["alpha", "beta"];
struct S {
    f: Option<EventFutureStream<Event>>,
    target: usize,
    name: usize,
    capture: bool,
    passive: bool,
    reg: bool,
    last: Option<u32>,
    /// waker of the last poll and how often that was woken by then
    waker: usize,
    // the last poll was pending
    armed: bool,
    seen: u32,
}
/// `n` streams, `steps` symbolic operations. `flags`: 1 symbolic options, 2 symbolic targets and
/// names (else all the same), 4 polls as Future and Stream alike.
pub fn stream(n: u32, steps: u32, flags: u32) {
    let targets: [EventTarget; 2] = std::array::from_fn(|_| element().into());
    let wakers = CountWaker::pair();
    let base = mock::live_listeners();
    let mut ss: Vec<S> = (0..n)
        .map(|i| {
            let (target, name) = if flags & 2 != 0 && i > 0 {
                (nd::pick(0, 1) as usize, nd::pick(0, 1) as usize)
            } else {
                (0, 0)
            };
            let mut f = targets[target].until_event::<Event>(NAMES[name].into());
            let (mut capture, mut passive) = (false, false);
            if flags & 1 != 0 {
                match nd::pick(0, 3) {
                    0 => {}
                    1 => {
                        capture = nd::any_bool();
                        f.set_capture(capture);
                    }
                    2 => {
                        passive = nd::any_bool();
                        f.set_passive(passive);
                    }
                    _ => {
                        capture = nd::any_bool();
                        passive = nd::any_bool();
                        f.set_passive(passive);
                        f.set_capture(capture);
                    }
                }
            }
            S { f: Some(f), target, name, capture, passive, reg: false, last: None, waker: 0, armed: false, seen: 0 }
        })
        .collect();
    for _ in 0..steps {
        match nd::pick(0, 2) {
            0 => {
                // an event happens
                let (t, e) = if flags & 2 != 0 {
                    (nd::pick(0, 1) as usize, nd::pick(0, 1) as usize)
                } else {
                    (0, 0)
                };
                let payload = nd::fresh(0, 0xffff);
                mock::dispatch(&targets[t], NAMES[e], payload);
                for s in &mut ss {
                    if s.reg && s.target == t && s.name == e {
                        s.last = Some(payload);
                        nd::check(
                            !s.armed || wakers[s.waker].count() != s.seen,
                            "an event arrived but the task awaiting it was not woken",
                        );
                        nd::cover(1);
                    }
                }
            }
            1 => {
                let i = nd::pick(0, n - 1) as usize;
                let s = &mut ss[i];
                nd::assume(s.f.is_some());
                s.waker = nd::pick(0, 1) as usize;
                let w = &wakers[s.waker];
                s.seen = w.count();
                let mut cx = Context::from_waker(&w.1);
                let f = s.f.as_mut().unwrap();
                let r = if flags & 4 != 0 && nd::any_bool() {
                    Pin::new(f).poll(&mut cx)
                } else {
                    match Pin::new(f).poll_next(&mut cx) {
                        Poll::Ready(Some(e)) => Poll::Ready(e),
                        Poll::Ready(None) => nd::fail("the stream ended"),
                        Poll::Pending => Poll::Pending,
                    }
                };
                s.reg = true;
                s.armed = r.is_pending();
                match (r, s.last.take()) {
                    (Poll::Pending, None) => {}
                    (Poll::Ready(e), Some(p)) => {
                        nd::check(mock::event_payload(&e) == p, "yields another event than the last one");
                        nd::cover(2);
                    }
                    (Poll::Ready(_), None) => nd::fail("yields an event although none arrived"),
                    (Poll::Pending, Some(_)) => nd::fail("an event that arrived is not yielded"),
                }
            }
            _ => {
                let i = nd::pick(0, n - 1) as usize;
                nd::assume(ss[i].f.is_some());
                ss[i].f = None;
                ss[i].reg = false;
                ss[i].armed = false;
                ss[i].last = None;
                nd::cover(3);
            }
        }
        // exactly one listener per registered stream, with its options
        let mut want = 0;
        for (i, s) in ss.iter().enumerate() {
            want += s.reg as usize;
            let k = ss.iter().filter(|o| o.reg && o.target == s.target && o.name == s.name);
            nd::check(
                mock::listener_count(&targets[s.target], NAMES[s.name]) == k.count(),
                "the listeners don't correspond to the streams",
            );
            let _ = i;
        }
        nd::check(mock::live_listeners() == base + want, "a listener is left behind");
        let caps = mock::listeners_where(|l| l.capture);
        let pass = mock::listeners_where(|l| l.passive);
        nd::check(
            caps == ss.iter().filter(|s| s.reg && s.capture).count()
                && pass == ss.iter().filter(|s| s.reg && s.passive).count(),
            "listener options are not the ones that were set",
        );
    }
    drop(ss);
    nd::check(mock::live_listeners() == base, "a listener is left behind");
    for t in &targets {
        for n in NAMES {
            mock::dispatch(t, n, 1);
        }
    }
    nd::trace(wakers[0].count() as u64);
    nd::trace(wakers[1].count() as u64);
}
