//! Every component, input constructor and event method, with the tag, type or event it stands for.
use crate::dom::{self, Leaf, T};
use crate::util::*;
use async_ui_web::html;
use async_ui_web::prelude_traits::*;
use async_ui_web::NoChild;
use async_ui_web_html::events::EventFutureStream;
use std::borrow::Cow;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use wasm_bindgen::mock::str_id;
use wasm_bindgen::JsCast;
use web_sys::{mock, Node};

/// Renders something that stands for `node` and has the given children.
fn shown(node: &Node, f: impl Future, want: &[u32]) {
    let root = div();
    let foreign = div();
    root.append_child(&foreign).unwrap();
    let mut m = Mounted::at(f, root);
    nd::check(m.children() == [id(&foreign)], "something is in the document before it is rendered");
    nd::check(m.poll().is_pending(), "a component without an end completed");
    nd::check(m.children() == [id(&foreign), id(node)], "rendering does not put the element in the document");
    nd::check(children(node) == want, "the element does not contain what was rendered in it");
    nd::trace(mock::tag_id(node) as u64);
    m.unmount();
    nd::check(m.children() == [id(&foreign)], "the element stays in the document");
    nd::cover(1);
}
fn tag(node: &Node, other: &Node, name: &str) {
    nd::check(mock::tag_id(node) == str_id(name), "an element has another tag than its component stands for");
    nd::check(mock::tag_id(other) == str_id(name), "default() makes another element than new()");
    nd::check(id(node) != id(other), "two components share an element");
}
fn child(l: &Rc<Leaf>) -> dom::Dyn {
    l.set(nd::any_bool());
    dom::fut(&T::L(l.clone()))
}
fn kids(l: &Rc<Leaf>) -> Vec<u32> {
    if l.get() { vec![id(l.node())] } else { vec![] }
}
macro_rules! childed {
    ($($t:ident $n:literal,)*) => { &[$(|| {
        let c = html::$t::new();
        let n = AsRef::<Node>::as_ref(&c.element).clone();
        tag(&n, AsRef::<Node>::as_ref(&html::$t::default().element), $n);
        let l = Leaf::new();
        let f = child(&l);
        shown(&n, c.render(f), &kids(&l));
    }),*] };
}
macro_rules! childless {
    ($($t:ident $n:literal,)*) => { &[$(|| {
        let c = html::$t::new();
        let n = AsRef::<Node>::as_ref(&c.element).clone();
        tag(&n, AsRef::<Node>::as_ref(&html::$t::default().element), $n);
        shown(&n, c.render(), &[]);
    }),*] };
}
macro_rules! inputs {
    ($($f:ident $n:literal,)*) => { &[$(|| {
        let c = html::Input::$f();
        let n = AsRef::<Node>::as_ref(&c.element).clone();
        nd::check(mock::tag_id(&n) == str_id("input"), "an input has another tag");
        nd::check(mock::type_id(&n) == str_id($n), "an input has another type than its constructor stands for");
        shown(&n, c.render(), &[]);
    }),*] };
}
macro_rules! events {
    ($($f:ident $n:literal,)*) => { &[$(|| {
        let d = html::Div::new();
        let n = AsRef::<Node>::as_ref(&d.element).clone();
        event(&n, d.$f(), $n);
    }),*] };
}
fn event<E: JsCast + 'static>(n: &Node, mut s: EventFutureStream<E>, name: &str) {
    let base = mock::live_listeners();
    let w = CountWaker::new();
    let mut cx = Context::from_waker(&w.1);
    let mut poll = |s: &mut EventFutureStream<E>| Future::poll(Pin::new(s), &mut cx);
    nd::check(poll(&mut s).is_pending(), "an event before it happened");
    nd::check(
        mock::listener_count(n, name) == 1 && mock::live_listeners() == base + 1,
        "an event method listens to another event than it stands for",
    );
    let other = if name == "click" { "input" } else { "click" };
    mock::dispatch(n, other, 3);
    nd::check(w.count() == 0, "woken by another event");
    mock::dispatch(n, name, 4);
    nd::check(w.count() == 1, "not woken by the event");
    match poll(&mut s) {
        Poll::Ready(e) => nd::check(
            mock::event_payload(e.unchecked_ref()) == 4,
            "not the event that happened",
        ),
        Poll::Pending => nd::fail("the event is missed"),
    }
    drop(s);
    nd::check(mock::live_listeners() == base, "a listener stays");
    nd::cover(2);
}
#[rustfmt::skip]
const CHILDED: &[fn()] = childed! {
    Anchor "a",
    Audio "audio",
    Bold "b",
    Button "button",
    Canvas "canvas",
    Dl "dl",
    Data "data",
    DataList "datalist",
    Dialog "dialog",
    Div "div",
    FieldSet "fieldset",
    Form "form",
    FrameSet "frameset",
    H1 "h1",
    H2 "h2",
    H3 "h3",
    H4 "h4",
    H5 "h5",
    H6 "h6",
    Italic "i",
    IFrame "iframe",
    Img "img",
    Li "li",
    Label "label",
    Legend "legend",
    Map "map",
    Meter "meter",
    Ol "ol",
    Object "object",
    OptGroup "optgroup",
    Option "option",
    Output "output",
    Paragraph "p",
    Picture "picture",
    Pre "pre",
    Progress "progress",
    Quote "q",
    Select "select",
    Span "span",
    Style "style",
    Th "th",
    Td "td",
    Col "col",
    ColGroup "colgroup",
    Table "table",
    Tr "tr",
    THead "thead",
    TFoot "tfoot",
    TBody "tbody",
    Template "template",
    TextArea "textarea",
    Time "time",
    Ul "ul",
    Video "video",
};
#[rustfmt::skip]
const CHILDLESS: &[fn()] = childless! {
    Area "area",
    Br "br",
    Base "base",
    Embed "embed",
    Hr "hr",
    Input "input",
    Link "link",
    Meta "meta",
    Source "source",
    Track "track",
};
#[rustfmt::skip]
const INPUTS: &[fn()] = inputs! {
    new_button "button",
    new_checkbox "checkbox",
    new_color "color",
    new_date "date",
    new_datetime "datetime",
    new_email "email",
    new_file "file",
    new_hidden "hidden",
    new_image "image",
    new_month "month",
    new_number "number",
    new_password "password",
    new_radio "radio",
    new_range "range",
    new_reset "reset",
    new_search "search",
    new_submit "submit",
    new_tel "tel",
    new_text "text",
    new_time "time",
    new_url "url",
    new_week "week",
};
#[rustfmt::skip]
const EVENTS: &[fn()] = events! {
    until_cancel "cancel",
    until_error "error",
    until_scroll "scroll",
    until_securitypolicyviolation "securitypolicyviolation",
    until_select "select",
    until_wheel "wheel",
    until_compositionend "compositionend",
    until_compositionstart "compositionstart",
    until_compositionupdate "compositionupdate",
    until_blur "blur",
    until_focus "focus",
    until_focusin "focusin",
    until_focusout "focusout",
    until_fullscreenchange "fullscreenchange",
    until_fullscreenerror "fullscreenerror",
    until_keydown "keydown",
    until_keyup "keyup",
    until_auxclick "auxclick",
    until_click "click",
    until_contextmenu "contextmenu",
    until_dblclick "dblclick",
    until_mousedown "mousedown",
    until_mouseenter "mouseenter",
    until_mouseleave "mouseleave",
    until_mousemove "mousemove",
    until_mouseout "mouseout",
    until_mouseover "mouseover",
    until_mouseup "mouseup",
    until_touchcancel "touchcancel",
    until_touchend "touchend",
    until_touchmove "touchmove",
    until_touchstart "touchstart",
    until_input "input",
    until_change "change",
    until_drag "drag",
    until_dragend "dragend",
    until_dragenter "dragenter",
    until_dragleave "dragleave",
    until_dragover "dragover",
    until_dragstart "dragstart",
    until_drop "drop",
    until_load "load",
};

const STRS: [&str; 6] = ["", "x", "two words", "<b>&amp;</b>", "\u{e9}\u{1f600}", "0123456789012345678901234567890123456789"];
const TAGS: [&str; 4] = ["x-y", "section", "article", "math"];
const OTHERS: &[fn()] = &[
    || {
        let t = STRS[nd::pick(0, 5) as usize];
        let c = html::Text::new();
        let n = AsRef::<Node>::as_ref(&c.node).clone();
        nd::check(mock::node_kind(&n) == mock::K_TEXT, "not a text node");
        nd::check(mock::text(&n) == "", "a new text node is not empty");
        c.set_data(t);
        nd::check(mock::text(&n) == t, "wrong text");
        let d = html::Text::default();
        nd::check(id(AsRef::<Node>::as_ref(&d.node)) != id(&n), "two texts share a node");
        shown(&n, c.render(), &[]);
    },
    || {
        let t = STRS[nd::pick(0, 5) as usize];
        let root = div();
        let mut m = Mounted::at(t.render(), root);
        nd::check(m.poll().is_pending(), "a text completed");
        let n = m.root.first_child();
        nd::check(m.children().len() == 1, "rendering a str does not show one node");
        let n = n.unwrap();
        nd::check(mock::node_kind(&n) == mock::K_TEXT && mock::text(&n) == t, "rendering a str shows another text");
        m.unmount();
        nd::check(m.children().is_empty(), "the text stays");
    },
    || {
        let t = TAGS[nd::pick(0, 3) as usize];
        let own = nd::any_bool();
        let c = html::CustomElement::new(if own { Cow::Owned(t.to_string()) } else { Cow::Borrowed(t) });
        let n = AsRef::<Node>::as_ref(&c.element).clone();
        nd::check(mock::tag_id(&n) == str_id(t), "a custom element has another tag");
        let l = Leaf::new();
        let f = child(&l);
        shown(&n, c.render(f), &kids(&l));
    },
    || {
        let c = html::Span::new();
        let n = AsRef::<Node>::as_ref(&c.element).clone();
        shown(&n, c.render(NoChild), &[]);
    },
];
/// One entry of each table, all of them.
pub fn run() {
    let table = [CHILDED, CHILDLESS, INPUTS, EVENTS, OTHERS][nd::pick(0, 4) as usize];
    table[nd::pick(0, table.len() as u32 - 1) as usize]();
}
