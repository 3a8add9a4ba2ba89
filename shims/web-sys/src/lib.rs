//! Stand-in for `web-sys`: the subset of the DOM that async_ui touches,
//! implemented over fixed-size tables so that a bounded model checker can
//! reason about it. Tree operations follow the DOM standard
//! (https://dom.spec.whatwg.org/#mutation-algorithms): pre-insertion validity
//! (HierarchyRequestError / NotFoundError), insertion of DocumentFragments,
//! re-insertion of a node that is already in a tree, insertion before itself.
#![allow(clippy::all)]

use js_sys::js_class;
use js_sys::{Array, Function, Object};
use wasm_bindgen::{kind, JsCast, JsValue};

js_class!(EventTarget: Object);
js_class!(Node: EventTarget, Object);
js_class!(Element: Node, EventTarget, Object);
js_class!(HtmlElement: Element, Node, EventTarget, Object);
js_class!(CharacterData: Node, EventTarget, Object);
js_class!(Text: CharacterData, Node, EventTarget, Object);
js_class!(Comment: CharacterData, Node, EventTarget, Object);
js_class!(Document: Node, EventTarget, Object);
js_class!(DocumentFragment: Node, EventTarget, Object);
js_class!(Window: EventTarget, Object);
js_class!(HtmlMediaElement: HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlAudioElement: HtmlMediaElement, HtmlElement, Element, Node, EventTarget, Object);
js_class!(HtmlVideoElement: HtmlMediaElement, HtmlElement, Element, Node, EventTarget, Object);
macro_rules! html_elements { ($($n:ident)*) => { $( js_class!($n: HtmlElement, Element, Node, EventTarget, Object); )* } }
html_elements! {
    HtmlCanvasElement HtmlTableColElement HtmlDataListElement HtmlMetaElement HtmlLabelElement
    HtmlHeadElement HtmlBrElement HtmlTableSectionElement HtmlDListElement HtmlTableElement
    HtmlUListElement HtmlTableCellElement HtmlDetailsElement HtmlProgressElement HtmlSlotElement
    HtmlQuoteElement HtmlTimeElement HtmlTemplateElement HtmlTitleElement HtmlOptGroupElement
    HtmlSourceElement HtmlFontElement HtmlMeterElement HtmlFormElement HtmlIFrameElement
    HtmlLinkElement HtmlBodyElement HtmlAreaElement HtmlHrElement HtmlMapElement HtmlEmbedElement
    HtmlDataElement HtmlSpanElement HtmlLiElement HtmlOListElement HtmlAnchorElement HtmlMenuElement
    HtmlHtmlElement HtmlTableRowElement HtmlDialogElement HtmlPreElement HtmlLegendElement
    HtmlFrameElement HtmlStyleElement HtmlTableCaptionElement HtmlOptionElement HtmlDivElement
    HtmlFrameSetElement HtmlDirectoryElement HtmlPictureElement HtmlTextAreaElement HtmlImageElement
    HtmlObjectElement HtmlUnknownElement HtmlBaseElement HtmlInputElement HtmlScriptElement
    HtmlOutputElement HtmlMenuItemElement HtmlParamElement HtmlModElement HtmlSelectElement
    HtmlTrackElement HtmlButtonElement HtmlParagraphElement HtmlHeadingElement HtmlFieldSetElement
}
js_class!(Event: Object);
js_class!(UiEvent: Event, Object);
macro_rules! events { ($($n:ident: $($p:ident),*;)*) => { $( js_class!($n: $($p),*); )* } }
events! {
    ClipboardEvent: Event, Object;
    CompositionEvent: UiEvent, Event, Object;
    FocusEvent: UiEvent, Event, Object;
    InputEvent: UiEvent, Event, Object;
    KeyboardEvent: UiEvent, Event, Object;
    MouseEvent: UiEvent, Event, Object;
    TouchEvent: UiEvent, Event, Object;
    WheelEvent: MouseEvent, UiEvent, Event, Object;
    DragEvent: MouseEvent, UiEvent, Event, Object;
    PointerEvent: MouseEvent, UiEvent, Event, Object;
}
js_class!(CssStyleDeclaration: Object);
js_class!(DomTokenList: Object);
js_class!(DomRect: Object);
js_class!(IntersectionObserver: Object);
js_class!(IntersectionObserverEntry: Object);

// ---------------------------------------------------------------------------
// Mock state
// ---------------------------------------------------------------------------
pub mod mock {
    use super::*;
    pub const MAX_NODES: usize = 2048;
    pub const MAX_LISTENERS: usize = 512;
    pub const MAX_TIMEOUTS: usize = 512;
    pub type Ix = u16;
    /// "no node" (index 0 is reserved).
    pub const NONE: Ix = 0;

    pub const K_ELEMENT: u8 = 1;
    pub const K_TEXT: u8 = 3;
    pub const K_COMMENT: u8 = 8;
    pub const K_DOCUMENT: u8 = 9;
    pub const K_FRAGMENT: u8 = 11;
    pub const K_SELECT: u8 = 101;
    pub const K_OPTION: u8 = 102;

    pub static mut NUM: usize = 1;
    pub static mut KIND: [u8; MAX_NODES] = [0; MAX_NODES];
    pub static mut PARENT: [Ix; MAX_NODES] = [0; MAX_NODES];
    pub static mut FIRST: [Ix; MAX_NODES] = [0; MAX_NODES];
    pub static mut LAST: [Ix; MAX_NODES] = [0; MAX_NODES];
    pub static mut NEXT: [Ix; MAX_NODES] = [0; MAX_NODES];
    pub static mut PREV: [Ix; MAX_NODES] = [0; MAX_NODES];
    /// id of the node's text (text data, option text), see `wasm_bindgen::mock::str_id`
    pub static mut TEXT: [u32; MAX_NODES] = [0; MAX_NODES];
    /// options: dirty selectedness
    pub static mut SELECTED: [bool; MAX_NODES] = [false; MAX_NODES];
    /// tag id
    pub static mut TAG: [u32; MAX_NODES] = [0; MAX_NODES];
    /// the `type` of inputs
    pub static mut TYPE: [u32; MAX_NODES] = [0; MAX_NODES];
    /// text data
    pub static mut TEXTS: [Option<String>; MAX_NODES] = [const { None }; MAX_NODES];
    /// roots that stand for something in the document
    pub static mut CONNECTED: [bool; MAX_NODES] = [false; MAX_NODES];
    /// number of tree mutations performed
    pub static mut MUTATIONS: u32 = 0;
    /// those within the document
    pub static mut DOC_MUTATIONS: u32 = 0;
    unsafe fn mutated(p: usize) {
        MUTATIONS += 1;
        let mut p = p;
        while PARENT[p] != NONE {
            p = PARENT[p] as usize;
        }
        DOC_MUTATIONS += CONNECTED[p] as u32;
    }

    pub fn new_node(k: u8) -> JsValue {
        unsafe {
            let i = NUM;
            assert!(i < MAX_NODES, "mock capacity: nodes");
            NUM += 1;
            KIND[i] = k;
            JsValue::mock(kind::NODE, i as u32)
        }
    }
    fn ix(n: &JsValue) -> usize {
        n.mock_idx()
    }
    pub fn js(i: Ix) -> Option<Node> {
        if i == NONE {
            None
        } else {
            Some(Node {
                js: JsValue::mock(kind::NODE, i as u32),
            })
        }
    }
    pub fn id(n: &Node) -> u32 {
        n.js.mock_idx() as u32
    }
    pub fn parent(n: &Node) -> Option<Node> {
        unsafe { js(PARENT[ix(&n.js)]) }
    }
    pub fn next(n: &Node) -> Option<Node> {
        unsafe { js(NEXT[ix(&n.js)]) }
    }
    pub fn prev(n: &Node) -> Option<Node> {
        unsafe { js(PREV[ix(&n.js)]) }
    }
    pub fn first(n: &Node) -> Option<Node> {
        unsafe { js(FIRST[ix(&n.js)]) }
    }
    pub fn last(n: &Node) -> Option<Node> {
        unsafe { js(LAST[ix(&n.js)]) }
    }
    pub fn node_kind(n: &Node) -> u8 {
        unsafe { KIND[ix(&n.js)] }
    }
    pub fn tag_id(n: &Node) -> u32 {
        unsafe { TAG[ix(&n.js)] }
    }
    pub fn type_id(n: &Node) -> u32 {
        unsafe { TYPE[ix(&n.js)] }
    }
    pub fn connect(n: &Node) {
        unsafe { CONNECTED[ix(&n.js)] = true }
    }
    pub fn set_text(n: &JsValue, s: &str) {
        unsafe {
            TEXT[ix(n)] = wasm_bindgen::mock::str_id(s);
            TEXTS[ix(n)] = Some(s.to_string());
        }
    }
    pub fn text(n: &JsValue) -> String {
        unsafe { TEXTS[ix(n)].clone().unwrap_or_default() }
    }
    /// concatenated text of the descendants
    pub fn deep_text(n: &Node) -> String {
        let mut s = text(&n.js);
        let mut c = first(n);
        while let Some(x) = c {
            if node_kind(&x) != K_COMMENT {
                s.push_str(&deep_text(&x));
            }
            c = next(&x);
        }
        s
    }
    pub fn clear_children(n: &Node) {
        while let Some(c) = first(n) {
            let _ = remove_child(n, &c);
        }
    }
    pub fn text_id(n: &Node) -> u32 {
        unsafe { TEXT[ix(&n.js)] }
    }

    /// remove `n` from its parent's child list
    unsafe fn detach(n: usize) {
        let p = PARENT[n] as usize;
        if p == NONE as usize {
            return;
        }
        let pv = PREV[n];
        let nx = NEXT[n];
        if pv == NONE {
            FIRST[p] = nx;
        } else {
            NEXT[pv as usize] = nx;
        }
        if nx == NONE {
            LAST[p] = pv;
        } else {
            PREV[nx as usize] = pv;
        }
        PARENT[n] = NONE;
        PREV[n] = NONE;
        NEXT[n] = NONE;
        mutated(p);
        if KIND[n] == K_OPTION && KIND[p] == K_SELECT {
            selectedness_setting(p);
        }
    }
    /// insert detached `n` under `p` before `r` (or at the end)
    unsafe fn attach(p: usize, n: usize, r: usize) {
        let pv = if r == NONE as usize { LAST[p] } else { PREV[r] };
        PARENT[n] = p as Ix;
        PREV[n] = pv;
        NEXT[n] = r as Ix;
        if pv == NONE {
            FIRST[p] = n as Ix;
        } else {
            NEXT[pv as usize] = n as Ix;
        }
        if r == NONE as usize {
            LAST[p] = n as Ix;
        } else {
            PREV[r] = n as Ix;
        }
        mutated(p);
        if KIND[n] == K_OPTION && KIND[p] == K_SELECT {
            if SELECTED[n] {
                select_only(p, n);
            }
            selectedness_setting(p);
        }
    }
    unsafe fn select_only(p: usize, n: usize) {
        let mut c = FIRST[p] as usize;
        while c != NONE as usize {
            if c != n {
                SELECTED[c] = false;
            }
            c = NEXT[c] as usize;
        }
        SELECTED[n] = true;
    }
    /// The HTML "selectedness setting algorithm" for a drop-down (display size 1, not multiple).
    unsafe fn selectedness_setting(p: usize) {
        let mut c = FIRST[p] as usize;
        let mut sel = NONE as usize;
        let mut first = NONE as usize;
        while c != NONE as usize {
            if KIND[c] == K_OPTION {
                if first == NONE as usize {
                    first = c;
                }
                if SELECTED[c] {
                    sel = c;
                }
            }
            c = NEXT[c] as usize;
        }
        if sel != NONE as usize {
            select_only(p, sel);
        } else if first != NONE as usize {
            SELECTED[first] = true;
        }
    }

    pub const ERR_HIERARCHY: JsValue = JsValue::mock(kind::OBJECT, 0xE001);
    pub const ERR_NOT_FOUND: JsValue = JsValue::mock(kind::OBJECT, 0xE002);

    pub fn insert_before(p: &Node, n: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        unsafe {
            let (pi, ni) = (ix(&p.js), ix(&n.js));
            let pk = KIND[pi];
            if pk == K_TEXT || pk == K_COMMENT {
                return Err(ERR_HIERARCHY);
            }
            // node must not be an inclusive ancestor of parent
            if FIRST[ni] != NONE || ni == pi {
                let mut a = pi;
                while a != NONE as usize {
                    if a == ni {
                        return Err(ERR_HIERARCHY);
                    }
                    a = PARENT[a] as usize;
                }
            }
            let mut r = NONE as usize;
            if let Some(c) = child {
                r = ix(&c.js);
                if PARENT[r] as usize != pi {
                    return Err(ERR_NOT_FOUND);
                }
            }
            if r == ni {
                r = NEXT[ni] as usize;
            }
            if KIND[ni] == K_FRAGMENT {
                let mut c = FIRST[ni] as usize;
                while c != NONE as usize {
                    let nx = NEXT[c] as usize;
                    detach(c);
                    attach(pi, c, r);
                    c = nx;
                }
            } else {
                detach(ni);
                attach(pi, ni, r);
            }
            Ok(n.clone())
        }
    }
    pub fn remove_child(p: &Node, n: &Node) -> Result<Node, JsValue> {
        unsafe {
            let (pi, ni) = (ix(&p.js), ix(&n.js));
            if PARENT[ni] as usize != pi {
                return Err(ERR_NOT_FOUND);
            }
            detach(ni);
            Ok(n.clone())
        }
    }
    /// position of the selected option among the options of the select, or -1
    pub fn selected_index(p: &Node) -> i32 {
        unsafe {
            let mut c = FIRST[ix(&p.js)] as usize;
            let mut i = 0;
            while c != NONE as usize {
                if KIND[c] == K_OPTION {
                    if SELECTED[c] {
                        return i;
                    }
                    i += 1;
                }
                c = NEXT[c] as usize;
            }
            -1
        }
    }
    pub fn set_selected_index(p: &Node, idx: i32) {
        unsafe {
            let mut c = FIRST[ix(&p.js)] as usize;
            let mut i = 0;
            while c != NONE as usize {
                if KIND[c] == K_OPTION {
                    SELECTED[c] = i == idx;
                    i += 1;
                }
                c = NEXT[c] as usize;
            }
        }
    }
    pub fn select_set_value(p: &Node, v: u32) {
        unsafe {
            let mut c = FIRST[ix(&p.js)] as usize;
            let mut found = false;
            while c != NONE as usize {
                if KIND[c] == K_OPTION {
                    SELECTED[c] = !found && TEXT[c] == v;
                    found |= SELECTED[c];
                }
                c = NEXT[c] as usize;
            }
        }
    }
    pub fn option_set_selected(n: &Node, sel: bool) {
        unsafe {
            let i = ix(&n.js);
            SELECTED[i] = sel;
            let p = PARENT[i] as usize;
            if p != NONE as usize && KIND[p] == K_SELECT {
                if sel {
                    select_only(p, i);
                }
                selectedness_setting(p);
            }
        }
    }

    // ----- event listeners -----
    #[derive(Clone, Copy)]
    pub struct Listener {
        pub used: bool,
        pub removed: bool,
        pub target: u32,
        pub name: u32,
        pub func: u32,
        pub capture: bool,
        pub passive: bool,
        pub once: bool,
    }
    pub const NO_LISTENER: Listener = Listener {
        used: false,
        removed: false,
        target: 0,
        name: 0,
        func: 0,
        capture: false,
        passive: false,
        once: false,
    };
    pub static mut LISTENERS: [Listener; MAX_LISTENERS] = [NO_LISTENER; MAX_LISTENERS];
    pub static mut NUM_LISTENERS: usize = 0;

    pub fn add_listener(
        t: &EventTarget,
        name: &str,
        f: &Function,
        capture: bool,
        passive: bool,
        once: bool,
    ) {
        let name = wasm_bindgen::mock::str_id(name);
        let (target, func) = (t.js.raw, f.js.raw);
        unsafe {
            let mut i = 0;
            while i < NUM_LISTENERS {
                let l = LISTENERS[i];
                if !l.removed
                    && l.target == target
                    && l.name == name
                    && l.func == func
                    && l.capture == capture
                {
                    return;
                }
                i += 1;
            }
            assert!(NUM_LISTENERS < MAX_LISTENERS, "mock capacity: listeners");
            LISTENERS[NUM_LISTENERS] = Listener {
                used: true,
                removed: false,
                target,
                name,
                func,
                capture,
                passive,
                once,
            };
            NUM_LISTENERS += 1;
        }
    }
    pub fn remove_listener(t: &EventTarget, name: &str, f: &Function, capture: bool) {
        let name = wasm_bindgen::mock::str_id(name);
        let (target, func) = (t.js.raw, f.js.raw);
        unsafe {
            let mut i = 0;
            while i < NUM_LISTENERS {
                let l = &mut LISTENERS[i];
                if !l.removed
                    && l.target == target
                    && l.name == name
                    && l.func == func
                    && l.capture == capture
                {
                    l.removed = true;
                }
                i += 1;
            }
        }
    }
    /// Number of live listeners on the target for an event name.
    pub fn listener_count(t: &EventTarget, name: &str) -> usize {
        let name = wasm_bindgen::mock::str_id(name);
        let mut n = 0;
        unsafe {
            let mut i = 0;
            while i < NUM_LISTENERS {
                let l = LISTENERS[i];
                if !l.removed && l.target == t.js.raw && l.name == name {
                    n += 1;
                }
                i += 1;
            }
        }
        n
    }
    /// Number of live listeners overall.
    pub fn live_listeners() -> usize {
        let mut n = 0;
        unsafe {
            let mut i = 0;
            while i < NUM_LISTENERS {
                if !LISTENERS[i].removed {
                    n += 1;
                }
                i += 1;
            }
        }
        n
    }
    pub fn listeners_where(f: impl Fn(&Listener) -> bool) -> usize {
        unsafe {
            let mut n = 0;
            let mut i = 0;
            while i < NUM_LISTENERS {
                let l = LISTENERS[i];
                if !l.removed && f(&l) {
                    n += 1;
                }
                i += 1;
            }
            n
        }
    }
    /// Fire an event at the target (at-target phase: capturing listeners first).
    /// The event object carries `payload` so that receivers can be told apart.
    /// Listeners added during the dispatch don't run; removed ones don't either.
    pub fn dispatch(t: &EventTarget, name: &str, payload: u32) {
        let name = wasm_bindgen::mock::str_id(name);
        unsafe {
            let n = NUM_LISTENERS;
            let mut phase = 0;
            while phase < 2 {
                let mut i = 0;
                while i < n {
                    let l = LISTENERS[i];
                    if !l.removed
                        && l.target == t.js.raw
                        && l.name == name
                        && l.capture == (phase == 0)
                    {
                        if l.once {
                            LISTENERS[i].removed = true;
                        }
                        wasm_bindgen::mock::call_fn(
                            &JsValue { raw: l.func },
                            JsValue::mock(kind::EVENT, payload),
                        );
                    }
                    i += 1;
                }
                phase += 1;
            }
        }
    }
    pub fn event_payload(e: &Event) -> u32 {
        e.js.mock_idx() as u32
    }

    // ----- timeouts -----
    pub static mut TIMEOUTS: [u32; MAX_TIMEOUTS] = [0; MAX_TIMEOUTS];
    pub static mut TIMEOUTS_PUSHED: usize = 0;
    pub static mut TIMEOUTS_RUN: usize = 0;
    pub fn push_timeout(f: &Function) {
        unsafe {
            assert!(TIMEOUTS_PUSHED < MAX_TIMEOUTS, "mock capacity: timeouts");
            TIMEOUTS[TIMEOUTS_PUSHED] = f.js.raw;
            TIMEOUTS_PUSHED += 1;
        }
    }
    pub fn pending_timeouts() -> usize {
        unsafe { TIMEOUTS_PUSHED - TIMEOUTS_RUN }
    }
    /// Run the oldest pending timeout; false if there is none.
    pub fn run_timeout() -> bool {
        unsafe {
            if TIMEOUTS_RUN == TIMEOUTS_PUSHED {
                return false;
            }
            let f = TIMEOUTS[TIMEOUTS_RUN];
            TIMEOUTS_RUN += 1;
            wasm_bindgen::mock::call_fn(&JsValue { raw: f }, JsValue::UNDEFINED);
            true
        }
    }

    // ----- class lists -----
    pub const MAX_CLASSES: usize = 64;
    /// (node, class) pairs; node 0 = free
    pub static mut CLASSES: [(u32, u32); MAX_CLASSES] = [(0, 0); MAX_CLASSES];
    pub fn class_has(n: u32, c: u32) -> bool {
        unsafe {
            let mut i = 0;
            while i < MAX_CLASSES {
                if CLASSES[i].0 == n && CLASSES[i].1 == c {
                    return true;
                }
                i += 1;
            }
            false
        }
    }
    pub fn class_add(n: u32, c: u32) {
        if class_has(n, c) {
            return;
        }
        unsafe {
            let mut i = 0;
            while i < MAX_CLASSES {
                if CLASSES[i].0 == 0 {
                    CLASSES[i] = (n, c);
                    return;
                }
                i += 1;
            }
            panic!("mock capacity: classes");
        }
    }
    pub static mut CLASS_NAMES: Vec<(u32, String)> = Vec::new();
    pub fn class_name(id: u32, s: &str) {
        unsafe {
            let v = &mut *&raw mut CLASS_NAMES;
            if !v.iter().any(|x| x.0 == id) {
                v.push((id, s.to_string()));
            }
        }
    }
    pub fn classes_of(n: u32) -> Vec<String> {
        unsafe {
            let v = &*&raw const CLASS_NAMES;
            (*&raw const CLASSES)
                .iter()
                .filter(|x| x.0 == n)
                .map(|x| v.iter().find(|y| y.0 == x.1).map(|y| y.1.clone()).unwrap_or_default())
                .collect()
        }
    }
    pub fn class_count(n: u32) -> usize {
        unsafe { (*&raw const CLASSES).iter().filter(|x| x.0 == n).count() }
    }
    pub fn class_clear(n: u32) {
        unsafe {
            let mut i = 0;
            while i < MAX_CLASSES {
                if CLASSES[i].0 == n {
                    CLASSES[i] = (0, 0);
                }
                i += 1;
            }
        }
    }
    pub fn class_del(n: u32, c: u32) {
        unsafe {
            let mut i = 0;
            while i < MAX_CLASSES {
                if CLASSES[i].0 == n && CLASSES[i].1 == c {
                    CLASSES[i] = (0, 0);
                }
                i += 1;
            }
        }
    }

    /// layout: (start, end) of a node, set by the harness
    pub static mut LAYOUT: Option<fn(u32) -> (f64, f64)> = None;
    /// the axis along which LAYOUT extends is the horizontal one
    pub static mut HORIZONTAL: bool = false;
    /// sizes set through style properties
    pub static mut SIZES: [f64; MAX_NODES] = [0.0; MAX_NODES];

    // ----- intersection observers -----
    pub struct Obs {
        pub func: u32,
        pub targets: Vec<u32>,
        pub live: bool,
    }
    pub static mut OBSERVERS: Vec<Obs> = Vec::new();
    /// call the live observers
    pub fn fire_observers() {
        unsafe {
            let fs: Vec<u32> = (*&raw const OBSERVERS)
                .iter()
                .filter(|o| o.live && !o.targets.is_empty())
                .map(|o| o.func)
                .collect();
            for f in fs {
                wasm_bindgen::mock::call_fn(&JsValue { raw: f }, JsValue::UNDEFINED);
            }
        }
    }
    pub fn live_observers() -> usize {
        unsafe { (*&raw const OBSERVERS).iter().filter(|o| o.live).count() }
    }

    pub static mut BODY: u32 = 0;
}

// ---------------------------------------------------------------------------
// The API surface
// ---------------------------------------------------------------------------
pub fn window() -> Option<Window> {
    Some(Window {
        js: JsValue::mock(kind::WINDOW, 0),
    })
}
pub mod console {
    use super::JsValue;
    pub fn log_1(_a: &JsValue) {}
    pub fn log_2(_a: &JsValue, _b: &JsValue) {}
    pub fn warn_1(_a: &JsValue) {}
    pub fn error_1(_a: &JsValue) {}
    pub fn error_2(_a: &JsValue, _b: &JsValue) {}
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(Document {
            js: JsValue::mock(kind::WINDOW, 1),
        })
    }
    pub fn set_timeout_with_callback(&self, handler: &Function) -> Result<i32, JsValue> {
        mock::push_timeout(handler);
        Ok(1)
    }
    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(
        &self,
        handler: &Function,
        _timeout: i32,
    ) -> Result<i32, JsValue> {
        mock::push_timeout(handler);
        Ok(1)
    }
    pub fn queue_microtask(&self, handler: &Function) {
        mock::push_timeout(handler);
    }
}
impl Document {
    pub fn new() -> Result<Document, JsValue> {
        Ok(Document {
            js: mock::new_node(mock::K_DOCUMENT),
        })
    }
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        let k = if tag.len() == 6 && tag == "select" {
            mock::K_SELECT
        } else if tag.len() == 6 && tag == "option" {
            mock::K_OPTION
        } else {
            mock::K_ELEMENT
        };
        let js = mock::new_node(k);
        unsafe { mock::TAG[js.mock_idx()] = cid(tag) }
        Ok(Element { js })
    }
    pub fn create_text_node(&self, data: &str) -> Text {
        let t = Text {
            js: mock::new_node(mock::K_TEXT),
        };
        t.set_data(data);
        t
    }
    pub fn create_comment(&self, _data: &str) -> Comment {
        Comment {
            js: mock::new_node(mock::K_COMMENT),
        }
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        DocumentFragment {
            js: mock::new_node(mock::K_FRAGMENT),
        }
    }
    pub fn body(&self) -> Option<HtmlElement> {
        unsafe {
            if mock::BODY == 0 {
                let b = mock::new_node(mock::K_ELEMENT);
                mock::CONNECTED[b.mock_idx()] = true;
                mock::BODY = b.raw;
            }
            Some(HtmlElement {
                js: JsValue { raw: mock::BODY },
            })
        }
    }
}
impl EventTarget {
    pub fn new() -> Result<EventTarget, JsValue> {
        Ok(EventTarget {
            js: JsValue::mock(kind::TARGET, mock::new_node(mock::K_ELEMENT).mock_idx() as u32),
        })
    }
    pub fn add_event_listener_with_callback(
        &self,
        name: &str,
        f: &Function,
    ) -> Result<(), JsValue> {
        mock::add_listener(self, name, f, false, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_bool(
        &self,
        name: &str,
        f: &Function,
        capture: bool,
    ) -> Result<(), JsValue> {
        mock::add_listener(self, name, f, capture, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_add_event_listener_options(
        &self,
        name: &str,
        f: &Function,
        options: &AddEventListenerOptions,
    ) -> Result<(), JsValue> {
        let (c, p, o) = options.flags.get();
        mock::add_listener(self, name, f, c, p, o);
        Ok(())
    }
    pub fn remove_event_listener_with_callback(
        &self,
        name: &str,
        f: &Function,
    ) -> Result<(), JsValue> {
        mock::remove_listener(self, name, f, false);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_bool(
        &self,
        name: &str,
        f: &Function,
        capture: bool,
    ) -> Result<(), JsValue> {
        mock::remove_listener(self, name, f, capture);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_event_listener_options(
        &self,
        name: &str,
        f: &Function,
        options: &EventListenerOptions,
    ) -> Result<(), JsValue> {
        mock::remove_listener(self, name, f, options.capture.get());
        Ok(())
    }
}
impl Event {
    pub fn new(_ty: &str) -> Result<Event, JsValue> {
        Ok(Event {
            js: JsValue::mock(kind::EVENT, 0),
        })
    }
    pub fn prevent_default(&self) {}
    pub fn stop_propagation(&self) {}
}
/// Options objects are plain data.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AddEventListenerOptions {
    flags: std::cell::Cell<(bool, bool, bool)>,
}
impl AddEventListenerOptions {
    pub fn new() -> Self {
        Self {
            flags: std::cell::Cell::new((false, false, false)),
        }
    }
    pub fn capture(&mut self, v: bool) -> &mut Self {
        self.set_capture(v);
        self
    }
    pub fn passive(&mut self, v: bool) -> &mut Self {
        self.set_passive(v);
        self
    }
    pub fn once(&mut self, v: bool) -> &mut Self {
        self.set_once(v);
        self
    }
    pub fn set_capture(&self, v: bool) {
        let f = self.flags.get();
        self.flags.set((v, f.1, f.2));
    }
    pub fn set_passive(&self, v: bool) {
        let f = self.flags.get();
        self.flags.set((f.0, v, f.2));
    }
    pub fn set_once(&self, v: bool) {
        let f = self.flags.get();
        self.flags.set((f.0, f.1, v));
    }
    pub fn get_capture(&self) -> Option<bool> {
        Some(self.flags.get().0)
    }
    pub fn get_passive(&self) -> Option<bool> {
        Some(self.flags.get().1)
    }
    pub fn get_once(&self) -> Option<bool> {
        Some(self.flags.get().2)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EventListenerOptions {
    capture: std::cell::Cell<bool>,
}
impl EventListenerOptions {
    pub fn new() -> Self {
        Self {
            capture: std::cell::Cell::new(false),
        }
    }
    pub fn capture(&mut self, v: bool) -> &mut Self {
        self.capture.set(v);
        self
    }
    pub fn set_capture(&self, v: bool) {
        self.capture.set(v);
    }
}
impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    pub const DOCUMENT_POSITION_DISCONNECTED: u16 = 1;
    pub const DOCUMENT_POSITION_PRECEDING: u16 = 2;
    pub const DOCUMENT_POSITION_FOLLOWING: u16 = 4;
    pub const DOCUMENT_POSITION_CONTAINS: u16 = 8;
    pub const DOCUMENT_POSITION_CONTAINED_BY: u16 = 16;
    pub fn parent_node(&self) -> Option<Node> {
        mock::parent(self)
    }
    pub fn parent_element(&self) -> Option<Element> {
        mock::parent(self)
            .filter(|p| mock::node_kind(p) != mock::K_FRAGMENT)
            .map(|p| p.unchecked_into())
    }
    pub fn first_child(&self) -> Option<Node> {
        mock::first(self)
    }
    pub fn last_child(&self) -> Option<Node> {
        mock::last(self)
    }
    pub fn next_sibling(&self) -> Option<Node> {
        mock::next(self)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        mock::prev(self)
    }
    pub fn has_child_nodes(&self) -> bool {
        mock::first(self).is_some()
    }
    pub fn is_same_node(&self, other: Option<&Node>) -> bool {
        match other {
            Some(o) => o.js.raw == self.js.raw,
            None => false,
        }
    }
    pub fn contains(&self, other: Option<&Node>) -> bool {
        let mut cur = other.cloned();
        while let Some(n) = cur {
            if n.js.raw == self.js.raw {
                return true;
            }
            cur = mock::parent(&n);
        }
        false
    }
    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        mock::insert_before(self, node, child)
    }
    pub fn append_child(&self, node: &Node) -> Result<Node, JsValue> {
        mock::insert_before(self, node, None)
    }
    pub fn remove_child(&self, child: &Node) -> Result<Node, JsValue> {
        mock::remove_child(self, child)
    }
    pub fn replace_child(&self, node: &Node, child: &Node) -> Result<Node, JsValue> {
        mock::insert_before(self, node, Some(child))?;
        mock::remove_child(self, child)
    }
    /// Replaces the children by text. The model keeps the text with the node
    /// instead of making a text node of it.
    pub fn set_text_content(&self, text: Option<&str>) {
        mock::clear_children(self);
        mock::set_text(&self.js, text.unwrap_or(""));
    }
    pub fn text_content(&self) -> Option<String> {
        Some(mock::deep_text(self))
    }
    pub fn node_type(&self) -> u16 {
        match mock::node_kind(self) {
            mock::K_SELECT | mock::K_OPTION => 1,
            k => k as u16,
        }
    }
    pub fn is_connected(&self) -> bool {
        let mut n = self.clone();
        while let Some(p) = mock::parent(&n) {
            n = p;
        }
        unsafe { mock::CONNECTED[n.js.mock_idx()] }
    }
    pub fn is_equal_node(&self, other: Option<&Node>) -> bool {
        self.is_same_node(other)
    }
    /// https://dom.spec.whatwg.org/#dom-node-comparedocumentposition
    pub fn compare_document_position(&self, other: &Node) -> u16 {
        if self.is_same_node(Some(other)) {
            return 0;
        }
        // inclusive ancestors from the root
        let line = |n: &Node| {
            let mut v = vec![n.clone()];
            while let Some(p) = v[0].parent_node() {
                v.insert(0, p);
            }
            v
        };
        let (a, b) = (line(self), line(other));
        if mock::id(&a[0]) != mock::id(&b[0]) {
            return Self::DOCUMENT_POSITION_DISCONNECTED | 32 | if mock::id(&a[0]) < mock::id(&b[0]) { 4 } else { 2 };
        }
        let k = (0..a.len().min(b.len())).take_while(|&i| mock::id(&a[i]) == mock::id(&b[i])).count();
        if k == a.len() {
            return Self::DOCUMENT_POSITION_CONTAINED_BY | Self::DOCUMENT_POSITION_FOLLOWING;
        }
        if k == b.len() {
            return Self::DOCUMENT_POSITION_CONTAINS | Self::DOCUMENT_POSITION_PRECEDING;
        }
        let mut n = a[k].next_sibling();
        while let Some(x) = n {
            if x.is_same_node(Some(&b[k])) {
                return Self::DOCUMENT_POSITION_FOLLOWING;
            }
            n = x.next_sibling();
        }
        Self::DOCUMENT_POSITION_PRECEDING
    }
    pub fn get_root_node(&self) -> Node {
        let mut n = self.clone();
        while let Some(p) = mock::parent(&n) {
            n = p;
        }
        n
    }
    pub fn owner_document(&self) -> Option<Document> {
        window().unwrap().document()
    }
    pub fn normalize(&self) {}
    pub fn set_node_value(&self, v: Option<&str>) {
        if matches!(mock::node_kind(self), mock::K_TEXT | mock::K_COMMENT) {
            mock::set_text(&self.js, v.unwrap_or(""));
        }
    }
}
macro_rules! child_node { ($($t:ident)*) => { $( impl $t {
    pub fn remove(&self) {
        if let Some(p) = mock::parent(self) {
            let _ = mock::remove_child(&p, self);
        }
    }
    pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        match mock::parent(self) {
            // (inserting a node before itself leaves it where it is)
            Some(p) => mock::insert_before(&p, n, Some(self)).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        match mock::parent(self) {
            Some(p) => mock::insert_before(&p, n, mock::next(self).as_ref()).map(|_| ()),
            None => Ok(()),
        }
    }
    pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        match mock::parent(self) {
            Some(p) => p.replace_child(n, self).map(|_| ()),
            None => Ok(()),
        }
    }
} )* } }
child_node! { Element CharacterData }
macro_rules! parent_node { ($($t:ident)*) => { $( impl $t {
    pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        self.append_child(n).map(|_| ())
    }
    pub fn append_with_node_2(&self, n: &Node, m: &Node) -> Result<(), JsValue> {
        self.append_child(n)?;
        self.append_child(m).map(|_| ())
    }
    pub fn append_with_node_3(&self, n: &Node, m: &Node, o: &Node) -> Result<(), JsValue> {
        self.append_child(n)?;
        self.append_child(m)?;
        self.append_child(o).map(|_| ())
    }
    pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
        self.insert_before(n, self.first_child().as_ref()).map(|_| ())
    }
    pub fn replace_children_with_node_0(&self) {
        mock::clear_children(self);
    }
    pub fn replace_children_with_node_1(&self, n: &Node) {
        mock::clear_children(self);
        let _ = self.append_child(n);
    }
    pub fn first_element_child(&self) -> Option<Element> {
        elem(mock::first(self), mock::next)
    }
    pub fn last_element_child(&self) -> Option<Element> {
        elem(mock::last(self), mock::prev)
    }
    pub fn child_element_count(&self) -> u32 {
        let mut n = 0;
        let mut c = self.first_element_child();
        while let Some(x) = c {
            n += 1;
            c = x.next_element_sibling();
        }
        n
    }
} )* } }
parent_node! { Element Document DocumentFragment }
fn elem(mut n: Option<Node>, step: fn(&Node) -> Option<Node>) -> Option<Element> {
    while let Some(x) = n {
        if x.node_type() == 1 {
            return Some(x.unchecked_into());
        }
        n = step(&x);
    }
    None
}
impl Element {
    pub fn class_list(&self) -> DomTokenList {
        DomTokenList {
            js: self.js.clone(),
        }
    }
    pub fn class_name(&self) -> String {
        self.class_list().value()
    }
    pub fn set_class_name(&self, s: &str) {
        self.class_list().set_value(s)
    }
    pub fn next_element_sibling(&self) -> Option<Element> {
        elem(mock::next(self), mock::next)
    }
    pub fn previous_element_sibling(&self) -> Option<Element> {
        elem(mock::prev(self), mock::prev)
    }
    pub fn insert_adjacent_element(&self, wh: &str, e: &Element) -> Result<Option<Element>, JsValue> {
        match wh {
            "beforebegin" => self.before_with_node_1(e)?,
            "afterend" => self.after_with_node_1(e)?,
            "afterbegin" => self.prepend_with_node_1(e)?,
            "beforeend" => self.append_with_node_1(e)?,
            _ => return Err(mock::ERR_HIERARCHY),
        }
        Ok(Some(e.clone()))
    }
    pub fn set_inner_html(&self, s: &str) {
        self.set_text_content(Some(s))
    }
    pub fn set_id(&self, _id: &str) {}
    pub fn id(&self) -> String {
        String::new()
    }
    pub fn set_attribute(&self, name: &str, value: &str) -> Result<(), JsValue> {
        match name {
            "type" => unsafe { mock::TYPE[self.js.mock_idx()] = cid(value) },
            "class" => self.set_class_name(value),
            _ => {}
        }
        Ok(())
    }
    pub fn remove_attribute(&self, _name: &str) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn set_scroll_top(&self, _v: i32) {}
    pub fn get_bounding_client_rect(&self) -> DomRect {
        DomRect {
            js: self.js.clone(),
        }
    }
}
impl DomRect {
    fn r(&self, horizontal: bool) -> (f64, f64) {
        unsafe {
            match mock::LAYOUT {
                // the other axis says nothing
                _ if mock::HORIZONTAL != horizontal => (7.0, 57.0),
                Some(f) => f(self.js.mock_idx() as u32),
                None => (0.0, 0.0),
            }
        }
    }
    pub fn top(&self) -> f64 {
        self.r(false).0
    }
    pub fn bottom(&self) -> f64 {
        self.r(false).1
    }
    pub fn left(&self) -> f64 {
        self.r(true).0
    }
    pub fn right(&self) -> f64 {
        self.r(true).1
    }
    pub fn x(&self) -> f64 {
        self.left()
    }
    pub fn y(&self) -> f64 {
        self.top()
    }
    pub fn height(&self) -> f64 {
        self.bottom() - self.top()
    }
    pub fn width(&self) -> f64 {
        self.right() - self.left()
    }
}
impl HtmlElement {
    pub fn style(&self) -> CssStyleDeclaration {
        CssStyleDeclaration {
            js: self.js.clone(),
        }
    }
    pub fn set_inner_text(&self, s: &str) {
        self.set_text_content(Some(s))
    }
    pub fn set_hidden(&self, _v: bool) {}
    pub fn set_title(&self, _v: &str) {}
    pub fn click(&self) {
        mock::dispatch(self, "click", 0)
    }
    pub fn focus(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn blur(&self) -> Result<(), JsValue> {
        Ok(())
    }
}
impl CssStyleDeclaration {
    pub fn set_property(&self, p: &str, v: &str) -> Result<(), JsValue> {
        // the sizes that layout depends on
        if let ("block-size" | "inline-size" | "height" | "width" | "min-height" | "min-width", Some(n)) =
            (p, v.strip_suffix("px").and_then(|v| v.parse::<f64>().ok()))
        {
            // negative sizes are invalid and ignored
            if n >= 0.0 {
                unsafe { mock::SIZES[self.js.mock_idx()] = n }
            }
        }
        Ok(())
    }
    pub fn remove_property(&self, p: &str) -> Result<String, JsValue> {
        self.set_property(p, "0px")?;
        Ok(String::new())
    }
}
fn cid(s: &str) -> u32 {
    wasm_bindgen::mock::str_id(s)
}
/// names of the classes, for reading them back
fn class_ok(c: &str) -> Result<(), JsValue> {
    // SyntaxError / InvalidCharacterError
    if c.is_empty() || c.bytes().any(|b| b == b' ' || (9..=13).contains(&b)) {
        return Err(mock::ERR_HIERARCHY);
    }
    mock::class_name(cid(c), c);
    Ok(())
}
impl DomTokenList {
    fn n(&self) -> u32 {
        self.js.mock_idx() as u32
    }
    pub fn add_0(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn add_1(&self, c: &str) -> Result<(), JsValue> {
        class_ok(c)?;
        mock::class_add(self.n(), cid(c));
        Ok(())
    }
    pub fn add_2(&self, c: &str, d: &str) -> Result<(), JsValue> {
        class_ok(c)?;
        class_ok(d)?;
        self.add_1(c)?;
        self.add_1(d)
    }
    pub fn remove_0(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn remove_1(&self, c: &str) -> Result<(), JsValue> {
        class_ok(c)?;
        mock::class_del(self.n(), cid(c));
        Ok(())
    }
    pub fn remove_2(&self, c: &str, d: &str) -> Result<(), JsValue> {
        class_ok(c)?;
        class_ok(d)?;
        self.remove_1(c)?;
        self.remove_1(d)
    }
    pub fn add(&self, a: &Array) -> Result<(), JsValue> {
        for v in a.iter() {
            mock::class_add(self.n(), v.mock_idx() as u32);
        }
        Ok(())
    }
    pub fn remove(&self, a: &Array) -> Result<(), JsValue> {
        for v in a.iter() {
            mock::class_del(self.n(), v.mock_idx() as u32);
        }
        Ok(())
    }
    pub fn add_3(&self, c: &str, d: &str, e: &str) -> Result<(), JsValue> {
        class_ok(e)?;
        self.add_2(c, d)?;
        self.add_1(e)
    }
    pub fn remove_3(&self, c: &str, d: &str, e: &str) -> Result<(), JsValue> {
        class_ok(e)?;
        self.remove_2(c, d)?;
        self.remove_1(e)
    }
    pub fn contains(&self, c: &str) -> bool {
        mock::class_has(self.n(), cid(c))
    }
    pub fn toggle(&self, c: &str) -> Result<bool, JsValue> {
        let has = self.contains(c);
        self.toggle_with_force(c, !has)
    }
    pub fn toggle_with_force(&self, c: &str, force: bool) -> Result<bool, JsValue> {
        if force {
            self.add_1(c)?;
        } else {
            self.remove_1(c)?;
        }
        Ok(force)
    }
    pub fn replace(&self, c: &str, d: &str) -> Result<bool, JsValue> {
        class_ok(c)?;
        class_ok(d)?;
        let has = self.contains(c);
        if has {
            self.remove_1(c)?;
            self.add_1(d)?;
        }
        Ok(has)
    }
    pub fn length(&self) -> u32 {
        mock::classes_of(self.n()).len() as u32
    }
    pub fn value(&self) -> String {
        mock::classes_of(self.n()).join(" ")
    }
    pub fn set_value(&self, v: &str) {
        mock::class_clear(self.n());
        for c in v.split_ascii_whitespace() {
            let _ = self.add_1(c);
        }
    }
}
impl CharacterData {
    pub fn set_data(&self, s: &str) {
        mock::set_text(&self.js, s);
    }
    pub fn data(&self) -> String {
        mock::text(&self.js)
    }
    pub fn append_data(&self, s: &str) -> Result<(), JsValue> {
        mock::set_text(&self.js, &(mock::text(&self.js) + s));
        Ok(())
    }
    pub fn length(&self) -> u32 {
        mock::text(&self.js).encode_utf16().count() as u32
    }
}
impl Comment {
    pub fn new() -> Result<Comment, JsValue> {
        Ok(Comment {
            js: mock::new_node(mock::K_COMMENT),
        })
    }
    pub fn new_with_data(s: &str) -> Result<Comment, JsValue> {
        let n = Self::new()?;
        mock::set_text(&n.js, s);
        Ok(n)
    }
}
impl Text {
    pub fn new() -> Result<Text, JsValue> {
        Ok(Text {
            js: mock::new_node(mock::K_TEXT),
        })
    }
    pub fn new_with_data(s: &str) -> Result<Text, JsValue> {
        let n = Self::new()?;
        mock::set_text(&n.js, s);
        Ok(n)
    }
}
impl DocumentFragment {
    pub fn new() -> Result<DocumentFragment, JsValue> {
        Ok(DocumentFragment {
            js: mock::new_node(mock::K_FRAGMENT),
        })
    }
}
impl HtmlInputElement {
    pub fn set_type(&self, v: &str) {
        unsafe { mock::TYPE[self.js.mock_idx()] = cid(v) }
    }
    pub fn set_value(&self, v: &str) {
        mock::set_text(&self.js, v)
    }
    pub fn value(&self) -> String {
        mock::text(&self.js)
    }
    pub fn set_checked(&self, _v: bool) {}
    pub fn set_disabled(&self, _v: bool) {}
    pub fn set_placeholder(&self, _v: &str) {}
}
impl HtmlOptionElement {
    pub fn new() -> Result<HtmlOptionElement, JsValue> {
        Ok(window().unwrap().document().unwrap().create_element("option")?.unchecked_into())
    }
    pub fn set_selected(&self, v: bool) {
        mock::option_set_selected(self, v);
    }
    pub fn selected(&self) -> bool {
        unsafe { mock::SELECTED[self.js.mock_idx()] }
    }
    pub fn set_text(&self, v: &str) {
        self.set_text_content(Some(v))
    }
    pub fn text(&self) -> String {
        mock::text(&self.js)
    }
    pub fn value(&self) -> String {
        mock::text(&self.js)
    }
    pub fn set_disabled(&self, _v: bool) {}
    pub fn index(&self) -> i32 {
        let mut i = 0;
        let mut c = mock::prev(self);
        while let Some(x) = c {
            if mock::node_kind(&x) == mock::K_OPTION {
                i += 1;
            }
            c = mock::prev(&x);
        }
        i
    }
}
impl HtmlSelectElement {
    pub fn selected_index(&self) -> i32 {
        mock::selected_index(self)
    }
    pub fn set_selected_index(&self, i: i32) {
        mock::set_selected_index(self, i)
    }
    pub fn set_value(&self, v: &str) {
        mock::select_set_value(self, cid(v))
    }
    pub fn value(&self) -> String {
        let mut c = mock::first(self);
        while let Some(x) = c {
            if mock::node_kind(&x) == mock::K_OPTION && unsafe { mock::SELECTED[x.js.mock_idx()] } {
                return mock::text(&x.js);
            }
            c = mock::next(&x);
        }
        String::new()
    }
    pub fn length(&self) -> u32 {
        self.child_element_count()
    }
    pub fn add_with_html_option_element(&self, o: &HtmlOptionElement) -> Result<(), JsValue> {
        self.append_child(o).map(|_| ())
    }
    pub fn remove_with_index(&self, i: i32) {
        let mut c = self.first_element_child();
        for _ in 0..i {
            c = c.and_then(|c| c.next_element_sibling());
        }
        if let Some(c) = c {
            c.remove();
        }
    }
    pub fn set_disabled(&self, _v: bool) {}
}
pub struct IntersectionObserverInit {}
impl IntersectionObserverInit {
    pub fn new() -> Self {
        Self {}
    }
    pub fn root(&mut self, _v: Option<&Element>) -> &mut Self {
        self
    }
    pub fn root_margin(&mut self, _v: &str) -> &mut Self {
        self
    }
    pub fn threshold(&mut self, _v: &JsValue) -> &mut Self {
        self
    }
    pub fn set_root(&self, _v: Option<&Element>) {}
    pub fn set_root_margin(&self, _v: &str) {}
}
impl IntersectionObserver {
    pub fn new(f: &Function) -> Result<IntersectionObserver, JsValue> {
        Self::new_with_options(f, &IntersectionObserverInit::new())
    }
    pub fn new_with_options(
        f: &Function,
        _o: &IntersectionObserverInit,
    ) -> Result<IntersectionObserver, JsValue> {
        unsafe {
            let v = &mut *&raw mut mock::OBSERVERS;
            v.push(mock::Obs { func: f.js.raw, targets: vec![], live: true });
            Ok(IntersectionObserver {
                js: JsValue::mock(kind::OBJECT, v.len() as u32 - 1),
            })
        }
    }
    fn o(&self) -> &mut mock::Obs {
        unsafe { &mut (&mut *&raw mut mock::OBSERVERS)[self.js.mock_idx()] }
    }
    pub fn observe(&self, e: &Element) {
        let o = self.o();
        o.live = true;
        o.targets.push(e.js.raw);
    }
    pub fn unobserve(&self, e: &Element) {
        self.o().targets.retain(|x| *x != e.js.raw);
    }
    pub fn disconnect(&self) {
        let o = self.o();
        o.targets.clear();
        o.live = false;
    }
}
