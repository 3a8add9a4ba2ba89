//! Style sheets from a grammar, with what the browser should get for each.
use crate::subject::expand;
use proc_macro2::{TokenStream, TokenTree};

/// A style sheet under construction: the input, and the same text with a mark
/// after every class name in a selector.
struct Sheet {
    inp: String,
    exp: String,
    classes: Vec<&'static str>,
}
const MARK: char = '\u{1}';

fn pick(n: u32) -> usize {
    nd::concretize(nd::fresh(0, n - 1)) as usize
}

const NAMES: [&str; 6] = ["a", "a-b", "_x", "b2", "-c", "ä"];

impl Sheet {
    fn new() -> Self {
        Sheet { inp: String::new(), exp: String::new(), classes: Vec::new() }
    }
    fn t(&mut self, s: &str) {
        self.inp.push_str(s);
        self.exp.push_str(s);
    }
    fn class(&mut self, c: &'static str) {
        self.t(".");
        self.t(c);
        self.exp.push(MARK);
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    fn any_class(&mut self) {
        self.class(NAMES[pick(NAMES.len() as u32)])
    }
    /// One piece of a selector; `first` when nothing precedes it.
    fn piece(&mut self, depth: u32) {
        match pick(13 + if depth > 0 { 3 } else { 0 }) {
            0 => self.any_class(),
            1 => self.t(" p"),
            2 => self.t("#a"),
            3 => self.t(":hover"),
            4 => self.t("::before"),
            5 => self.t("[a=\".q\"]"),
            6 => self.t("/* .q */"),
            7 => self.t(" > "),
            8 => self.t(","),
            9 => self.t("[b='q.a' i]"),
            10 => self.t(" *"),
            11 => self.t(":nth-child(2n + 1)"),
            12 => self.t("\n"),
            13 => {
                self.t(":not(");
                self.piece(depth - 1);
                self.t(")")
            }
            14 => {
                self.t(":is(");
                self.piece(depth - 1);
                self.t(", ");
                self.class("a");
                self.t(")")
            }
            _ => {
                self.t(":where(");
                self.class("a");
                self.t(")");
                self.class("b2")
            }
        }
    }
    fn decls(&mut self, any: bool) {
        match if any { pick(8) } else { 1 } {
            0 => self.t(""),
            1 => self.t("margin:.5em"),
            2 => self.t("content:'.q{}'; color: red;"),
            3 => self.t("background:url(x.y.png)"),
            4 => self.t("content:'\\201C'"),
            5 => self.t("content:\"`${a}\\\\\""),
            6 => self.t("--v:.q .a;/*.a{}*/"),
            _ => self.t("width:calc(1px + .2em)"),
        }
    }
    fn style_rule(&mut self, decls: bool) {
        match pick(4) {
            0 => self.any_class(),
            1 => {
                self.t("p ");
                self.class("a");
                self.class("b2")
            }
            2 => self.t("p"),
            _ => {
                self.class("b2");
                self.t(", ");
                self.class("a-b");
                self.t(":hover")
            }
        }
        self.t(" {");
        self.decls(decls);
        self.t("}")
    }
    fn rule(&mut self, depth: u32, top: bool, decls: bool) {
        let n = if depth > 0 { 10usize } else { 5 };
        match pick((n + if top { 2 } else { 0 }) as u32) {
            0 => self.style_rule(decls),
            1 => self.t("@font-face { src: url(f.woff) }"),
            2 => self.t("@keyframes k { from { top:.5px } 12.5% { top: 0 } to { top: 1px } }"),
            3 => self.t("/* .q { } */"),
            4 => self.t("@page { margin: .5cm }"),
            i if i < n => {
                self.t(match i {
                    5 => "@media (min-width: 1.5em) {",
                    6 => "@supports (top:.1px) {",
                    7 => "@container c (width > 1.5px){",
                    8 => "@layer l.m {\n",
                    // the names of at-rules are case-insensitive
                    _ => "@MediA print {",
                });
                self.rule(depth - 1, false, decls);
                self.style_rule(false);
                self.t("}")
            }
            i if i == n => self.t("@import 'b.css';"),
            _ => self.t("@layer p.q, r;"),
        }
        self.t("\n")
    }
}

/// What a macro expansion amounts to.
struct Expansion {
    consts: Vec<(String, String)>,
    css: String,
}

fn inline_js(ts: TokenStream) -> Option<String> {
    let mut prev: [String; 2] = Default::default();
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                if let Some(s) = inline_js(g.stream()) {
                    return Some(s);
                }
                prev = Default::default();
            }
            TokenTree::Literal(l) if prev[0] == "inline_js" && prev[1] == "=" => {
                return match rsyn::Lit::new(l) {
                    rsyn::Lit::Str(s) => Some(s.value()),
                    _ => None,
                };
            }
            t => {
                let [_, b] = prev;
                prev = [b, t.to_string()];
            }
        }
    }
    None
}

/// The value of a JavaScript string or template literal at the start of `s`
/// and what follows it; None if it is not a complete literal or if it has
/// substitutions.
fn js_literal(s: &str) -> Option<(String, &str)> {
    let mut it = s.char_indices();
    let (_, quote) = it.next()?;
    if !matches!(quote, '`' | '"' | '\'') {
        return None;
    }
    let mut out = String::new();
    let hex = |it: &mut std::str::CharIndices, n: usize| -> Option<char> {
        let mut v = 0;
        for _ in 0..n {
            v = v * 16 + it.next()?.1.to_digit(16)?;
        }
        char::from_u32(v)
    };
    while let Some((i, c)) = it.next() {
        match c {
            _ if c == quote => return Some((out, &s[i + c.len_utf8()..])),
            '\n' if quote != '`' => return None,
            '$' if quote == '`' && s[i + 1..].starts_with('{') => return None,
            '\\' => {
                let (j, e) = it.next()?;
                match e {
                    'n' => out.push('\n'),
                    't' => out.push('\t'),
                    'r' => out.push('\r'),
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'v' => out.push('\u{b}'),
                    '\n' => {}
                    '0' if !s[j + 1..].starts_with(|c: char| c.is_ascii_digit()) => out.push('\0'),
                    '0'..='9' if quote == '`' => return None,
                    '0'..='7' => {
                        let mut v = e.to_digit(8)?;
                        while let Some(d) = it.clone().next().and_then(|(_, c)| c.to_digit(8)) {
                            if v * 8 + d > 255 {
                                break;
                            }
                            v = v * 8 + d;
                            it.next();
                        }
                        out.push(char::from_u32(v)?)
                    }
                    'x' => out.push(hex(&mut it, 2)?),
                    'u' if s[j + 1..].starts_with('{') => {
                        it.next();
                        let mut v = 0u32;
                        loop {
                            match it.next()?.1 {
                                '}' => break,
                                c => v = v.checked_mul(16)?.checked_add(c.to_digit(16)?)?,
                            }
                        }
                        out.push(char::from_u32(v)?)
                    }
                    'u' => out.push(hex(&mut it, 4)?),
                    e => out.push(e),
                }
            }
            c => out.push(c),
        }
    }
    None
}

fn read(ts: TokenStream) -> Expansion {
    let js = match inline_js(ts.clone()) {
        Some(s) => s,
        None => nd::fail("[C30] the expansion has no script"),
    };
    // `export const NAME = LITERAL; ... = NAME;`
    let js = js.trim_start();
    let rest = js.strip_prefix("export const ").unwrap_or(js);
    let eq = rest.find('=').unwrap_or(0);
    let (css, _) = match js_literal(rest[(eq + 1).min(rest.len())..].trim_start()) {
        Some(x) => x,
        None => nd::fail("[C30] the script with the style sheet is not valid"),
    };
    // `pub const NAME: TYPE = "VALUE";`
    let mut consts = Vec::new();
    let ts: Vec<String> = ts.into_iter().map(|t| t.to_string()).collect();
    for i in 0..ts.len() {
        if ts[i] != "const" || i + 2 >= ts.len() || ts[i + 2] != ":" {
            continue;
        }
        nd::check(i > 0 && ts[i - 1] == "pub", "[C30] a constant is private");
        let Some(eq) = ts[i..].iter().position(|t| t == "=") else { continue };
        let value = match ts.get(i + eq + 1).map(|t| rsyn::parse_str::<proc_macro2::Literal>(t)) {
            Some(Ok(l)) => l,
            _ => continue,
        };
        if let rsyn::Lit::Str(s) = rsyn::Lit::new(value) {
            consts.push((ts[i + 1].clone(), s.value()));
        }
    }
    consts.sort();
    Expansion { consts, css }
}

/// Expands the sheet and compares; returns the suffix, if there is a class.
fn verify(s: &Sheet) -> Option<String> {
    let e = read(expand(&s.inp));
    let mut suffix: Option<String> = None;
    let mut want: Vec<(String, &str)> = s.classes.iter().map(|c| (c.replace('-', "_"), *c)).collect();
    want.sort();
    nd::check(e.consts.len() == want.len(), "[C30] not one constant for each class");
    for ((name, value), (w, class)) in e.consts.iter().zip(&want) {
        nd::check(name == w, "[C30] a constant is not named for its class");
        let suf = match value.strip_prefix(class) {
            Some(x) => x,
            None => nd::fail("[C30] a constant's value does not extend its class name"),
        };
        nd::check(
            !suf.is_empty() && suf.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'),
            "[C30] a class is given an unusable suffix",
        );
        match &suffix {
            None => suffix = Some(suf.to_string()),
            Some(x) => nd::check(x == suf, "[C30] classes of one sheet get different suffixes"),
        }
    }
    let mut exp = String::new();
    for c in s.exp.chars() {
        match c {
            MARK => exp.push_str(suffix.as_deref().unwrap_or("")),
            c => exp.push(c),
        }
    }
    nd::check(e.css == exp, "[C30] the style sheet is not the one given with its classes renamed");
    nd::trace(s.inp.len() as u64);
    nd::trace(s.classes.len() as u64);
    suffix
}

/// One style rule whose selector has `pieces` pieces, nested `wrap` deep in
/// functional pseudo-classes; the same selector in another sheet as well.
pub fn selectors(pieces: u32, wrap: u32) {
    let mut s = Sheet::new();
    for _ in 0..pieces {
        s.piece(wrap);
    }
    s.t("{top:.5em}");
    if !s.classes.is_empty() {
        nd::cover(1);
    } else {
        nd::cover(2);
    }
    let a = verify(&s);
    s.t(" ");
    let b = verify(&s);
    if a.is_some() {
        nd::check(a != b, "[C30] two sheets share a suffix");
    }
}

/// `n` rules of any kind, at-rules nested `depth` deep; with `decls`, the
/// declarations of one style rule in each are any as well.
pub fn rules(n: u32, depth: u32, decls: u32) {
    let mut s = Sheet::new();
    for _ in 0..n {
        s.rule(depth, true, decls != 0);
    }
    if s.classes.len() > 1 {
        nd::cover(1);
    }
    if s.inp.contains("@media") {
        nd::cover(2);
    }
    verify(&s);
}

/// Any printable characters where text is free: 0 in a string, 1 in a comment,
/// 2 in a declaration's value, 3 in an attribute selector, 4 in a url, 5 in a
/// comment between rules.
pub fn text(place: u32, holes: u32) {
    let mut s = Sheet::new();
    let mut hole = String::new();
    for _ in 0..holes {
        hole.push(nd::concretize(nd::fresh(0x20, 0x7e)) as u8 as char);
    }
    // what would end the place or pair up with what comes after it
    let bad: &[char] = match place {
        0 | 3 => &['"', '\\'],
        1 | 5 => &['*', '/'],
        2 => &['"', '\'', '\\', '/', '{', '}', '(', ')', '[', ']', '!'],
        _ => &['"', '\'', '\\', '(', ')', ' '],
    };
    let escape = matches!(place, 0 | 3) && hole.starts_with('\\') && hole.len() == 2;
    nd::assume(escape || !hole.contains(bad));
    s.class("a");
    match place {
        0 => {
            s.t("{content:\"");
            s.t(&hole);
            s.t("\"}")
        }
        1 => {
            s.t("{top:0/*");
            s.t(&hole);
            s.t("*/}")
        }
        2 => {
            s.t("{--x:");
            s.t(&hole);
            s.t(";}")
        }
        3 => {
            s.t("[x=\"");
            s.t(&hole);
            s.t("\"]{}")
        }
        4 => {
            s.t("{src:url(");
            s.t(&hole);
            s.t(")}")
        }
        _ => {
            s.t("{}/*");
            s.t(&hole);
            s.t("*/")
        }
    }
    s.class("b2");
    s.t(" {}");
    if hole.contains('`') {
        nd::cover(1);
    }
    if hole.starts_with("${") || hole.contains('\\') {
        nd::cover(2);
    }
    verify(&s);
}
