//! Run time part of the conformance harness: how observed values are written
//! down, and the types that generated declarations refer to.
//!
//! The encoding mirrors `Enc` in spec/MetaSpec.tla, with byte offsets into the
//! rendered input instead of token indices.

use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use syn::parse::{Parse, ParseStream};

pub use proc_macro2;
pub use quote;
pub use structmeta;
pub use syn;

pub trait Dump {
    fn dump(&self, o: &mut String);
}

pub fn json_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn span_range(s: Span) -> (i64, i64) {
    let r = s.byte_range();
    (r.start as i64, r.end as i64)
}
/// `["t", start, end]`: the byte range of the tokens and their text.
pub fn dump_tokens(t: TokenStream, o: &mut String) {
    let mut first = None;
    let mut last = None;
    let text = t.to_string();
    for tt in t {
        let r = span_range(tt.span());
        first = first.or(Some(r.0));
        last = Some(r.1);
    }
    write!(o, "[\"t\",{},{},", first.unwrap_or(-1), last.unwrap_or(-1)).unwrap();
    json_str(&text, o);
    o.push(']');
}
macro_rules! dump_leaf {
    ($($t:ty),*) => { $(impl Dump for $t {
        fn dump(&self, o: &mut String) { dump_tokens(self.to_token_stream(), o) }
    })* };
}
dump_leaf!(
    syn::LitInt, syn::LitStr, syn::LitBool, syn::Lit, syn::Ident, syn::Expr, syn::Path, syn::Type,
    TokenStream,
    syn::Token![,], syn::Token![;], syn::Token![=], syn::Token![+], syn::Token![=>],
    syn::Token![fn], syn::Token![type], syn::Token![->], syn::Token![==]
);
// ------------------------------------------------------------ Parse / ToTokens

/// `["d", opener, start of the opener, end of the closer]`
fn dump_delim(c: char, s: proc_macro2::extra::DelimSpan, o: &mut String) {
    let (a, b) = (span_range(s.open()).0, span_range(s.close()).1);
    write!(o, "[\"d\",\"{c}\",{a},{b}]").unwrap();
}
macro_rules! delims {
    ($($t:ident $c:literal),*) => { $(
        impl Dump for syn::token::$t {
            fn dump(&self, o: &mut String) { dump_delim($c, self.span, o) }
        }
        impl Build for syn::token::$t {
            fn build(c: &mut Cur) -> Self {
                assert!(c.next() == $c.to_string(), "HARNESS: delimiter");
                Default::default()
            }
        }
    )* };
}
delims!(Paren '(', Bracket '[', Brace '{');
impl Dump for syn::MacroDelimiter {
    fn dump(&self, o: &mut String) {
        match self {
            syn::MacroDelimiter::Paren(d) => d.dump(o),
            syn::MacroDelimiter::Bracket(d) => d.dump(o),
            syn::MacroDelimiter::Brace(d) => d.dump(o),
        }
    }
}
impl<T: Dump> Dump for Box<T> {
    fn dump(&self, o: &mut String) {
        (**self).dump(o)
    }
}
impl<T: Dump, P: Dump> Dump for syn::punctuated::Punctuated<T, P> {
    fn dump(&self, o: &mut String) {
        o.push_str("[\"l\",[");
        let mut n = 0;
        for p in self.pairs() {
            if n > 0 {
                o.push(',');
            }
            p.value().dump(o);
            if let Some(p) = p.punct() {
                o.push(',');
                p.dump(o);
            }
            n += 1;
        }
        o.push_str("]]");
    }
}

/// Values constructed from a description (see tools/treegen.py, `build_text`).
pub struct Cur<'a>(pub std::str::Split<'a, char>);
impl Cur<'_> {
    pub fn next(&mut self) -> &str {
        self.0.next().expect("HARNESS: value description too short")
    }
    pub fn num(&mut self) -> usize {
        self.next().parse().expect("HARNESS: number")
    }
}
pub trait Build {
    fn build(c: &mut Cur) -> Self;
}
macro_rules! build_leaf {
    ($($t:ty),*) => { $(impl Build for $t {
        fn build(c: &mut Cur) -> Self { syn::parse_str(c.next()).expect("HARNESS: value") }
    })* };
}
build_leaf!(
    syn::LitInt, syn::LitStr, syn::Expr, TokenStream,
    syn::Token![,], syn::Token![;], syn::Token![+], syn::Token![fn], syn::Token![type], syn::Token![->]
);
impl Build for syn::Ident {
    fn build(c: &mut Cur) -> Self {
        use syn::parse::Parser;
        syn::ext::IdentExt::parse_any.parse_str(c.next()).expect("HARNESS: ident")
    }
}
impl Build for syn::MacroDelimiter {
    fn build(c: &mut Cur) -> Self {
        match c.next() {
            "(" => syn::MacroDelimiter::Paren(Default::default()),
            "[" => syn::MacroDelimiter::Bracket(Default::default()),
            "{" => syn::MacroDelimiter::Brace(Default::default()),
            _ => panic!("HARNESS: delimiter"),
        }
    }
}
impl<T: Build> Build for Option<T> {
    fn build(c: &mut Cur) -> Self {
        if c.next() == "n" { None } else { Some(T::build(c)) }
    }
}
impl<T: Build> Build for Box<T> {
    fn build(c: &mut Cur) -> Self {
        Box::new(T::build(c))
    }
}
impl<T: Build, P: Build> Build for syn::punctuated::Punctuated<T, P> {
    fn build(c: &mut Cur) -> Self {
        let n = c.num();
        let mut r = Self::new();
        for i in 0..n {
            if i % 2 == 0 {
                r.push_value(T::build(c))
            } else {
                r.push_punct(P::build(c))
            }
        }
        r
    }
}

/// The tokens of a stream, groups flattened, and where they are.
pub fn flatten(ts: TokenStream, o: &mut Vec<String>) {
    let mut spans = Vec::new();
    flatten_at(ts, o, &mut spans);
}
fn flatten_at(ts: TokenStream, o: &mut Vec<String>, at: &mut Vec<(i64, i64)>) {
    use proc_macro2::{Delimiter, Spacing, TokenTree};
    let mut joint = false;
    for t in ts {
        let mut was_joint = false;
        let span = span_range(t.span());
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    // (the invisible groups of the input may be printed again)
                    Delimiter::None if hiding() => {
                        flatten_at(g.stream(), o, at);
                        continue;
                    }
                    Delimiter::None => ("<none>", "</none>"),
                };
                o.push(a.into());
                at.push(span_range(g.span_open()));
                flatten_at(g.stream(), o, at);
                o.push(b.into());
                at.push(span_range(g.span_close()));
            }
            TokenTree::Ident(i) => {
                o.push(i.to_string());
                at.push(span);
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                match s.strip_prefix('-') {
                    Some(n) => {
                        o.extend(["-".to_string(), n.to_string()]);
                        at.extend([span, span]);
                    }
                    None => {
                        o.push(s);
                        at.push(span);
                    }
                }
            }
            TokenTree::Punct(p) => {
                if joint {
                    o.last_mut().unwrap().push(p.as_char());
                    at.last_mut().unwrap().1 = span.1;
                } else {
                    o.push(p.as_char().to_string());
                    at.push(span);
                }
                was_joint = p.spacing() == Spacing::Joint;
            }
        }
        joint = was_joint;
    }
}
fn dump_printed<T: ToTokens>(v: &T, o: &mut String) {
    let mut ts = v.to_token_stream();
    let (mut toks, mut at) = (Vec::new(), Vec::new());
    flatten_at(ts.clone(), &mut toks, &mut at);
    // appending to a stream that is not empty must keep what it has
    let mut pre: TokenStream = quote::quote!(pre);
    v.to_tokens(&mut pre);
    let mut toks2 = Vec::new();
    flatten(pre, &mut toks2);
    if toks2.first().map(|s| s.as_str()) != Some("pre") || toks2[1..] != toks[..] {
        toks.insert(0, "<not appended>".into());
    }
    ts = v.into_token_stream();
    let mut toks3 = Vec::new();
    flatten(ts, &mut toks3);
    o.push('[');
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        json_str(t, o);
    }
    o.push_str("],\"src\":[");
    for (i, (a, b)) in at.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{a},{b}").unwrap();
    }
    o.push(']');
}
/// Mode "str": parse the text, write down the value and what it prints.
pub fn tree_parse<T: Parse + Dump>(text: &str, print: Option<fn(&T, &mut String)>) -> String {
    let r = from_str::<T>(text);
    let p = match (&r, print) {
        (Ok(v), Some(f)) => {
            let mut p = String::from(",\"p\":");
            f(v, &mut p);
            p
        }
        _ => String::new(),
    };
    let mut o = dump_result(r);
    o.pop();
    o.push_str(&p);
    dump_prefix::<T>(text, &mut o);
    o.push('}');
    o
}
/// What is parsed when more may follow, and where the input then is (-1: at its end).
fn dump_prefix<T: Parse + Dump>(text: &str, o: &mut String) {
    use syn::parse::Parser;
    let _ = (|input: ParseStream| {
        let r = input.parse::<T>();
        let q = if input.cursor().eof() { -1 } else { span_range(input.cursor().span()).0 };
        write!(o, ",\"pre\":{{\"q\":{q},\"ok\":{}", r.is_ok()).unwrap();
        if let Ok(v) = r {
            o.push_str(",\"v\":");
            v.dump(o);
        }
        o.push('}');
        input.parse::<TokenStream>()
    })
    .parse2(hide(text.parse().expect("HARNESS: tokens")));
}
pub fn printer<T: ToTokens>() -> Option<fn(&T, &mut String)> {
    Some(dump_printed::<T>)
}
/// Mode "build": construct the described value and print it.
pub fn tree_build<T: Build + ToTokens>(text: &str) -> (T, String) {
    let mut c = Cur(text.split('\x1f'));
    let v = T::build(&mut c);
    assert!(c.0.next().is_none(), "HARNESS: value description too long");
    let mut o = String::from("{\"ok\":true,\"p\":");
    dump_printed(&v, &mut o);
    (v, o)
}
/// ... and parse what was printed.
pub fn tree_build_parse<T: Build + ToTokens + Parse + Dump>(text: &str) -> String {
    let (v, mut o) = tree_build::<T>(text);
    o.push_str(",\"v\":");
    v.dump(&mut o);
    o.push_str(",\"again\":");
    o.push_str(&dump_result(syn::parse2::<T>(v.to_token_stream())));
    o.push('}');
    o
}
impl Dump for bool {
    fn dump(&self, o: &mut String) {
        write!(o, "[\"b\",{self}]").unwrap();
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self, o: &mut String) {
        match self {
            None => o.push_str("[\"n\"]"),
            Some(v) => {
                o.push_str("[\"s\",");
                v.dump(o);
                o.push(']');
            }
        }
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self, o: &mut String) {
        o.push_str("[\"l\",[");
        for (i, v) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            v.dump(o);
        }
        o.push_str("]]");
    }
}
impl<T: Dump> Dump for HashMap<String, T> {
    fn dump(&self, o: &mut String) {
        o.push_str("[\"m\",[");
        let mut keys: Vec<_> = self.keys().collect();
        keys.sort();
        for (i, k) in keys.into_iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push('[');
            json_str(k, o);
            o.push(',');
            self[k].dump(o);
            o.push(']');
        }
        o.push_str("]]");
    }
}
impl Dump for structmeta::Flag {
    fn dump(&self, o: &mut String) {
        let (s, e) = self.span.map_or((-1, -1), span_range);
        // `value()` must agree with the span
        if self.value() != self.span.is_some() {
            o.push_str("[\"flag value differs from span\"]");
            return;
        }
        write!(o, "[\"f\",{s},{e}]").unwrap();
    }
}
impl<T: Dump> Dump for structmeta::NameValue<T> {
    fn dump(&self, o: &mut String) {
        let (s, e) = span_range(self.name_span);
        write!(o, "[\"v\",{s},{e},").unwrap();
        self.value.dump(o);
        o.push(']');
    }
}
impl<T: Dump> Dump for structmeta::NameArgs<T> {
    fn dump(&self, o: &mut String) {
        let (s, e) = span_range(self.name_span);
        write!(o, "[\"a\",{s},{e},").unwrap();
        self.args.dump(o);
        o.push(']');
    }
}

/// An identifier, keywords included.
pub struct AnyIdent(pub syn::Ident);
impl Parse for AnyIdent {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(AnyIdent(syn::ext::IdentExt::parse_any(input)?))
    }
}
impl Dump for AnyIdent {
    fn dump(&self, o: &mut String) {
        self.0.dump(o)
    }
}

/// Two identifiers with a comma between them.
pub struct Pair(syn::Ident, syn::Token![,], syn::Ident);
impl Parse for Pair {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Pair(input.parse()?, input.parse()?, input.parse()?))
    }
}
impl ToTokens for Pair {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens);
        self.1.to_tokens(tokens);
        self.2.to_tokens(tokens);
    }
}
/// A parenthesised identifier.
pub struct Grp(syn::token::Paren, syn::Ident);
impl Parse for Grp {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let content;
        let p = syn::parenthesized!(content in input);
        let x = content.parse()?;
        if !content.is_empty() {
            return Err(content.error("too much"));
        }
        Ok(Grp(p, x))
    }
}
impl ToTokens for Grp {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.surround(tokens, |tokens| self.1.to_tokens(tokens));
    }
}
dump_leaf!(Pair, Grp);
build_leaf!(syn::LitBool, Pair, Grp);

/// Types with a lifetime and with a constant parameter.
pub struct Lt<'a, T>(pub T, std::marker::PhantomData<&'a ()>);
pub struct Cn<const N: usize, T>(pub T);
impl<T: Parse> Parse for Lt<'_, T> {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Lt(input.parse()?, std::marker::PhantomData))
    }
}
impl<T: Parse, const N: usize> Parse for Cn<N, T> {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        assert!(N == 7, "HARNESS: N");
        Ok(Cn(input.parse()?))
    }
}
impl<T: ToTokens> ToTokens for Lt<'_, T> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens)
    }
}
impl<T: ToTokens, const N: usize> ToTokens for Cn<N, T> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens)
    }
}
impl<T: Dump> Dump for Lt<'_, T> {
    fn dump(&self, o: &mut String) {
        self.0.dump(o)
    }
}
impl<T: Dump, const N: usize> Dump for Cn<N, T> {
    fn dump(&self, o: &mut String) {
        self.0.dump(o)
    }
}
impl<T: Build> Build for Lt<'_, T> {
    fn build(c: &mut Cur) -> Self {
        Lt(T::build(c), std::marker::PhantomData)
    }
}
impl<T: Build, const N: usize> Build for Cn<N, T> {
    fn build(c: &mut Cur) -> Self {
        Cn(T::build(c))
    }
}
/// For the where clauses of generic items: what nobody can show for a type parameter without its predicate.
pub trait Every<'x> {
    type Out;
}
impl<'x, T: Dump> Every<'x> for T {
    type Out = Marker;
}
pub struct Marker;
pub trait Marked {}
impl Marked for Marker {}
impl Marked for [u8; 7] {}
impl<T: Dump> Marked for [T; 2] {}
impl<T: Dump> Marked for fn(T) -> T {}
/// Brings a local type out of a block.
pub trait Has {
    type It;
}

/// User types that have the name of a recognised type but another path.
/// Reading one reads its last generic argument, or an integer.
#[allow(non_camel_case_types)]
pub mod near {
    use super::*;
    use ::std::marker::PhantomData;
    macro_rules! near {
        ($($n:ident<$($g:ident),*>)*) => { $(
            pub struct $n<$($g,)* T = crate::syn::LitInt>(pub T $(, PhantomData<$g>)*);
            impl<$($g,)* T: Parse> Parse for $n<$($g,)* T> {
                fn parse(input: ParseStream) -> crate::syn::Result<Self> { Ok(Self(input.parse()? $(, PhantomData::<$g>)*)) }
            }
            impl<$($g,)* T: Dump> Dump for $n<$($g,)* T> {
                fn dump(&self, o: &mut ::std::string::String) { self.0.dump(o) }
            }
        )* };
    }
    near!(Option<> Vec<> NameValue<> NameArgs<> Flag<> bool<> HashMap<K>);
    pub struct String;
    pub type MacroDelimiter = crate::syn::token::Paren;
    /// One generic argument more.
    pub mod more {
        use super::*;
        near!(Option<A> Vec<A> NameValue<A> NameArgs<A> Flag<> bool<> HashMap<A, B>);
        pub struct String<T>(T);
    }
    /// One fewer, or none.
    pub mod fewer {
        use super::*;
        near!(Option<> Vec<> NameValue<> NameArgs<> HashMap<>);
    }
    /// An argument that is not a type.
    pub mod constant {
        use super::*;
        macro_rules! constant {
            ($($n:ident)*) => { $(
                pub struct $n<const N: usize>(pub crate::syn::LitInt);
                impl<const N: usize> Parse for $n<N> {
                    fn parse(input: ParseStream) -> crate::syn::Result<Self> { Ok(Self(input.parse()?)) }
                }
                impl<const N: usize> Dump for $n<N> {
                    fn dump(&self, o: &mut ::std::string::String) { self.0.dump(o) }
                }
            )* };
        }
        constant!(Option Vec NameValue NameArgs);
    }
    macro_rules! mods { ($($m:ident)*) => { $(pub mod $m { pub use super::*; })* }; }
    mods!(option vec collections hash_map string primitive structmeta syn core alloc);
    pub mod std { pub use super::*; }
    /// The same names as associated types.
    pub trait Assoc {
        type Option<T: Parse + Dump>: Parse + Dump;
        type Vec<T: Parse + Dump>: Parse + Dump;
        type NameValue<T: Parse + Dump>: Parse + Dump;
        type NameArgs<T: Parse + Dump>: Parse + Dump;
        type HashMap<K, T: Parse + Dump>: Parse + Dump;
        type Flag: Parse + Dump;
        type bool: Parse + Dump;
        type MacroDelimiter;
    }
    pub struct Q;
    impl Assoc for Q {
        type Option<T: Parse + Dump> = Option<T>;
        type Vec<T: Parse + Dump> = Vec<T>;
        type NameValue<T: Parse + Dump> = NameValue<T>;
        type NameArgs<T: Parse + Dump> = NameArgs<T>;
        type HashMap<K, T: Parse + Dump> = HashMap<K, T>;
        type Flag = Flag;
        type bool = bool;
        type MacroDelimiter = MacroDelimiter;
    }
}

pub fn dump_result<T: Dump>(r: syn::Result<T>) -> String {
    let mut o = String::new();
    match r {
        Ok(v) => {
            o.push_str("{\"ok\":true,\"v\":");
            v.dump(&mut o);
        }
        Err(e) => {
            let (s, t) = span_range(e.span());
            write!(o, "{{\"ok\":false,\"at\":[{s},{t}],\"msg\":").unwrap();
            json_str(&e.to_string(), &mut o);
        }
    }
    o.push('}');
    o
}

/// Parses `text` as T: mode "attr" as the arguments of an attribute (the text
/// is the whole attribute), mode "str" with `syn::parse_str`.
pub fn parse_as<T: Parse>(mode: &str, text: &str) -> syn::Result<T> {
    use syn::parse::Parser;
    match mode {
        "attr" => {
            let attrs = syn::Attribute::parse_outer
                .parse_str(text)
                .expect("HARNESS: attribute does not parse");
            let mut a = attrs[0].clone();
            if let syn::Meta::List(l) = &mut a.meta {
                l.tokens = hide(std::mem::take(&mut l.tokens));
            }
            a.parse_args::<T>()
        }
        "str" => from_str::<T>(text),
        _ => panic!("HARNESS: mode {mode}"),
    }
}

thread_local! {
    /// The byte ranges of the input that are put into invisible groups, the inner ones last.
    static HIDDEN: std::cell::RefCell<Vec<(i64, i64)>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn hiding() -> bool {
    HIDDEN.with(|h| !h.borrow().is_empty())
}
/// The stream with the invisible (None-delimited) groups of the case put in.
fn hide(ts: TokenStream) -> TokenStream {
    let ranges = HIDDEN.with(|h| h.borrow().clone());
    let mut n = 0;
    let r = ranges.into_iter().fold(ts, |ts, r| hide_range(ts, r, &mut n));
    assert!(n == HIDDEN.with(|h| h.borrow().len()), "HARNESS: invisible group");
    r
}
fn hide_range(ts: TokenStream, (a, b): (i64, i64), n: &mut usize) -> TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let (mut out, mut run) = (Vec::new(), Vec::new());
    for t in ts {
        let (s, e) = span_range(t.span());
        if a <= s && e <= b {
            run.push(t);
            if e == b {
                // (a range that is hidden already is hidden once more)
                let span = run[0].span().join(run.last().unwrap().span()).unwrap();
                let mut g = Group::new(Delimiter::None, run.drain(..).collect());
                g.set_span(span);
                out.push(TokenTree::Group(g));
                *n += 1;
            }
            continue;
        }
        assert!(run.is_empty(), "HARNESS: invisible group");
        out.push(match t {
            TokenTree::Group(g) if s <= a && b <= e => {
                let mut h = Group::new(g.delimiter(), hide_range(g.stream(), (a, b), n));
                h.set_span(g.span());
                TokenTree::Group(h)
            }
            t => t,
        });
    }
    out.into_iter().collect()
}
fn from_str<T: Parse>(text: &str) -> syn::Result<T> {
    if hiding() { syn::parse2::<T>(hide(text.parse()?)) } else { syn::parse_str::<T>(text) }
}
pub fn go<T: Parse + Dump>(mode: &str, text: &str) -> String {
    dump_result(parse_as::<T>(mode, text))
}

/// Reads cases `id \t declaration \t mode \t text` and answers `id \t result`.
pub fn main_loop(run: impl Fn(usize, &str, &str) -> String) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.splitn(4, '\t').collect();
        let d: usize = p[1].parse().unwrap();
        // mode "..+a-b,c-d": with these ranges in invisible groups
        let (mode, hidden) = p[2].split_once('+').unwrap_or((p[2], ""));
        let pair = |r: &str| r.split_once('-').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()));
        HIDDEN.set(hidden.split(',').filter_map(pair).collect());
        let r = match catch_unwind(AssertUnwindSafe(|| run(d, mode, &p[3].replace('\u{b}', "\n")))) {
            Ok(r) => r,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let mut o = String::from("{\"panic\":");
                json_str(&m, &mut o);
                o.push('}');
                o
            }
        };
        let mut out = stdout.lock();
        writeln!(out, "{}\t{}", p[0], r).unwrap();
    }
}
