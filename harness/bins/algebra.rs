//! Runs histories of operations on Flag, NameValue and NameArgs (spec/Algebra.tla).
//!
//! A case is `TYPE|f1 f2 f3|content of w1|content of w2|op;op;...`; the answer is the list of
//! observations after each operation, in the encoding of `Obs`.
use std::fmt::Write as _;
use structmeta::{Flag, NameArgs, NameValue, StructMeta};
use vharness::proc_macro2::{Span, TokenStream};
use vharness::{main_loop, span_range, syn};

/// Source tokens: number k stands at byte 2 * (k - 1).
fn span(k: usize) -> Option<Span> {
    match k {
        0 => None,
        1 => Some(Span::call_site()),
        _ => {
            let t: TokenStream = format!("{}t", " ".repeat(2 * (k - 1))).parse().unwrap();
            Some(t.into_iter().next().unwrap().span())
        }
    }
}
fn span_id(s: Span) -> String {
    match span_range(s) {
        (0, 0) => "1".into(),
        (a, b) if b == a + 1 && a % 2 == 0 => format!("{}", a / 2 + 1),
        r => format!("\"{r:?}\""),
    }
}
#[derive(StructMeta)]
struct P {
    f: Flag,
}

/// Equality that is neither symmetric nor derived.
#[derive(Clone, Copy)]
struct Asym(i32);
impl PartialEq for Asym {
    fn eq(&self, o: &Self) -> bool {
        self.0 <= o.0
    }
}

type It<'a, 'b> = &'a mut std::str::SplitWhitespace<'b>;
trait Content: Sized {
    fn read(it: It) -> Self;
    fn write(&self, o: &mut String);
}
fn word<'b>(it: It<'_, 'b>) -> &'b str {
    it.next().expect("HARNESS: content")
}
fn num(it: It) -> usize {
    word(it).parse().expect("HARNESS: number")
}
fn expect(it: It, w: &str) {
    assert!(word(it) == w, "HARNESS: content kind");
}
impl Content for i32 {
    fn read(it: It) -> Self {
        expect(it, "int");
        num(it) as i32
    }
    fn write(&self, o: &mut String) {
        write!(o, "{{\"k\":\"int\",\"n\":{self}}}").unwrap()
    }
}
impl Content for Asym {
    fn read(it: It) -> Self {
        expect(it, "asym");
        Asym(num(it) as i32)
    }
    fn write(&self, o: &mut String) {
        write!(o, "{{\"k\":\"asym\",\"n\":{}}}", self.0).unwrap()
    }
}
impl Content for f64 {
    fn read(it: It) -> Self {
        expect(it, "nan");
        f64::NAN
    }
    fn write(&self, o: &mut String) {
        o.push_str(if self.is_nan() { "{\"k\":\"nan\"}" } else { "{\"k\":\"number\"}" })
    }
}
impl Content for Flag {
    fn read(it: It) -> Self {
        expect(it, "flag");
        Flag { span: span(num(it)) }
    }
    fn write(&self, o: &mut String) {
        write!(o, "{{\"k\":\"flag\",\"s\":{}}}", self.span.map_or("0".into(), span_id)).unwrap()
    }
}
impl<T: Content> Content for Option<T> {
    fn read(it: It) -> Self {
        match word(it) {
            "none" => None,
            _ => Some(T::read(it)),
        }
    }
    fn write(&self, o: &mut String) {
        match self {
            None => o.push_str("{\"k\":\"none\"}"),
            Some(x) => {
                o.push_str("{\"k\":\"some\",\"v\":");
                x.write(o);
                o.push('}');
            }
        }
    }
}
impl<T: Content> Content for Vec<T> {
    fn read(it: It) -> Self {
        expect(it, "seq");
        let n = num(it);
        (0..n).map(|_| T::read(it)).collect()
    }
    fn write(&self, o: &mut String) {
        o.push_str("{\"k\":\"seq\",\"v\":[");
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            x.write(o);
        }
        o.push_str("]}");
    }
}
trait Wrapper: Content {
    fn respan(&mut self, s: Span);
    fn set_flag(&mut self, _: Flag) {
        panic!("HARNESS: into")
    }
}
macro_rules! wrapper {
    ($t:ident $field:ident $k:literal) => {
        impl<T: Content> Content for $t<T> {
            fn read(it: It) -> Self {
                expect(it, $k);
                let name_span = span(num(it)).expect("HARNESS: span");
                $t { name_span, $field: T::read(it) }
            }
            fn write(&self, o: &mut String) {
                write!(o, concat!("{{\"k\":\"", $k, "\",\"s\":{},\"v\":"), span_id(self.name_span)).unwrap();
                self.$field.write(o);
                o.push('}');
            }
        }
    };
}
wrapper!(NameValue value "nv");
wrapper!(NameArgs args "na");
macro_rules! wrapper_ops {
    ($($w:ty $(, $field:ident)?;)*) => { $(
        impl Wrapper for $w {
            fn respan(&mut self, s: Span) { self.name_span = s }
            $(fn set_flag(&mut self, x: Flag) { self.$field = x })?
        }
    )* };
}
wrapper_ops! {
    NameValue<i32>; NameArgs<i32>; NameValue<f64>; NameArgs<f64>; NameValue<Asym>; NameArgs<Asym>;
    NameValue<Flag>, value; NameArgs<Flag>, args;
    NameArgs<Option<NameValue<Flag>>>; NameValue<Vec<NameArgs<i32>>>;
}

fn obs<W: Wrapper + PartialEq>(f: &[Flag; 3], w: &[W; 2], o: &mut String) {
    o.push_str("{\"f\":[");
    let list = |o: &mut String, n: usize, g: &mut dyn FnMut(&mut String, usize)| {
        for i in 0..n {
            if i > 0 {
                o.push(',');
            }
            g(o, i);
        }
    };
    list(o, 3, &mut |o, i| o.push_str(&f[i].span.map_or("0".into(), span_id)));
    o.push_str("],\"val\":[");
    list(o, 3, &mut |o, i| write!(o, "{}", f[i].value()).unwrap());
    o.push_str("],\"eq\":[");
    // `==` and `!=` must be opposites
    #[allow(clippy::nonminimal_bool)]
    fn eq<T: PartialEq>(a: &T, b: &T) -> &'static str {
        match (a == b, a != b) {
            (true, false) => "true",
            (false, true) => "false",
            _ => "\"== and != agree\"",
        }
    }
    list(o, 3, &mut |o, i| {
        o.push('[');
        list(o, 3, &mut |o, j| o.push_str(eq(&f[i], &f[j])));
        o.push(']');
    });
    o.push_str("],\"w\":[");
    list(o, 2, &mut |o, i| w[i].write(o));
    o.push_str("],\"weq\":[");
    list(o, 2, &mut |o, i| {
        o.push('[');
        list(o, 2, &mut |o, j| o.push_str(eq(&w[i], &w[j])));
        o.push(']');
    });
    o.push_str("]}");
}

fn run<W: Wrapper + Clone + PartialEq>(text: &str, copy: Option<fn(&W) -> W>) -> String {
    let parts: Vec<&str> = text.split('|').collect();
    let ks: Vec<usize> = parts[0].split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut f = [0, 1, 2].map(|i| Flag { span: span(ks[i]) });
    let mut w = [1, 2].map(|i| W::read(&mut parts[i].split_whitespace()));
    let mut o = String::from("[");
    for (n, op) in parts[3].split(';').enumerate() {
        let mut it = op.split_whitespace();
        let name = word(&mut it);
        let i = num(&mut it) - 1;
        let a: Vec<usize> = it.map(|x| x.parse().expect("HARNESS: operand")).collect();
        match name {
            "default" => f[i] = Flag::default(),
            "none" => f[i] = Flag::NONE,
            "from" => f[i] = Flag::from(a[0] == 1),
            "build" => f[i] = Flag { span: span(a[0]) },
            "parse" => {
                let src = if a[0] == 0 { String::new() } else { format!("{}f", " ".repeat(2 * (a[0] - 1))) };
                f[i] = syn::parse_str::<P>(&src).expect("a flag does not parse").f
            }
            "clone" => f[i] = f[a[0] - 1].clone(),
            "or" => f[i] = f[a[0] - 1].clone() | f[a[1] - 1].clone(),
            "orassign" => {
                let r = f[a[0] - 1].clone();
                f[i] |= r
            }
            "into" => w[i].set_flag(f[0].clone()),
            "wclone" => w[i] = w[a[0] - 1].clone(),
            "wcopy" => w[i] = copy.expect("HARNESS: copy")(&w[a[0] - 1]),
            "respan" => w[i].respan(span(a[0]).expect("HARNESS: span")),
            _ => panic!("HARNESS: operation {name}"),
        }
        if n > 0 {
            o.push(',');
        }
        obs(&f, &w, &mut o);
    }
    o.push(']');
    o
}

fn main() {
    main_loop(|d, _, text| match d {
        1 => run::<NameValue<i32>>(text, Some(|x| *x)),
        2 => run::<NameArgs<i32>>(text, Some(|x| *x)),
        3 => run::<NameValue<f64>>(text, Some(|x| *x)),
        4 => run::<NameArgs<f64>>(text, Some(|x| *x)),
        5 => run::<NameValue<Asym>>(text, Some(|x| *x)),
        6 => run::<NameArgs<Asym>>(text, Some(|x| *x)),
        7 => run::<NameValue<Flag>>(text, None),
        8 => run::<NameArgs<Flag>>(text, None),
        9 => run::<NameArgs<Option<NameValue<Flag>>>>(text, None),
        10 => run::<NameValue<Vec<NameArgs<i32>>>>(text, None),
        _ => panic!("HARNESS: type"),
    })
}
