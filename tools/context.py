"""Where and how a declaration is written down (C19): its generic parameters, the scope it stands in,
the macro it comes from.  Nothing of this may change what the derives make of it."""
import re

SCOPE_ITEMS = {
    # modules with the names of the crates that the generated code uses
    "shadow": "mod syn {} mod structmeta {} mod quote {} mod proc_macro2 {} mod std {} mod core {} mod alloc {} mod structmeta_derive {} "
              "mod helpers {} mod exports {} mod parse {} mod token {}",
    # other types, functions and macros with the names that the generated code uses
    "alias": "type Result<T> = ::std::result::Result<T, ()>; struct Error; struct Span; struct NameIndex; struct ParseStream; "
             "struct ParseBuffer; trait Parse {} trait ToTokens {} trait IdentExt {} trait StructMeta {} "
             "fn parse() {} fn to_tokens() {} fn try_parse_name() {} fn is_snake_case() {} fn parse_macro_delimiter() {} fn surround_macro_delimiter() {} "
             "macro_rules! parenthesized { ($($t:tt)*) => { () } } macro_rules! bracketed { ($($t:tt)*) => { () } } "
             "macro_rules! braced { ($($t:tt)*) => { () } } macro_rules! quote { ($($t:tt)*) => { () } } "
             "macro_rules! helpers_parse_macro_delimiter { ($($t:tt)*) => { () } }",
    # methods that everything has
    "methods": "trait Everything { fn parse(&self) {} fn is_empty(&self) {} fn fork(&self) {} fn error(&self) {} fn span(&self) {} fn peek(&self) {} "
               "fn peek2(&self) {} fn peek3(&self) {} fn surround(&self) {} fn parse_terminated(&self) {} "
               "fn is_some(&self) {} fn unwrap(&self) {} fn ok_or_else(&self) {} fn collect(&self) {} fn into_iter(&self) {} fn call_site() {} } "
               "impl<T: ?Sized> Everything for T {}",
}
# the names of the prelude (the types of fields are written with absolute paths there: metagen.rust_ty)
SCOPE_ITEMS["prelude"] = (
    "enum Prelude { Ok, Err, Some, None } use Prelude::{Ok, Err, Some, None}; "
    + " ".join("struct %s;" % n for n in "Option Vec String Box HashMap bool str char".split()) + " "
    + " ".join("trait %s {}" % n for n in "Into From Iterator IntoIterator FromIterator ToString ToOwned Clone Copy Default Drop PartialEq AsRef Extend".split()) + " "
    + " ".join("macro_rules! %s { ($($t:tt)*) => { compile_error!(\"shadowed\") } }" % n
               for n in "unreachable format vec panic matches assert assert_eq write concat stringify debug_assert todo unimplemented println eprintln".split())
    + " fn drop() {}")
SCOPE_ITEMS["bare"] = ""        # (no prelude at all: `finish`)
# the types of fields have other names: those of traits and types that the generated code uses or imports
ALIASES = {"Ident": "IdentExt", "LitInt": "Error", "LitStr": "NameIndex", "Expr": "ParseBuffer", "LitBool": "Span", "TokenStream": "Parse",
           "Punctuated": "ParseStream", "Pair": "Result", "Grp": "ToTokens", "Paren": "Surround", "Bracket": "Speculative", "Brace": "Delimiter",
           "AnyIdent": "PeekFn"}
SCOPE_ITEMS["types"] = ""       # (those that occur: `finish`)
SCOPE_ITEMS["all"] = " ".join(SCOPE_ITEMS[k] for k in ("shadow", "alias"))


# names of generic parameters: none may collide with what the generated code declares
LIFETIMES = ["'a", "'b", "'s", "'input", "'p", "'de", "'c", "'parse", "'i", "'buf", "'r", "'t", "'_a"]
TYPE_PARAMS = "T S P I R F E U V A O B C D G H K L M Q W X Y Z Parser Input Item Iter Output Value Parse_ Tokens".split()
CONSTS = ["N", "LEN", "INDEX", "COUNT", "NAMES", "M1", "ARGS", "FLAG_NAMES"]


class Context(list):
    """Collects what a declaration needs while it is written.  (As a list: the types behind macro_rules
    fragments, for metagen.in_macros.)"""

    def __init__(self, d, bounds):
        super().__init__()
        c = d.get("ctx") or {}
        self.scope, self.bound = c.get("scope", ""), c.get("bound", "inline")
        self.bounds = bounds            # what every type parameter has to implement
        self.types, self.lt, self.cn = [], False, False
        self.args = []                  # (fragment, text) of the macro
        self.number = None              # (set by the writer)

    # ---- names of the parameters
    def life(self):
        return LIFETIMES[(self.number or 0) // 2 % len(LIFETIMES)]

    def tp(self, k):
        i = (self.number or 0) // 2
        return "T%d" % k if i % 3 == 0 or k > 3 else TYPE_PARAMS[(i + k * 5) % len(TYPE_PARAMS)]

    def const(self):
        return CONSTS[(self.number or 0) // 3 % len(CONSTS)]

    # ---- parts of the declaration
    def ty(self, q, s):
        """a type written as `s`, with the marker q"""
        if q == "gen":
            if s not in self.types:
                self.types.append(s)
            return self.tp(self.types.index(s))
        if q == "lt":
            self.lt = True
            return "Lt<%s, %s>" % (self.life(), s)
        self.cn = True
        return "Cn<%s, %s>" % (self.const(), s)

    def frag(self, kind, s):
        if self.scope != "macro" or s == "":
            return s
        if (kind, s) not in self.args:
            self.args.append((kind, s))
        return "$x%d" % self.args.index((kind, s))

    def ident(self, s):
        return self.frag("ident", s)

    def literal(self, s):
        return self.frag("literal", s)

    def whole_ty(self, s):
        return s if "$" in s else self.frag("ty", s)

    # ---- the whole declaration
    def generic(self):
        return bool(self.types or self.lt or self.cn)

    def type_name(self, name):
        """what the item itself is called (its alias has the name `name`)"""
        return "G" + name[1:] if self.generic() else name

    def params(self):
        if not self.generic():
            return ""
        b = " + ".join(self.bounds)
        ps = [self.life()] if self.lt else []
        cs = (["const %s: usize" % self.const() + (" = 7" if self.bound == "default" else "")] if self.cn else [])
        ts = []
        for k, s in enumerate(self.types):
            ts.append(self.tp(k) + ("" if self.bound in ("where", "preds") else ": " + b) + (" = " + s if self.bound == "default" else ""))
        return "<%s>" % ", ".join(ps + (cs + ts if self.bound == "inline" else ts + cs))

    def where(self):
        if self.bound == "preds":          # all kinds of predicates, several for one parameter
            ws = []
            for k in range(len(self.types)):
                t = self.tp(k)
                ws += ["for<'x> %s: vharness::Every<'x>" % t] + ["%s: %s" % (t, b) for b in self.bounds] + [
                    "<%s as vharness::Every<'static>>::Out: vharness::Marked" % t, "[%s; 2]: vharness::Marked" % t,
                    "fn(%s) -> %s: vharness::Marked" % (t, t)]
            ws += ([self.life() + ": " + self.life(), "'static: " + self.life()] if self.lt else []) + (["[u8; %s]: vharness::Marked" % self.const()] if self.cn else [])
            return " where %s" % ", ".join(ws + ["Self: ::std::marker::Sized"]) + ("," if len(ws) % 2 else "")
        if self.bound != "where":
            return ""
        ws = ["%s: %s" % (self.tp(k), " + ".join(self.bounds)) for k in range(len(self.types))] + ([self.life() + ": " + self.life()] if self.lt else []) + ["Self: ::std::marker::Sized"]
        return " where %s" % ", ".join(ws)

    def alias(self, name):
        if not self.generic():
            return ""
        ls = ["'static"] if self.lt else []
        cs = ["7"] if self.cn else []
        args = ls if self.bound == "default" else ls + (cs + self.types if self.bound == "inline" else self.types + cs)
        return " pub type %s = G%s%s;" % (name, name[1:], "<%s>" % ", ".join(args) if args else "")

    def finish(self, decl, name, impls, items=""):
        """(one line with the declaration and its alias, the impls)"""
        if self.scope == "macro":
            decl = "macro_rules! mk_%s { (%s) => { %s } } mk_%s!(%s);" % (
                name, ", ".join("$x%d:%s" % (k, f) for k, (f, _) in enumerate(self.args)), decl, name, ", ".join(s for _, s in self.args))
        elif self.scope == "args":
            head, rest = decl.split("]", 1)         # the derive in the macro, all else from its arguments
            decl = "macro_rules! mk_%s { ($($t:tt)*) => { %s] $($t)* } } mk_%s! { %s }" % (name, head, name, rest)
        elif self.scope == "attr":
            head, rest = decl.split("]", 1)         # the derive from the arguments, all else in the macro
            decl = "macro_rules! mk_%s { ($($t:tt)*) => { $($t)* %s } } mk_%s!(%s]);" % (name, rest, name, head)
        decl += self.alias(name)
        if self.scope in SCOPE_ITEMS:
            used = ["%s as %s" % (a, b) for a, b in ALIASES.items() if self.scope == "types" and re.search(r"\b%s\b" % b, decl)]
            items = "use super::{%s};" % ", ".join(used) if used else SCOPE_ITEMS[self.scope]
            decl = "pub mod scope_%s { %suse super::*; %s %s } use scope_%s::{%s};" % (
                name, "#![no_implicit_prelude] use ::vharness; " if self.scope == "bare" else "", items, decl, name, name + (", " + self.type_name(name) if self.generic() else ""))
        elif self.scope == "block":
            decl = "pub struct Tag%s; pub type %s = <Tag%s as vharness::Has>::It; const _: () = { %s %s impl vharness::Has for Tag%s { type It = %s; } %s };" % (
                name, name, name, SCOPE_ITEMS["shadow"], decl, name, name, impls)
            impls = ""
        return decl, impls


SCOPES = ["", "shadow", "alias", "all", "prelude", "bare", "types", "methods", "block", "macro", "args", "attr"]
BOUNDS = ["inline", "where", "default", "preds"]
EDITIONS = ["2024", "2021", "2018"]
MARKS = ["gen", "lt", "cn"]


def random_ctx(r):
    return {"scope": r.choice(SCOPES), "bound": r.choice(BOUNDS)}


def mark(t, r, leaves, marks=MARKS):
    """some leaves of the type t through parameters of the item"""
    if t["n"] in leaves and t["q"] == "" and r.random() < 0.4:
        return dict(t, q=r.choice(marks))
    if t["n"] in ("@", "Option") and t["n"] in leaves or not t["a"]:
        return t
    k = 0 if t["n"] == "Punct" else len(t["a"]) - 1
    return dict(t, a=[mark(x, r, leaves, marks) if j == k else x for j, x in enumerate(t["a"])])
