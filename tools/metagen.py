"""StructMeta declarations: Rust text, observed outcomes in the spec's terms, random cases."""
import random
from toks import Input, real
from context import Context
import context
import noise

LEAVES = ("LitInt", "LitStr", "Ident", "AnyIdent", "Expr", "TokenStream", "LitBool", "Pair", "Grp")


PRELUDE_HOMES = {"Option": "std::option", "Vec": "std::vec", "HashMap": "std::collections", "String": "std::string",
                 "bool": "std::primitive", "Box": "std::boxed"}


def rust_ty(t, prefix="D", groups=None):
    """groups: collects the types that are passed through macro_rules `ty` fragments."""
    q = t.get("q", "")
    if q in ("gen", "lt", "cn"):
        return groups.ty(q, rust_ty(dict(t, q=""), prefix, groups))
    if q == "self":
        return "Self"
    if t["n"] == "@":
        s = "%s%d" % (prefix, t["a"][0])
    elif q == "const":
        return t["n"]
    else:
        s = "::".join(list(t["p"]) + [t["n"]])
        if getattr(groups, "scope", "") in ("prelude", "bare") and s in PRELUDE_HOMES and q in ("", "group", "group2"):
            s = "::%s::%s" % (PRELUDE_HOMES[s], s)
        if getattr(groups, "scope", "") == "types" and q == "":
            s = context.ALIASES.get(s, s)
        if t["a"]:
            args = noise.generics([rust_ty(x, prefix, groups) for x in t["a"]], getattr(groups, "number", 0))
        else:
            args = noise.no_generics(t["n"], getattr(groups, "number", 0))
        if q == "::":
            s = "::" + s
        elif q == "qself":
            s = "<near::Q as %s>::%s" % ("::".join(t["p"]), t["n"])
        elif q == "param":
            s = "<T>::" + t["n"]
        s += args
    if q in ("group", "group2") and groups is not None:
        groups.append((s, q))
        return "$t%d" % (len(groups) - 1)
    return s


# names that a scope gives another meaning
NEAR_MODS = "option vec collections hash_map string primitive structmeta syn core alloc std".split()
NEAR_TYPES = "Option Vec NameValue NameArgs HashMap".split()
SCOPES = {
    "user": "use vharness::near::{%s};" % ", ".join("self as " + m for m in NEAR_MODS),
    "more": "use vharness::near::more::{%s, Flag, bool, String};" % ", ".join(NEAR_TYPES),
    "fewer": "use vharness::near::fewer::{%s};" % ", ".join(NEAR_TYPES),
    "constant": "use vharness::near::constant::{Option, Vec, NameValue, NameArgs};",
    "qself": "use vharness::near::{%s};" % ", ".join("Assoc as " + m for m in NEAR_MODS),
    "param": "", "param2": "",
}


def scope_of(d):
    found = set()

    def walk(t):
        if t.get("q", "") in SCOPES:
            found.add(t["q"])
        if t["n"] != "@":
            for x in t["a"]:
                walk(x)
    for f in d["fields"]:
        walk(f["ty"])
    assert len(found) <= 1, found
    return found.pop() if found else ""


def attr_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def in_macros(decl, name, groups):
    """The declaration with its types `$t..` passed through macro_rules."""
    if groups:
        pat = ", ".join("$t%d:ty" % j for j in range(len(groups)))
        uses = ", ".join("$t%d" % j for j in range(len(groups)))
        args = ", ".join(t for t, _ in groups)
        decl = "macro_rules! mk_%s { (%s) => { %s } }" % (name, pat, decl)
        if "$" in args:     # a group within a group: one macro for every type
            decl += " " + "".join("macro_rules! mk%d_%s { (%s) => { %s!(%s); } } " % (
                k, name, ", ".join("$t%d:ty" % j for j in range(k)), "mk_" + name if k == len(groups) - 1 else "mk%d_%s" % (k + 1, name),
                ", ".join(["$t%d" % j for j in range(k)] + [groups[k][0]])) for k in reversed(range(len(groups))))
            decl += "mk0_%s!();" % name
        elif any(q == "group2" for _, q in groups):
            decl += " macro_rules! mk2_%s { (%s) => { mk_%s!(%s); } } mk2_%s!(%s);" % (name, pat, name, uses, name, args)
        else:
            decl += " mk_%s!(%s);" % (name, args)
    return decl


def rust_decl(d, i, prefix="D"):
    """A declaration on one line, and its Dump impl."""
    name = "%s%d" % (prefix, i)
    attrs = "#[derive(::structmeta::StructMeta)]"
    attrs += " " + noise.foreign(i, 99) + noise.lists("struct_meta", ['name_filter = "snake_case"'] if d["filter"] else [], i, 99)
    cx = Context(d, ["vharness::syn::parse::Parse"])
    cx.number = i
    fs, dumps = [], []
    for k, f in enumerate(d["fields"]):
        a = []
        if f["name"]:
            a.append("name = " + cx.literal(noise.string(real(f["name"]), i, k)))
        if f["unnamed"]:
            a.append("unnamed")
        old = ""
        if f["name"] and i % 3:             # of several names the last one counts
            other = d["fields"][(k + 1) % len(d["fields"])]
            stale = "name = " + noise.string(real(noise.pick(["old", f["id"] or "old", other["name"] or "old", other["id"] or "x"], i, k, 21)), i, k + 1)
            n = noise.pick(range(5), i, k, 22)
            if n == 0:
                old = "#[struct_meta(%s)] " % stale
            elif n == 1:
                a[0] = stale + ", " + a[0]
        pre = noise.foreign(i, k) + old + noise.lists("struct_meta", a, i, k) + noise.foreign(i, k, 1)
        ty = cx.whole_ty(rust_ty(f["ty"], prefix, cx))
        vis = "" if cx.scope in ("macro", "args") and k % 2 else noise.vis(i, k)
        if d["shape"] == "rec":
            fs.append("%s%s%s: %s" % (pre, vis, cx.ident(noise.raw(real(f["id"]), i, k)), ty))
            dumps.append("self." + real(f["id"]))
        else:
            fs.append("%s%s%s" % (pre, vis, ty))
            dumps.append("self.%d" % k)
    scope = scope_of(d)
    gen = "<T: near::Assoc = near::Q>" if scope.startswith("param") else cx.params()
    head = cx.ident(cx.type_name(name)) + gen
    if d["shape"] == "rec":
        body = "struct %s%s { %s }" % (head, cx.where(), ", ".join(fs))
    elif d["shape"] == "tup":
        body = "struct %s(%s)%s;" % (head, ", ".join(fs), cx.where())
    else:
        body = "struct %s%s;" % (head, cx.where())
    decl = attrs + " pub " + body
    decl = in_macros(decl, name, cx)
    if scope and not scope.startswith("param"):
        decl = "pub mod scope_%s { use super::*; %s %s } use scope_%s::*;" % (name, SCOPES[scope], decl, name)
    dump = "impl Dump for %s { fn dump(&self, o: &mut String) { o.push_str(\"[\\\"x\\\",[\"); %s o.push_str(\"]]\"); } }" % (
        name, " o.push(','); ".join("(%s).dump(o);" % x for x in dumps))
    return cx.finish(decl, name, dump)


def refs(d):
    r = set()

    def walk(t):
        if t["n"] == "@":
            r.add(t["a"][0])
        else:
            for x in t["a"]:
                walk(x)
    for f in d["fields"]:
        walk(f["ty"])
    return r


PRELUDE = """#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, unused_variables, unused_mut)]
use vharness::{Dump, go, main_loop, AnyIdent, Pair, Grp, near, Lt, Cn};
use std::collections::HashMap;
use structmeta::{Flag, NameValue, NameArgs};
use vharness::syn::{LitInt, LitStr, LitBool, Ident, Expr};
use vharness::proc_macro2::TokenStream;
use std::{collections, option, primitive, string, vec};
use std::collections::hash_map;
extern crate alloc;
"""


def closure(decls, want):
    seen, todo = set(), list(want)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(refs(decls[i - 1]))
    return sorted(seen)


def program(decls, top, prelude=PRELUDE):
    """Rust source for the declarations `top` (1-based); returns (source, {line: decl})."""
    lines = prelude.rstrip("\n").split("\n")
    where = {}
    for i in closure(decls, top):
        decl, dump = rust_decl(decls[i - 1], i)
        lines.append(decl)
        where[len(lines)] = i
        lines.append(dump)
    lines.append("fn main() { main_loop(|d, mode, text| match d {")
    for i in top:
        lines.append("%d => go::<D%d>(mode, text)," % (i, i))
    lines.append("_ => panic!(\"HARNESS: declaration\") }); }")
    return "\n".join(lines) + "\n", where


# ------------------------------------------------- observed outcomes as in the spec

def norm_obs(v, inp):
    """Observed value (byte offsets) -> encoding of MetaSpec!Enc (token numbers).
    Names whose span is not exactly one token, and token ranges that do not start and
    end at token borders, become -1."""
    k = v[0]
    if k == "t":
        if v[1] < 0:
            return ["t", 0, 0]
        return ["t", inp.start.get(v[1], -1), inp.end.get(v[2], -2) + 1]
    if k in ("n", "b"):
        return v
    if k == "s":
        return ["s", norm_obs(v[1], inp)]
    if k in ("l", "x"):
        return [k, [norm_obs(x, inp) for x in v[1]]]
    if k == "f":
        return ["f", 0 if v[1] < 0 else inp.name_at(v[1], v[2])]
    if k in ("v", "a"):
        return [k, inp.name_at(v[1], v[2]), norm_obs(v[3], inp)]
    if k == "m":
        return ["m", sorted([[n, norm_obs(x, inp)] for n, x in v[1]], key=repr)]
    return ["?", v]


def norm_spec(v):
    """MetaSpec!Enc -> canonical form (maps sorted, empty ranges alike)."""
    k = v[0]
    if k == "t":
        return ["t", 0, 0] if v[1] == v[2] else v
    if k == "s":
        return ["s", norm_spec(v[1])]
    if k in ("l", "x"):
        return [k, [norm_spec(x) for x in v[1]]]
    if k in ("v", "a"):
        return [k, v[1], norm_spec(v[2])]
    if k == "m":
        return ["m", sorted([[n, norm_spec(x)] for n, x in v[1]], key=repr)]
    return v


def no_spans(v):
    """Forget where names were (for all properties but C08)."""
    k = v[0]
    if k == "f":
        return ["f", 1 if v[1] else 0]
    if k in ("v", "a"):
        return [k, 0, no_spans(v[2])]
    if k == "s":
        return ["s", no_spans(v[1])]
    if k in ("l", "x"):
        return [k, [no_spans(x) for x in v[1]]]
    if k == "m":
        return ["m", [[n, no_spans(x)] for n, x in v[1]]]
    return v


# errors whose position / message the properties fix
AT_CLASSES = {"unknown", "style", "surplus", "order", "dup", "comma", "least", "leftover"}
MSG_CLASSES = {"unknown", "style", "dup", "least", "missing"}


def compare(vec, obs, inp, spans=False, msgs=False):
    """None, or what is different.  vec: from the spec; obs: from the code."""
    if "died" in obs:
        return "the parser " + obs["died"]
    if "panic" in obs:
        return "the parser panicked: " + obs["panic"]
    if vec["ok"] != obs["ok"]:
        return ("accepted, but the specification rejects it (%s)" % vec["c"]) if obs["ok"] else \
            "rejected (%s), but the specification accepts it" % obs["msg"]
    if vec["ok"]:
        a, b = norm_spec(vec["v"]), norm_obs(obs["v"], inp)
        if not spans:
            a, b = no_spans(a), no_spans(b)
        if a != b:
            return "value differs: specification %r, code %r" % (a, b)
        return None
    if spans and vec["c"] in AT_CLASSES and vec["at"]:
        at = inp.tok_at(obs["at"][0])
        if obs["at"] == [0, 0] or at != vec["at"]:
            return "error `%s` is at bytes %r (token %d), specification: token %d" % (
                obs["msg"], obs["at"], at, vec["at"])
    if msgs and vec["c"] in MSG_CLASSES:
        if obs["msg"] not in (vec["alt"] or [vec["msg"]]):
            return "message is %r, specification %r" % (obs["msg"], vec["alt"] or vec["msg"])
    return None


# ---------------------------------------------------------------- random cases

def T(n, *a):
    return {"p": [], "n": n, "a": list(a), "q": ""}


NAMES = ["a", "b", "c", "ab", "abc", "name", "value", "x1", "foo_bar", "fooBar", "r#type", "fn_", "cb", "_u", "^", "stra@e", "%x"]
MORE_NAMES = ["d%d" % i for i in range(12)] + ["span", "input", "index", "key", "args", "is_next", "unnamed_index", "temp_0", "e"]
LONG_NAMES = ["a_name_that_is_longer_than_all_the_other_names", "a_name_that_is_longer_than_all_the_other_nmaes", "x" * 33, "x" * 34, "_" * 3 + "q"]
MANY_NAMES = ["par%d" % i for i in range(100, 140)] + LONG_NAMES
# names that differ in little (case, underscores, r#, prefix)
ALIKE = [["get", "Get", "GET", "gEt", "_get", "get_", "__get", "gets", "ge", "g_et"], ["type", "Type", "type_", "_type", "TYPE", "types", "typ"],
         ["x", "X", "x_", "_x", "xx", "Xx", "x1", "X1"], ["release", "releases", "relative_path", "relativePath", "RelativePath", "realm", "a_path", "path"]]
ODD_NAMES = ["type", "fn", "Self", "ABC", "foo-bar", "", "self", "true", "r#x"]


class Gen:
    def __init__(self, rng, decls=None, greedy=True, nested=True, filters=True):
        self.r = rng
        self.decls = decls if decls is not None else []
        self.greedy, self.nested, self.filters = greedy, nested, filters
        self.calm = False

    def leaf(self, greedy=None):
        g = self.greedy if greedy is None else greedy
        r = self.r
        if self.nested and self.decls and r.random() < 0.12 and g:
            return {"p": [], "n": "@", "a": [r.randint(1, len(self.decls))], "q": ""}
        w = ["LitInt"] * 4 + ["Ident"] * 2 + ["Expr"] * 3 + ["LitStr"] * 2 + ["AnyIdent", "LitBool", "Pair", "Grp"]
        if g and r.random() < 0.25:
            return T("TokenStream")
        return T(r.choice(w))

    def named_ty(self):
        r = self.r
        k = r.randrange(14)
        g = r.random() < 0.3
        leaf = lambda: self.leaf(g)
        item = lambda: self.leaf(False)
        base = [
            lambda: T("bool"), lambda: T("Flag"), leaf, lambda: T("NameValue", leaf()),
            lambda: T("NameValue", T("Option", leaf())), lambda: T("NameArgs", self.leaf()),
            lambda: T("NameArgs", T("Option", self.leaf())), lambda: T("Vec", item()),
            lambda: T("NameArgs", T("Vec", item())),
            lambda: T("NameArgs", T("Option", T("Vec", item()))),
            leaf, lambda: T("Flag"), lambda: T("NameValue", T("Option", leaf())), lambda: T("Vec", item()),
        ][k]()
        if base["n"] not in ("bool", "Flag") and r.random() < 0.55:
            return T("Option", base)
        return base

    def rest_ty(self):
        while True:
            t = self.named_ty()
            if t["n"] not in ("bool", "Flag", "Option"):
                return T("HashMap", T("String"), t)

    def decl(self, max_fields=6):
        r = self.r
        wide = r.random() < 0.12
        huge = wide and r.random() < 0.25
        n = r.randint(20, 45) if huge else r.randint(9, 16) if wide else r.randint(0, max_fields)
        names = NAMES + MORE_NAMES + (MANY_NAMES if huge else []) if wide else NAMES + LONG_NAMES if r.random() < 0.1 else NAMES
        if not huge and r.random() < 0.12:
            names = r.choice(ALIKE)
            names = [n for n in names if n != "type"] + (["r#type"] if "type" in names else [])
        tup = r.random() < 0.3
        fields, used = [], set()
        stage = 0          # 0 required, 1 optional, 2 after variadic
        rest = False
        for k in range(n):
            c = r.random()
            if c < (0.03 if huge else 0.1) and not rest:
                rest = True
                f = {"ty": self.rest_ty(), "name": "", "unnamed": r.random() < 0.1}
                kind = "rest"
            elif c < 0.45 and stage < 2:
                if stage == 0 and r.random() < (0.8 if huge else 0.5):
                    ty = self.leaf(r.random() < 0.1)
                elif r.random() < (0.97 if huge else 0.75):
                    stage, ty = 1, T("Option", self.leaf(r.random() < 0.1))
                else:
                    stage, ty = 2, T("Vec", self.leaf(r.random() < 0.1))
                f = {"ty": ty, "name": "", "unnamed": True}
                kind = "un"
            else:
                f = {"ty": self.named_ty(), "name": "", "unnamed": False}
                kind = "named"
            f["id"] = ""
            if kind == "named":
                cand = [x for x in names if x.replace("r#", "") not in used]
                odd = [x for x in ODD_NAMES if x not in used and x]
                if not cand:
                    continue
                if tup or r.random() < 0.15:
                    nm = r.choice(odd) if odd and r.random() < 0.3 else r.choice(cand).replace("r#", "")
                    if nm in used:
                        continue
                    f["name"] = nm
                    used.add(nm)
                    f["id"] = "" if tup else "q%d" % k
                else:
                    f["id"] = r.choice(cand)
                    used.add(f["id"].replace("r#", ""))
            elif tup:
                if kind == "un":
                    f["unnamed"] = r.random() < 0.15
            else:
                f["id"] = "u%d" % k
            fields.append(f)
        shape = "tup" if tup else "rec"
        if not fields and r.random() < 0.3:
            shape = "unit"
        return {"shape": shape, "filter": self.filters and r.random() < 0.25, "fields": fields}

    # ---- inputs ---------------------------------------------------------------
    def value(self, ty, depth=0):
        r, n = self.r, ty["n"]
        if n == "@":
            return self.args(self.decls[ty["a"][0] - 1], depth + 1)
        if not self.calm and r.random() < 0.04:
            return r.choice([["1"], ["x"], ["'s"], ["type"], ["(", "1", ")"], [], ["="], ["-", "1"], ["[", "1", ",", "x", "]"]])
        if n == "LitInt":
            return r.choice([["1"], ["2"], ["30"], ["-", "1"]])
        if n == "LitStr":
            return r.choice([["'s"], ["'long"]])
        if n == "Ident":
            return [r.choice(["x", "y", "a", "b", "r#type", "Zed", "_q", "^"])]
        if n == "AnyIdent":
            return [r.choice(["x", "a", "type", "fn", "self", "_", "r#x"])]
        if n == "LitBool":
            return [r.choice(["true", "false"])]
        if n == "Pair":
            return r.choice([["x", ",", "y"], ["a", ",", "r#b"], ["x", ",", "x"]])
        if n == "Grp":
            return r.choice([["(", "x", ")"], ["(", "a", ")"]])
        if n == "Expr":
            return r.choice([["1"], ["x"], ["a"], ["'s"], ["f", "(", "x", ",", "1", ")"], ["(", ")"], ["-", "x"], ["!", "x"], ["*", "1"], ["x", "*", "1"], ["x", "!", "(", ",", ")"],
                             ["(", "a", ",", ")"], ["x", "==", "1"], ["a", "==", "b"], ["[", "1", ",", "2", "]"],
                             ["self"], ["a", "=", "2"], ["f", "(", ")", "(", "1", ")"], ["(", "a", "=", "1", ")"]])
        if n == "TokenStream":
            return r.choice([["x"], [], ["a", "b"], ["=", "1"], ["{", "x", ",", "}"], ["1", ",", "a"], ["==", "=>"], ["(", ")", "x"]])
        return ["1"]

    def items(self, ty, depth):
        r = self.r
        out = []
        for k in range(r.choice([0, 1, 1, 2, 2, 3]) if r.random() < 0.985 or depth > 1 else r.choice([9, 17, 33])):
            if k:
                out.append(",")
            out += self.value(ty, depth)
        if out and r.random() < 0.2:
            out.append(",")
        if r.random() < 0.03:
            out.append(r.choice([",", "x", "1"]))
        return out

    def named_arg(self, name, t, depth, style=None):
        """tokens of a named argument for field type t (Option / HashMap removed)"""
        r = self.r
        n = t["n"]
        if n in ("bool", "Flag"):
            styles, inner, vec = ["flag"], T("LitInt"), False
        elif n == "NameValue":
            i = t["a"][0]
            o = i["n"] == "Option"
            styles, inner, vec = (["flag", "value"] if o else ["value"]), (i["a"][0] if o else i), False
        elif n == "NameArgs":
            i = t["a"][0]
            o = i["n"] == "Option"
            j = i["a"][0] if o else i
            vec = j["n"] == "Vec"
            styles, inner = (["flag", "args"] if o else ["args"]), (j["a"][0] if vec else j)
        elif n == "Vec":
            styles, inner, vec = ["args"], t["a"][0], True
        else:
            styles, inner, vec = ["value"], t, False
        st = style or (r.choice(styles) if self.calm or r.random() < 0.93 else r.choice(["flag", "value", "args", "br"]))
        if st == "flag":
            return [name]
        if st == "value":
            v = self.value(inner, depth)
            eq = "=~" if v and v[0] in "-!*" and r.random() < 0.5 else "="
            return [name, eq] + v
        if st == "args":
            return [name, "("] + (self.items(inner, depth) if vec else self.value(inner, depth)) + [")"]
        return [name, "[", "1", "]"]

    def args(self, d, depth=0):
        r = self.r
        if depth > 3:
            return []
        if depth == 0:
            self.calm = len(d["fields"]) > 19 and r.random() < 0.7
        pos, named = [], []
        for f in d["fields"]:
            t = f["ty"]
            if t["n"] == "HashMap":
                many = depth == 0 and r.random() < 0.02
                for nm in r.sample(["k1", "a", "b", "zz", "type", "r#k", "K", "ab", "@", "^a", "_", "self", "true"] + (["m%d" % i for i in range(24)] if many else []), r.choice([9, 17, 30]) if many else r.choice([0, 1, 1, 2])):
                    named.append(self.named_arg(nm, t["a"][1], depth))
                continue
            name = "" if f["unnamed"] else (f["name"] or f["id"].replace("r#", "", 1))
            if name:
                u = t["a"][0] if t["n"] == "Option" else t
                if not (name[0].isalpha() or name[0] == "_") or "-" in name:
                    continue
                p = 1 if self.calm and t["n"] not in ("Option", "bool", "Flag") else 0.85 if t["n"] not in ("Option", "bool", "Flag") else 0.5
                if r.random() < p:
                    named.append(self.named_arg(name, u, depth))
                if r.random() < (0.004 if self.calm else 0.04):
                    named.append(self.named_arg(name, u, depth))
            elif t["n"] == "Option":
                if r.random() < 0.6:
                    pos.append(self.value(t["a"][0], depth))
            elif t["n"] == "Vec":
                for _ in range(r.choice([0, 0, 1, 2, 3]) if r.random() < 0.98 or depth else r.choice([10, 20, 33])):
                    pos.append(self.value(t["a"][0], depth))
            elif r.random() < 0.97:
                pos.append(self.value(t, depth))
        if r.random() < 0.8:
            r.shuffle(named)
        if r.random() < 0.05:
            named.append([r.choice(["a", "bb", "ac", "acb", "nmae", "x2", "type", "zzz"])] + r.choice([[], ["=", "1"], ["(", ")"]]))
        if r.random() < 0.04:
            known = [x for x in (f["name"] or f["id"].replace("r#", "", 1) for f in d["fields"] if not f["unnamed"]) if x]
            nm = edited(r, r.choice(known)) if known else ""
            if nm:
                named.append([nm] + r.choice([[], ["=", "1"], ["(", ")"]]))
        parts = pos + named
        if r.random() < 0.06:
            r.shuffle(parts)
        if r.random() < 0.05:
            parts.append(r.choice([["1"], ["x"], ["'s"], ["a"], ["(", "1", ")"]]))
        if r.random() < 0.03 and parts:
            parts.pop(r.randrange(len(parts)))
        out = []
        for k, p in enumerate(parts):
            if k:
                out += [","] if self.calm or r.random() < 0.985 else r.choice([[], [",", ","], [";"], [";"], [":"], ["->"]])
            out += p
        if out and r.random() < 0.25:
            out.append(",")
        if r.random() < 0.01:
            out = [","] + out
        return out


def edited(r, s):
    """the name s with a small change, "" if that is no name"""
    if r.random() < 0.25:
        s = r.choice([s.upper(), s.lower(), s.swapcase(), s.capitalize(), "_" + s, s + "_", s.strip("_"),
                      s[:r.randrange(len(s)) + 1], s[r.randrange(len(s)):], s + s, s.replace("_", "")])
        k = 0
    else:
        k = r.choice([1, 1, 1, 2])
    for _ in range(k):
        i = r.randrange(len(s) + 1)
        c = r.choice("abx_1")
        s = r.choice([s[:i] + c + s[i:], s[:i] + s[i + 1:], s[:i] + c + s[i + 1:], s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]])
    return s if s and (s[0].isalpha() or s[0] == "_") and "-" not in s and "#" not in s else ""


def glue_ok(toks):
    """`=~` must not merge into another operator of the specification's alphabet."""
    for a, b in zip(toks, toks[1:]):
        if a == "=~" and b in ("=", "=~", "==", "=>", ">", ","):
            return False
    return True


HOMES = {"Option": ["std option", "core option"], "Vec": ["std vec", "alloc vec"],
         "HashMap": ["std collections", "std collections hash_map"], "String": ["std string", "alloc string"],
         "bool": ["std primitive", "core primitive"], "Flag": ["structmeta"], "NameValue": ["structmeta"],
         "NameArgs": ["structmeta"], "MacroDelimiter": ["syn"]}


def respell(t, r):
    """The same type written in another way; leaves also behind a user type of a recognised name."""
    if t["n"] in HOMES:
        h = r.choice(HOMES[t["n"]]).split()
        q = r.choice(["", "", "", "::", "group", "group2"])
        p = h if q == "::" else h[r.randint(0, len(h)):]
        return {"p": p, "n": t["n"], "a": [respell(x, r) for x in t["a"]], "q": q}
    if r.random() < 0.3:
        n = r.choice(["Option", "Vec", "NameValue", "NameArgs", "HashMap", "bool", "Flag"])
        if n in ("bool", "Flag"):
            if t["n"] != "LitInt":
                return t
            a = []
        else:
            a = [T("String"), t] if n == "HashMap" else [t]
        p = r.choice([["near"], ["vharness", "near"], ["near", "option"], ["near", "std", "vec"], ["near", "structmeta"],
                      ["near", "collections", "hash_map"], ["near", "std", "std"]])
        return {"p": p, "n": n, "a": a, "q": r.choice(["", "::" if p[0] == "vharness" else "", "group"])}
    return t


def respell_plain(t, r):
    """The same without macros and scopes."""
    t = respell(t, r)
    strip = lambda x: dict(x, q=x["q"] if x["q"] == "::" else "", a=[strip(y) for y in x["a"]])
    return strip(t)


def random_cases(seed, n_decls, n_inputs, spell=False, ctx=False, **kw):
    decls, cases = random_cases_(seed, n_decls, n_inputs, **kw)
    if ctx:
        r = random.Random(seed + "-ctx")
        decls = [dict(d, ctx=context.random_ctx(r),
                      fields=[dict(f, ty=context.mark(f["ty"], r, LEAVES + ("@",))) for f in d["fields"]]) for d in decls]
    if spell:
        r = random.Random(seed + "-spell")
        decls = [dict(d, fields=[dict(f, ty=respell(f["ty"], r)) for f in d["fields"]]) for d in decls]
    return decls, cases


def random_cases_(seed, n_decls, n_inputs, **kw):
    rng = random.Random(seed)
    decls, cases = [], []
    for i in range(n_decls):
        g = Gen(rng, decls, **kw)
        d = g.decl()
        decls.append(d)
        seen = set()
        for _ in range(n_inputs):
            t = Gen(rng, decls[:i], **kw).args(d)
            key = tuple(t)
            if key in seen or len(t) > 260 or (len(t) > (90 if len(d["fields"]) > 8 else 40) and rng.random() < 0.5) or not glue_ok(t):
                continue
            seen.add(key)
            cases.append((i + 1, t))
    return decls, cases


def fragments(toks):
    """Ranges of tokens that may stand in an invisible group: identifiers, literals, groups."""
    out = []
    for i, t in enumerate(toks, 1):
        if t in ("(", "[", "{"):
            d, j = 0, i
            while True:
                d += (toks[j - 1] in ("(", "[", "{")) - (toks[j - 1] in (")", "]", "}"))
                if d == 0:
                    break
                j += 1
            if i < 2 or toks[i - 2] != "!":             # not a part of a macro call
                out.append((i, j + 1))
        elif (i == len(toks) or toks[i] != "!") and (t[0] in "'_^@%&" or t[0].isalnum()):
            out.append((i, i + 1))
    return out


def random_hidden(rnd, toks):
    fs, p = fragments(toks), rnd.choice([0.2, 0.5, 1])
    fs = [f for f in fs if rnd.random() < p]
    return fs + [f for f in fs if rnd.random() < 0.1]
