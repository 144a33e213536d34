"""Parse / ToTokens declarations: Rust text, values, random cases (spec/Tree.tla)."""
import random
import metagen
from context import Context
import context
import noise
from toks import Input, render, real

TOKTY = {"Comma": ",", "Semi": ";", "Plus": "+", "FnKw": "fn", "TypeKw": "type", "Arrow": "->"}
DELIM = ("Paren", "Bracket", "Brace")
CLOSE = {"(": ")", "[": "]", "{": "}"}
OPEN = {v: k for k, v in CLOSE.items()}

PRELUDE = """#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, unused_variables, unused_mut, unreachable_code, unused_parens)]
use vharness::{Dump, Build, Cur, main_loop, tree_parse, tree_build, tree_build_parse, printer, syn, near, Lt, Cn, Pair, Grp};
use vharness::syn::{LitInt, LitStr, LitBool, Ident, Expr, Token, MacroDelimiter};
use vharness::syn::token::{Paren, Bracket, Brace};
use vharness::syn::punctuated::Punctuated;
use vharness::proc_macro2::TokenStream;
"""


def rust_ty(t, prefix="D", groups=None):
    n = t["n"]
    if t.get("q") in ("gen", "lt", "cn"):
        return groups.ty(t["q"], rust_ty(dict(t, q=""), prefix, groups))
    if t.get("q") == "self":
        return "Self"
    if n == "MacroDelimiter":
        return metagen.rust_ty(t, prefix, groups)
    if n == "@":
        return "%s%d" % (prefix, t["a"][0])
    if n in TOKTY:
        return "Token![%s]" % TOKTY[n]
    name = "Punctuated" if n == "Punct" else n
    s = "::".join(list(t["p"]) + [name])
    if getattr(groups, "scope", "") in ("prelude", "bare") and s in metagen.PRELUDE_HOMES:
        s = "::%s::%s" % (metagen.PRELUDE_HOMES[s], s)
    if getattr(groups, "scope", "") == "types" and t.get("q", "") == "":
        s = context.ALIASES.get(s, s)
    if t["a"]:
        s += noise.generics([rust_ty(x, prefix, groups) for x in t["a"]], getattr(groups, "number", 0))
    if t.get("q") == "::":
        s = "::" + s
    return s


def field_attrs(f, form, parse=True, lit=lambda s: s, text=lambda s: '"%s"' % s):
    """The attributes of a field.  `form` selects one of the equivalent ways to write them."""
    sym, args = f["sym"], [a for a, k in (("any", "any"), ("terminated", "term"), ("peek", "peek")) if f[k]]
    if form in (2, 3, 5):
        args.reverse()
    s, p = [], []
    if sym:
        if form in (0, 4):
            s = ['#[to_tokens(%s)]' % lit(text("".join(sym)))]
        elif form == 1:
            s = ["#[to_tokens(%s)]" % ", ".join(lit(text(c)) for c in sym)]
        elif form == 2:
            s = ['#[to_tokens(%s)]' % lit(text(c)) for c in sym]
        elif form == 3:
            s = ['#[to_tokens("", "%s",)]' % "".join(sym)]
        else:
            s = ['#[to_tokens("%s")]' % "".join(sym), "#[to_tokens()]"]
    if args and parse:
        if form in (0, 5):
            p = ["#[parse(%s)]" % ", ".join(args)]
        elif form in (1, 2):
            p = ["#[parse(%s)]" % a for a in args]
        elif form == 3:
            p = ["#[parse(%s,)]" % ", ".join(args)]
        else:
            p = ["#[parse(%s)]" % ", ".join(args + args)]
    if form in (2, 3):
        r = p + s
    elif form == 5 and len(s) > 1:
        r = s[:1] + p + s[1:]
    else:
        r = s + p
    return "".join(x + " " for x in r)


def body(v, form, vis, prefix, parse, cx, i, n=0):
    fs, pub = [], vis
    for k, f in enumerate(v["fields"]):
        if pub:
            vis = noise.vis(i, k)
        a = noise.foreign(i, k + 10 * n) + field_attrs(f, form, parse, cx.literal, lambda s: noise.string(s, i, k + 10 * n)) + noise.foreign(i, k, 1)
        ty = cx.whole_ty(rust_ty(f["ty"], prefix, cx))
        if cx.scope in ("macro", "args") and k % 2:
            vis = ""
        fs.append("%s%s%s" % (a, vis, (cx.ident(noise.raw(real(f["id"]), i, k + 10 * n)) + ": " + ty) if v["shape"] == "rec" else ty))
    if v["shape"] == "unit":
        return ""
    return (" { %s }" if v["shape"] == "rec" else "(%s)") % ", ".join(fs)


def patt(path, v, call):
    if v["shape"] == "unit":
        return path
    if v["shape"] == "rec":
        return "%s { %s }" % (path, ", ".join("%s: %s" % (real(f["id"]), call(k)) for k, f in enumerate(v["fields"])))
    return "%s(%s)" % (path, ", ".join(call(k) for k in range(len(v["fields"]))))


def derives(d):
    """which derives a declaration has: both, or only one (d["only"])"""
    only = d.get("only", "")
    return only != "ToTokens", only != "Parse"


def rust_decl(d, i, prefix="D"):
    name = "%s%d" % (prefix, i)
    form = d.get("form", 0)
    has_parse, has_tokens = derives(d)
    ds = (["::structmeta::Parse"] if has_parse else []) + (["::structmeta::ToTokens"] if has_tokens else [])
    attrs = "#[derive(%s)] %s" % (", ".join(ds), noise.foreign(i, 99))
    cx = Context(d, (["vharness::syn::parse::Parse"] if has_parse else []) + (["vharness::quote::ToTokens"] if has_tokens else []))
    cx.number = i
    own = lambda: cx.type_name(name)
    if d["kind"] == "struct":
        v = d["variants"][0]
        b = body(v, form, "pub ", prefix, has_parse, cx, i)
        head = cx.ident(noise.raw(own(), i, 77)) + cx.params()
        decl = "%s pub struct %s%s" % (attrs, head, cx.where() + b if v["shape"] == "rec" else b + cx.where() + ";")
        paths = [own()]
    else:
        vs = ["%s%s%s" % (noise.foreign(i, k, 7), cx.ident(noise.variant(i, k, len(d["variants"]))), body(v, form, "", prefix, has_parse, cx, i, k)) for k, v in enumerate(d["variants"])]
        decl = "%s pub enum %s%s%s { %s }" % (attrs, cx.ident(noise.raw(own(), i, 77)), cx.params(), cx.where(), ", ".join(vs))
        paths = ["%s::%s" % (own(), noise.variant(i, k, len(d["variants"]))) for k in range(len(d["variants"]))]
    decl = metagen.in_macros(decl, name, cx)
    scope = metagen.scope_of({"fields": [f for v in d["variants"] for f in v["fields"]]})
    if scope:
        decl = "pub mod scope_%s { use super::*; %s %s } use scope_%s::*;" % (name, metagen.SCOPES[scope], decl, name)
    arms, builds = [], []
    for k, v in enumerate(d["variants"]):
        n = len(v["fields"])
        arms.append("%s => { o.push_str(\"[\\\"x\\\",%d,[\"); %s o.push_str(\"]]\"); }" % (
            patt(paths[k], v, lambda j: "f%d" % j), k + 1,
            " o.push(','); ".join("f%d.dump(o);" % j for j in range(n))))
        builds.append("%d => { %s %s }" % (k + 1, " ".join("let f%d = Build::build(c);" % j for j in range(n)),
                                           patt(paths[k], v, lambda j: "f%d" % j)))
    dump = "impl Dump for %s { fn dump(&self, o: &mut String) { match %sself { %s } } }" % (name, "" if arms else "*", " ".join(arms))
    dump += " impl Build for %s { fn build(c: &mut Cur) -> Self { match c.num() { %s _ => panic!(\"HARNESS: variant\") } } }" % (
        name, " ".join(builds))
    return cx.finish(decl, name, dump)


def refs(d):
    r = set()

    def walk(t):
        if t["n"] == "@":
            r.add(t["a"][0])
        else:
            for x in t["a"]:
                walk(x)
    for v in d["variants"]:
        for f in v["fields"]:
            walk(f["ty"])
    return r


def closure(decls, want):
    seen, todo = set(), list(want)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo.extend(refs(decls[i - 1]))
    return sorted(seen)


def program(decls, top, prelude=PRELUDE):
    lines = prelude.rstrip("\n").split("\n")
    where = {}
    for i in closure(decls, top):
        decl, dump = rust_decl(decls[i - 1], i)
        lines.append(decl)
        where[len(lines)] = i
        lines.append(dump)
    lines.append("fn main() { main_loop(|d, mode, text| match (d, mode) {")
    for i in top:
        p, t = derives(decls[i - 1])
        if p:
            lines.append('(%d, "str") => tree_parse::<D%d>(text, %s),' % (i, i, "printer::<D%d>()" % i if t else "None"))
        if p and t:
            lines.append('(%d, "build") => tree_build_parse::<D%d>(text),' % (i, i))
        elif t:
            lines.append('(%d, "build") => tree_build::<D%d>(text).1 + "}",' % (i, i))
    lines.append("_ => panic!(\"HARNESS: declaration\") }); }")
    return "\n".join(lines) + "\n", where


# ------------------------------------------------------------------- values

def norm_obs(v, inp):
    k = v[0]
    if k == "t":
        return ["t", 0, 0] if v[1] < 0 else ["t", inp.start.get(v[1], -1), inp.end.get(v[2], -2) + 1]
    if k == "d":
        a, b = inp.start.get(v[2], -1), inp.end.get(v[3], -1)
        if a > 0 and inp.toks[a - 1] != v[1]:
            return ["d", "other delimiter recorded", v[1]]
        return ["d", a, b]
    if k == "n":
        return v
    if k == "s":
        return ["s", norm_obs(v[1], inp)]
    if k == "l":
        return ["l", [norm_obs(x, inp) for x in v[1]]]
    if k == "x":
        return ["x", v[1], [norm_obs(x, inp) for x in v[2]]]
    return ["?", v]


def norm_spec(v):
    k = v[0]
    if k == "t":
        return ["t", 0, 0] if v[1] == v[2] else v
    if k == "s":
        return ["s", norm_spec(v[1])]
    if k == "l":
        return ["l", [norm_spec(x) for x in v[1]]]
    if k == "x":
        return ["x", v[1], [norm_spec(x) for x in v[2]]]
    return v


def flat_text(toks):
    """The tokens as the harness prints them."""
    return [('"%s"' % t[1:] if t.startswith("'") else t.rstrip("~") if len(t) > 1 else t) for t in toks]


def build_text(v, toks):
    """Description of the value v (an Enc over the token pool toks) for Build."""
    out = []

    def go(v):
        k = v[0]
        if k == "t":
            out.append(render(toks[v[1] - 1:v[2] - 1])[0])
        elif k == "d":
            out.append(toks[v[1] - 1])
        elif k == "n":
            out.append("n")
        elif k == "s":
            out.append("s")
            go(v[1])
        elif k == "l":
            out.append(str(len(v[1])))
            for x in v[1]:
                go(x)
        elif k == "x":
            out.append(str(v[1]))
            for x in v[2]:
                go(x)
        else:
            raise ValueError(v)
    go(v)
    return "\x1f".join(out)


def text_only(v):
    """A dumped value without positions."""
    k = v[0]
    if k == "t":
        return ["t", v[3].replace(" ", "")]
    if k == "d":
        return ["d", v[1]]
    if k == "s":
        return ["s", text_only(v[1])]
    if k == "l":
        return ["l", [text_only(x) for x in v[1]]]
    if k == "x":
        return ["x", v[1], [text_only(x) for x in v[2]]]
    return v


def at_of(obs, inp):
    """token the error is located at (Len + 1: the end of the input)"""
    a, b = obs["at"]
    if a == b == 0:
        return len(inp.toks) + 1
    return inp.tok_at(a)


def prefix_at(pre, inp):
    return len(inp.toks) + 1 if pre["q"] < 0 else inp.tok_at(pre["q"])


def compare_prefix(vec, pre, inp):
    if vec["pok"] != pre["ok"]:
        return "as a prefix: %s, specification: %s" % (("rejected", "accepted")[pre["ok"]], ("rejected", "accepted")[vec["pok"]])
    if vec["pq"] and prefix_at(pre, inp) != vec["pq"]:
        return "as a prefix: the input is at token %d afterwards, specification: %d" % (prefix_at(pre, inp), vec["pq"])
    if vec["pok"]:
        a, b = norm_spec(vec["v"] if vec["ok"] else vec["pv"]), norm_obs(pre["v"], inp)
        if a != b:
            return "as a prefix: value differs: specification %r, code %r" % (a, b)


def sources(src, inp):
    """The tokens of the input at which printed tokens are located (-1: at none)."""
    r = []
    for a, b in zip(src[::2], src[1::2]):
        i, j = inp.start.get(a, -1), inp.end.get(b, -2)
        r.append(i if i == j else -1)
    return r


def compare(vec, obs, inp, at=False, source=False):
    if "died" in obs:
        return "the parser " + obs["died"]
    if "panic" in obs:
        return "the parser panicked: " + obs["panic"]
    if vec["ok"] != obs["ok"]:
        return ("accepted, but the specification rejects it (%s)" % vec["c"]) if obs["ok"] else \
            "rejected (%s), but the specification accepts it" % obs["msg"]
    bad = not vec["free"] and compare_prefix(vec, obs["pre"], inp)
    if bad:
        return bad
    if not vec["ok"]:
        if at and vec["at"] and at_of(obs, inp) != vec["at"]:
            return "error `%s` is at token %d, specification: token %d" % (obs["msg"], at_of(obs, inp), vec["at"])
        return None
    a, b = norm_spec(vec["v"]), norm_obs(obs["v"], inp)
    if a != b:
        return "value differs: specification %r, code %r" % (a, b)
    if "p" in obs and obs["p"] != flat_text(inp.toks):
        return "printing the parsed value gives %r" % (obs["p"],)
    if source and "p" in obs and sources(obs["src"], inp) != list(range(1, len(inp.toks) + 1)):
        return "the printed tokens come from %r" % (sources(obs["src"], inp),)
    return None


def compare_print(vec, obs):
    """vec: [d, t, v, out] from the specification; obs: mode build"""
    if "died" in obs:
        return "the printer " + obs["died"]
    if "panic" in obs:
        return "the printer panicked: " + obs["panic"]
    want = flat_text(vec["out"])
    if obs["p"] != want:
        return "prints %r, specification %r" % (obs["p"], want)
    if vec["again"] and "again" in obs:
        if not obs["again"]["ok"]:
            return "what it prints, %r, does not parse: %s" % (obs["p"], obs["again"]["msg"])
        a, b = text_only(obs["v"]), text_only(obs["again"]["v"])
        if a != b:
            return "parsing what it prints gives %r instead of %r" % (b, a)
    return None


# ------------------------------------------------------------------- random cases

def ty(n, *a):
    return {"p": [], "n": n, "a": list(a), "q": ""}


def random_decls(rnd, n):
    """Legal declarations; each refers only to earlier ones."""
    decls = []
    for i in range(1, n + 1):
        depth = {"n": 0}

        def value(term_ok=True):
            r = rnd.random()
            if i > 1 and r < 0.2:
                t = ty("@", rnd.randint(max(1, i - 12), i - 1))
                if rnd.random() < 0.2:
                    t = ty("Box", t)
            elif r < 0.5:
                t = ty("Ident")
            elif r < 0.75:
                t = ty(rnd.choice(["LitInt", "LitInt", "LitStr", "Comma", "Semi", "Plus", "FnKw", "TypeKw", "Arrow"]))
            elif r < 0.9:
                t = ty("Option", ty(rnd.choice(["Semi", "Comma", "FnKw", "Plus"])))
            elif r < 0.95:
                t = ty(rnd.choice(["LitStr", "LitBool", "Pair", "Grp"]))      # (no Expr: random tokens leave the modelled part of its grammar)
            else:
                t = ty("TokenStream")
            f = {"id": "", "ty": t, "sym": [], "any": t["n"] == "Ident" and rnd.random() < 0.3, "term": False, "peek": False}
            if rnd.random() < 0.15:
                it = ty("Ident") if rnd.random() < 0.5 or i == 1 else (ty("LitInt") if rnd.random() < 0.5 else ty("@", rnd.randint(1, i - 1)))
                f["ty"], f["term"] = ty("Punct", it, ty(rnd.choice(["Comma", "Semi", "Plus"]))), True
                f["any"] = it["n"] == "Ident" and rnd.random() < 0.5
            return f

        def variant(enum):
            huge = rnd.random() < (0.01 if enum else 0.04)
            nf = rnd.randint(16, 40) if huge else rnd.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]) if enum else rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
            stack, fs = [], []
            peeks = rnd.choice([0, 0, 1, 1, 2, 3]) if enum else rnd.choice([0, 0, 0, 0, 1])
            for k in range(nf):
                sym = []
                for _ in range(rnd.choice([0, 0, 0, 1, 1, 2, 3]) if stack else 0):
                    if stack:
                        sym.append(CLOSE[stack.pop()])
                p = k < peeks and not stack and not sym
                if not p:
                    peeks = 0
                if rnd.random() < 0.35:
                    c = rnd.choice("([{")
                    stack.append(c)
                    name = {"(": "Paren", "[": "Bracket", "{": "Brace"}[c]
                    if rnd.random() < 0.3 and not p:
                        name = "MacroDelimiter"
                    f = {"id": "", "ty": ty(name), "sym": sym + [c], "any": False, "term": False, "peek": p}
                    if rnd.random() < (0.5 if p else 0.15):
                        f["sym"].append(CLOSE[stack.pop()])
                else:
                    f = value()
                    f["sym"] = sym
                    if p:
                        f["term"] = False
                        if f["ty"]["n"] not in ("Ident", "LitInt", "LitStr", "Comma", "Semi", "Plus", "FnKw", "TypeKw", "Arrow"):
                            f["ty"], f["any"] = ty("Ident"), rnd.random() < 0.3
                        if f["ty"]["n"] != "Ident":
                            f["any"] = False
                        f["peek"] = True
                fs.append(f)
            shape = rnd.choice(["rec", "tup"]) if fs else rnd.choice(["rec", "tup", "unit"])
            if shape == "rec":
                for k, f in enumerate(fs):
                    f["id"] = ["a", "b", "r#type", "d", "self_", "input", "tokens", "e", "f", "g", "h", "^"][k] if k < 12 else "f%d" % k
            return {"shape": shape, "fields": fs}
        if rnd.random() < 0.5:
            d = {"kind": "struct", "variants": [variant(False)]}
        else:
            d = {"kind": "enum", "variants": [variant(True) for _ in range(rnd.choice([1, 2, 2, 3, 4, 6, 9]) if rnd.random() < 0.96 else rnd.randint(15, 30))]}
        d["form"] = rnd.randint(0, 5)
        decls.append(d)
    return decls


def random_text(rnd, decls, i, fuel):
    """Tokens that probably match declaration i."""
    v = rnd.choice(decls[i - 1]["variants"])
    out, stack = [], []
    for f in v["fields"]:
        for c in f["sym"]:
            if c in CLOSE:
                o = rnd.choice("([{") if f["ty"]["n"] == "MacroDelimiter" else c
                stack.append(o)
                out.append(o)
            else:
                out.append(CLOSE[stack.pop()])
        if not any(c in CLOSE for c in f["sym"]):
            out += random_value(rnd, decls, f["ty"], f["any"], fuel)
    while stack:
        out.append(CLOSE[stack.pop()])
    return out


def random_value(rnd, decls, t, any_, fuel):
    n = t["n"]
    if n == "@":
        return random_text(rnd, decls, t["a"][0], fuel - 1) if fuel > 0 else []
    if n == "Box":
        return random_value(rnd, decls, t["a"][0], any_, fuel)
    if n == "Punct":
        k, out = rnd.choice([0, 1, 1, 2, 3]) if rnd.random() < 0.98 else rnd.choice([9, 17, 33]), []
        for j in range(k):
            out += random_value(rnd, decls, t["a"][0], any_, fuel)
            if j + 1 < k or rnd.random() < 0.4:
                out.append(TOKTY[t["a"][1]["n"]])
        return out
    if n == "Option":
        return [TOKTY[t["a"][0]["n"]]] if rnd.random() < 0.5 else []
    if n in TOKTY:
        return [TOKTY[n]]
    if n == "Ident":
        return [rnd.choice(["fn", "type", "self", "_", "x"]) if any_ and rnd.random() < 0.6 else rnd.choice(["x", "y", "r#fn"])]
    return {"LitInt": lambda: [rnd.choice(["1", "2"])], "LitStr": lambda: ["'s"], "LitBool": lambda: ["true"],
            "Pair": lambda: ["x", ",", "y"], "Grp": lambda: ["(", "x", ")"],
            "TokenStream": lambda: rnd.choice([[], ["x"], [";", "(", "1", ")"], ["fn", "->", "{", "}"]])}[n]()


def match_at(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j] in CLOSE:
            d += 1
        elif toks[j] in OPEN:
            d -= 1
            if d == 0:
                return j
    raise ValueError


def mutate(rnd, toks):
    toks = list(toks)
    r = rnd.random()
    plain = [i for i, t in enumerate(toks) if t not in CLOSE and t not in OPEN]
    groups = [i for i, t in enumerate(toks) if t in CLOSE]
    if r < 0.3 or not toks:
        i = rnd.randint(0, len(toks))
        return toks[:i] + rnd.choice([["x"], ["fn"], ["1"], [";"], [","], ["(", ")"], ["{", "x", "}"], ["'s"]]) + toks[i:]
    if r < 0.5 and plain:
        i = rnd.choice(plain)
        return toks[:i] + toks[i + 1:]
    if r < 0.65 and plain:
        toks[rnd.choice(plain)] = rnd.choice(["x", "fn", "1", ";", ",", "'s", "+", "type"])
        return toks
    if groups:
        i = rnd.choice(groups)
        j = match_at(toks, i)
        if r < 0.8:
            o = rnd.choice("([{")
            toks[i], toks[j] = o, CLOSE[o]
            return toks
        if r < 0.9:
            return toks[:i] + toks[i + 1:j] + toks[j + 1:]
        return toks[:i] + toks[j + 1:]
    return toks + ["x"]


def respell(d, r):
    def ty(t):
        return metagen.respell(t, r) if t["n"] == "MacroDelimiter" else t
    return dict(d, variants=[dict(v, fields=[dict(f, ty=ty(f["ty"])) for f in v["fields"]]) for v in d["variants"]])


def in_context(d, r):
    """The declaration in some scope, with type parameters."""
    def field(f):
        if f["peek"] or f["any"] or set(f["sym"]) & set(CLOSE):
            return f
        return dict(f, ty=context.mark(f["ty"], r, metagen.LEAVES + ("@", "Option", "Comma", "Semi", "Plus", "FnKw", "TypeKw", "Arrow")))
    return dict(d, ctx=context.random_ctx(r), variants=[dict(v, fields=[field(f) for f in v["fields"]]) for v in d["variants"]])


def random_cases(seed, nd, ni, spell=False, ctx=False):
    rnd = random.Random("tree-%s" % seed)
    decls = random_decls(rnd, nd)
    cases, seen = [], set()
    for i in range(1, nd + 1):
        for _ in range(ni):
            t = random_text(rnd, decls, i, 3)
            for _ in range(rnd.choice([0, 0, 1, 1, 1, 2, 3])):
                t = mutate(rnd, t)
            if len(t) > 100 or (len(t) > 40 and rnd.random() < 0.7):
                continue
            k = (i, tuple(t))
            if k not in seen:
                seen.add(k)
                cases.append((i, t))
    if spell:
        decls = [respell(d, random.Random("%s-%d" % (seed, i))) for i, d in enumerate(decls)]
    if ctx:
        decls = [in_context(d, random.Random("%s-%d" % (seed, i))) for i, d in enumerate(decls)]
    return decls, cases
