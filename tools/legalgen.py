"""Declarations for the derives as checkers (spec/LegalMeta.tla, LegalTree.tla): Rust text and random ones."""
import random
import metagen, noise, treegen
from metagen import T

PRELUDE_META = metagen.PRELUDE
PRELUDE_TREE = treegen.PRELUDE


def tok(t):
    if t.startswith("'"):
        return '"' + t[1:].replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "(x)" if t == "()" else t


def attr(a, path, k=0):
    if a["form"] == "path":
        return "#[%s]" % path
    if a["form"] == "nv":
        return '#[%s = "x"]' % path
    o, c = ("()", "[]", "{}")[k % 7 % 3 if k % 7 < 3 else 0]     # mostly parentheses; brackets and braces mean the same
    return "#[%s%s%s%s]" % (path, o, " ".join(tok(t) for t in a["toks"]), c)


class Text:
    """Rust source, line by line, with what stands where."""

    def __init__(self, prelude):
        self.lines = prelude.rstrip("\n").split("\n")
        self.where = {}

    def add(self, line, at):
        self.lines.append(line)
        self.where[len(self.lines)] = at


def meta_lines(d, i):
    """[(line, field)] (field 0: the item itself)"""
    at = lambda a: attr(a, "struct_meta", i)
    name = "D%d" % i
    groups = []
    head = "#[derive(::structmeta::StructMeta)] " + "".join(at(a) + " " for a in d["attrs"])
    fs = []
    for k, f in enumerate(d["fields"]):
        a = "".join(at(x) + " " for x in f["attrs"])
        ty = metagen.rust_ty(f["ty"], groups=None)
        fs.append((a + (noise.raw(f["id"], i, k) + ": " if f["id"] else "") + ty + ",", k + 1))
    kind = d["item"]
    if kind == "enum":
        return [(head + "pub enum " + name + " { A {", 0)] + fs + [("} }", 0)]
    if kind == "union":
        return [(head + "pub union " + name + " {", 0), ("q: u32 }", 0)]
    if d["shape"] == "unit":
        return [(head + "pub struct " + name + ";", 0)]
    o, c = ("{", "}") if d["shape"] == "rec" else ("(", ");")
    return [(head + "pub struct " + name + o, 0)] + fs + [(c, 0)]


def tree_lines(d, i):
    name = "D%d" % i
    at = lambda a: attr(a, a["path"], i)
    head = "#[derive(::structmeta::%s)] " % d["der"] + "".join(at(a) + " " for a in d["attrs"])

    def body(v, k, end):
        if v["shape"] == "unit" or not v["fields"] and v["shape"] == "tup" and i % 2:
            return [("%s" % end, (0, 0))]
        o, c = ("{", "}") if v["shape"] == "rec" else ("(", ")")
        fs = []
        for j, f in enumerate(v["fields"]):
            a = "".join(at(x) + " " for x in f["attrs"])
            fs.append((a + (noise.raw(f["id"], i, j) + ": " if v["shape"] == "rec" else "") + treegen.rust_ty(f["ty"]) + ",", (k, j + 1)))
        return [(o, (0, 0))] + fs + [(c + ("" if v["shape"] == "rec" and end == ";" else end), (0, 0))]
    if d["item"] == "union":
        return [(head + "pub union " + name + " {", (0, 0)), ("a: u32 }", (0, 0))]
    if d["item"] == "struct":
        return [(head + "pub struct " + name, (0, 0))] + body(d["variants"][0], 1, ";")
    r = [(head + "pub enum " + name + " {", (0, 0))]
    for k, v in enumerate(d["variants"]):
        r += [(noise.variant(i, k, len(d["variants"])), (0, 0))] + body(v, k + 1, ",")
    return r + [("}", (0, 0))]


# ------------------------------------------------------------------- random

def list_attr(toks, path=None):
    a = {"form": "list", "toks": toks}
    if path:
        a["path"] = path
    return a


BAD_FILTERS = ["'x", "'snake-case", "'SNAKE_CASE", "'Snake_case", "' snake_case", "'snake_case ", "'snakecase", "'snake case", "'snakeCase", "'SnakeCase",
               "'snake", "'snake_cas", "'snake_case_", "'_snake_case", "'snake_case,", "'kebab-case", "'camelCase", "'none", "'"]


def random_meta(r):
    g = metagen.Gen(r, [], nested=False)
    fields, used = [], set()
    rec = r.random() < 0.5
    sloppy = r.random() < 0.5          # may well be illegal
    stage = 0
    had_rest = False
    for k in range(r.randint(0, 7)):
        c = r.random()
        toks, ident = [], "q%d" % k if rec else ""
        if c < 0.12:
            if had_rest and not sloppy:
                continue
            had_rest = True
            ty = g.rest_ty()
            if r.random() < 0.2:
                toks = ["unnamed"]
        elif c < 0.55:
            kinds = [0, 0, 1, 1, 2] + ([3] if sloppy and r.random() < 0.2 else [])
            kind = r.choice(kinds)
            if not sloppy and (kind < stage or stage == 2):
                continue
            stage = max(stage, min(kind, 2))
            leaf = g.leaf(False)
            ty = [leaf, T("Option", leaf), T("Vec", leaf),
                  r.choice([T("Flag"), T("bool"), T("NameValue", leaf), T("Option", T("Vec", leaf)), T("Option", T("NameArgs", leaf)), T("NameArgs", T("Option", leaf))])][kind]
            if rec or r.random() < 0.2:
                toks = ["unnamed"]
        else:
            ty = g.named_ty()
            nm = r.choice(["a", "b", "c", "ab", "type", "x1", "foo bar", "r#a", "", "A", "Ab", "AB", "a_", "_a", " a", "a "])
            idn = r.choice(["a", "b", "r#c", "r#type", "x1", "A", "B", "_a", "a_", "X1"])
            if rec and r.random() < 0.6 and idn.replace("r#", "") not in {f["id"].replace("r#", "") for f in fields}:
                ident = idn
                eff = idn.replace("r#", "", 1)
            else:
                toks = ["name", "=", "'" + nm]
                eff = nm
            if eff in used and not sloppy:
                continue
            used.add(eff)
        if metagen_map_named(ty, toks):
            continue
        attrs = []
        if toks or r.random() < 0.15:
            x = [list(toks)]
            if r.random() < 0.2:
                x.append(r.choice([["unnamed"] if toks == ["unnamed"] else [], list(toks)]))
            for y in x:
                if y and r.random() < 0.25:
                    y.append(",")
                if sloppy and r.random() < 0.05:
                    y.insert(r.randint(0, len(y)), r.choice([",", "foo", "name", "=", "'x", "unnamed", "dump", "()"]))
            attrs = [list_attr(y) for y in x]
        if sloppy and r.random() < 0.02:
            attrs.append({"form": r.choice(["path", "nv"]), "toks": []})
        fields.append({"id": ident, "ty": metagen.respell_plain(ty, r), "attrs": attrs})
    ia = []
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        ps = [r.choice([["dump"], ["name_filter", "=", "'snake_case"]] + ([["foo"], ["name_filter"], ["name_filter", "=", r.choice(BAD_FILTERS)], []] if sloppy else [[]]))
              for _ in range(r.choice([0, 1, 1, 2]))]
        ts = []
        for j, p in enumerate(ps):
            ts += ([","] if j else []) + p
        if ts and r.random() < 0.2:
            ts.append(",")
        ia.append(list_attr(ts))
    if not rec and not fields and r.random() < 0.5:
        shape = "unit"
    else:
        shape = "rec" if rec else "tup"
    item = "struct"
    if r.random() < 0.03 and fields and rec:
        item = "enum"
    return {"item": item, "shape": shape, "attrs": ia, "fields": fields}


def metagen_map_named(ty, toks):
    return ty["n"] == "HashMap" and "name" in toks


OPEN = {"(": ")", "[": "]", "{": "}"}
DEL = {"(": "Paren", "[": "Bracket", "{": "Brace"}


def random_tree(r):
    der = r.choice(["Parse", "ToTokens"])
    item = r.choice(["struct", "struct", "enum"])
    sloppy = r.random() < 0.5
    variants = []
    for v in range(1 if item == "struct" else r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 3])):
        fields, stack = [], []
        peeks, free = 0, False
        for k in range(r.randint(0, 6)):
            syms, opened = "", []
            root = not stack
            for _ in range(r.choice([0, 0, 0, 1, 1, 1, 2, 3])):
                c = r.random()
                if c < 0.5 and stack and not (sloppy and r.random() < 0.12):
                    syms += stack.pop()
                elif c < 0.9:
                    o = r.choice("([{")
                    if der == "Parse" and syms and syms[-1] in OPEN:
                        continue            # one field, two nested groups: rustc decides
                    syms += o
                    opened.append(o)
                    stack.append(OPEN[o])
                elif sloppy:
                    x = r.choice(")]}x ")
                    syms += x
                    if x in ")]}" and stack and stack[-1] == x:
                        stack.pop()
                root = root or not stack
            if not opened:
                ty = r.choice([T("Ident"), T("LitInt"), T("Ident"), T("Comma")])
            elif len(set(opened)) == 1 and r.random() < 0.7:
                ty = T(DEL[opened[0]])
            else:
                ty = T("MacroDelimiter")
            pieces = []
            while syms:
                n = r.randint(0, len(syms))
                pieces.append("'" + syms[:n])
                syms = syms[n:]
            attrs = []
            if pieces:
                cut = r.randint(0, len(pieces))
                for part in ([pieces] if r.random() < 0.6 else [pieces[:cut], pieces[cut:]]):
                    ts = []
                    for j, p in enumerate(part):
                        ts += ([","] if j else []) + [p]
                    if ts and r.random() < 0.2:
                        ts.append(",")
                    attrs.append(list_attr(ts, "to_tokens"))
            peek = False
            if der == "Parse":
                ps = []
                can = root and not free and peeks < 3 and ty["n"] != "MacroDelimiter"
                if (can and r.random() < 0.5) or (sloppy and r.random() < 0.08 and ty["n"] != "MacroDelimiter"):
                    ps.append("peek")
                    peek = True
                    peeks += 1
                if ty["n"] == "Ident" and r.random() < 0.15:
                    ps.append("any")
                if ps or r.random() < 0.1:
                    ts = []
                    for j, p in enumerate(ps):
                        ts += ([","] if j else []) + [p]
                    if ts and r.random() < 0.2:
                        ts.append(",")
                    attrs.insert(r.randint(0, len(attrs)), list_attr(ts, "parse"))
            free = free or (root and not peek)
            if sloppy and attrs and r.random() < 0.05:
                y = r.choice(attrs)["toks"]
                y.insert(r.randint(0, len(y)), r.choice([",", "foo", "dump", "any", "()"]))
            fields.append({"id": "f%d" % k, "ty": ty, "attrs": attrs})
        variants.append({"shape": r.choice(["rec", "tup"]), "fields": fields})
    own = "parse" if der == "Parse" else "to_tokens"
    ia = []
    for _ in range(r.choice([0, 0, 0, 1])):
        ia.append(list_attr(r.choice([["dump"], [], ["dump", ","]] + ([["foo"], ["dump", "foo"], [","]] if sloppy else [])), own))
    return {"der": der, "item": item, "attrs": ia, "variants": variants}
