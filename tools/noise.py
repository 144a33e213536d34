"""Different ways to write the same declaration, chosen by the numbers of the declaration and the field:
attributes of others, visibilities, split, empty and conditional attribute lists, raw strings.
None of it may change what the derives make of the declaration."""

FOREIGN = ["", "#[doc = \"name\"] ", "#[allow(unused, dead_code)] ", "/** unnamed */ ", "#[doc(alias = \"parse\")] #[allow(clippy::all)] ",
           "#[cfg(all())] ", "#[cfg_attr(any(), struct_meta(unnamed, name = \"q\"), parse(peek), to_tokens(\"(\"))] ", ""]


def pick(seq, *ns):
    h = 17
    for n in ns:
        h = (h * 31 + n * 7919 + 13) % 1000003
    return seq[(h // 7) % len(seq)]


def foreign(i, k, what=0):
    return "" if i % 3 == 0 else pick(FOREIGN, i, k, what)


def vis(i, k, default="pub "):
    return default if i % 3 == 0 else pick([default, default, "pub(crate) ", "pub(in crate) "], i, k, 5)


def raw(s, i, k):
    """the identifier `s`, perhaps as r#s"""
    if i % 3 == 0 or not s or s.startswith("r#") or s in ("self", "Self", "super", "crate", "_"):
        return s
    return pick([s, s, s, "r#" + s], i, k, 31)


VARIANTS = ["Ok", "Err", "r#Fn", "r#fn", "Some", "None", "Self_", "r#type", "_V", "Result", "value", "fork", "Input", "input", "\u00c9", "parse_", "Option", "r#match", "V", "v"]


def variant(i, k, n):
    """the name of the k-th (from 0) of n variants"""
    if i % 3 == 0 or i % 3 == 1 and i % 2 or n > len(VARIANTS):
        return raw("V%d" % (k + 1), i, k + 3)
    return VARIANTS[(i // 3 + k * 7) % len(VARIANTS)]


def string(s, i, k):
    """`s` (without quotes, ASCII or not) as a string literal"""
    plain = '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if i % 3 == 0 or "\\" in s or '"' in s:
        return plain
    return pick([plain, plain, 'r"%s"' % s, 'r##"%s"##' % s,
                 '"' + "".join("\\u{%x}" % ord(c) for c in s) + '"'], i, k, 9)


def lists(attr, args, i, k):
    """`args` in lists of the attribute `attr`"""
    if i % 3 == 0:
        return "#[%s(%s)] " % (attr, ", ".join(args)) if args else ""
    one = lambda a: "#[%s(%s)] " % (attr, a)
    f = pick(range(7), i, k, 3)
    if not args:
        return one("") if f == 1 else ""
    if f == 2:
        return one(", ".join(args) + ",")
    if f == 3:
        return "".join(one(a) for a in args)
    if f == 4:
        return one("") + foreign(i, k, 2) + one(", ".join(reversed(args)))
    if f == 5:
        return "#[cfg_attr(all(), %s(%s))] " % (attr, ", ".join(args))
    if f == 6:
        return "".join(one(a + ",") for a in reversed(args)) + one("")
    return one(", ".join(args))


def generics(args, i):
    """generic arguments"""
    plain = "<%s>" % ", ".join(args)
    return plain if i % 3 == 0 else pick([plain, plain, plain, "<%s,>" % ", ".join(args), "::" + plain], i, len(plain))


def no_generics(name, i):
    """generic arguments of a type that has none"""
    if i % 3 != 1 or not name[:1].isalpha():
        return ""
    return pick(["", "", "", "<>", "::<>"], i, sum(map(ord, name)))
