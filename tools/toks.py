"""Rendering of the specification's token sequences."""

# letters beyond ASCII (see LowerX and UpperX in spec/Tokens.tla)
LETTERS = {"^": "\u00e9", "@": "\u00df", "%": "\u00c9", "&": "\u540d"}
REAL = str.maketrans(LETTERS)
BACK = str.maketrans({v: k for k, v in LETTERS.items()})


def real(s):
    return s.translate(REAL)


NEWLINE = "\x0b"        # stands for a line break in what the driver reads (harness/src/lib.rs main_loop)


def render(toks, lines=0):
    """Returns (text, [(start, end)] byte range of every token).  lines: 1 every gap is a line break, 2 every other one, .."""
    out, pos, ranges = [], 0, []
    for i, t in enumerate(toks):
        glue = t.endswith("~")
        s = t[:-1] if glue else t
        if s.startswith("'"):
            s = '"' + s[1:] + '"'
        s = real(s)
        ranges.append((pos, pos + len(s.encode())))
        out.append(s)
        pos += len(s.encode())
        if not glue and i + 1 < len(toks):
            out.append(NEWLINE if lines and i % lines == 0 else " ")
            pos += 1
    return "".join(out), ranges


class Input:
    """A rendered input and the map from byte offsets back to token numbers."""

    def __init__(self, toks, mode="attr", hidden=()):
        """hidden: ranges [a, b] of token numbers (b exclusive) that are in invisible groups"""
        self.toks, self.mode = toks, mode
        body, rs = render(toks, [0, 0, 0, 1, 2, 3][(sum(map(len, toks)) + 5 * len(toks)) % 6])
        pre = "#[m(" if mode == "attr" else ""
        self.text = pre + body + (")]" if mode == "attr" else "")
        off = len(pre)
        self.ranges = [(a + off, b + off) for a, b in rs]
        self.start = {a: i + 1 for i, (a, b) in enumerate(self.ranges)}
        self.end = {b: i + 1 for i, (a, b) in enumerate(self.ranges)}
        if hidden:
            hs = sorted(hidden, key=lambda h: (h[0], -h[1]))          # outer ones first
            self.mode += "+" + ",".join("%d-%d" % (self.ranges[a - 1][0], self.ranges[b - 2][1]) for a, b in hs)
        if mode == "attr":
            # the end of the list is the closing parenthesis of the attribute
            self.start[off + len(body.encode())] = len(toks) + 1

    def shown(self):
        return self.text.replace(NEWLINE, "\\n") + ("  with invisible groups around the bytes " + self.mode.split("+")[1] if "+" in self.mode else "")

    def tok_at(self, s):
        return self.start.get(s, -1)

    def name_at(self, s, e):
        """token number of a span that must be exactly one token; -1 if it is not"""
        i = self.start.get(s, -1)
        return i if i > 0 and self.end.get(e) == i else -1
