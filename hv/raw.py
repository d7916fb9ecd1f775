"""Hand-written program pairs: annotated source with position marks, and its reference."""
import re
from . import excerpt
from .model import *

MARK = re.compile("«(\\w+)»")
USE = re.compile(r"@([LC])\{(\w+)\}")
RANGE = re.compile(r"@([XO])\{(\w+),(\w+)\}")


class Raw(Node):
    def __init__(self, text):
        super().__init__("raw", [], "blk")
        self.raw = text
        self.marks = {}
        self.offs = {}

    def src_inner(self, w):
        pos = 0
        for m in MARK.finditer(self.raw):
            w.w(self.raw[pos:m.start()])
            self.marks[m.group(1)] = (w.line, w.col)
            self.offs[m.group(1)] = w.off
            pos = m.end()
        w.w(self.raw[pos:])


class RawU:
    """`src`: the annotated item; `ref`: the same with hooks by hand (`@L{m}`/`@C{m}`: line/column of «m»;
    `@X{a,b}`/`@O{a,b}`: default/one-line excerpt of what stands between two marks)."""

    post = ""

    def __init__(self, name, src, ref, call, pre="", root_attr="", label="", singles=14, randoms=4, sites=()):
        self.name, self.pre, self.call = name, pre, call
        self.item = Raw(src)
        self.refsrc = ref
        self.root_attr = root_attr
        self.label = label or name
        self.layout = False
        self.newline = True
        self.singles, self.randoms = singles, randoms
        self.facts = {}
        self.sites = sites

    def ref(self, root):
        root.sites = list(self.sites) or [("?", "catalogue", (self.label,))]
        o = self.item.offs
        t = RANGE.sub(lambda m: rstr((excerpt.default if m.group(1) == "X" else excerpt.one_line)(root.text, o[m.group(2)], o[m.group(3)])), self.refsrc)
        t = t.replace("@PATH", rstr(root.path)).replace("@FILE", rstr(root.path.split("/")[-1]))
        return USE.sub(lambda m: str(self.item.marks[m.group(2)]["LC".index(m.group(1))]), t)


def auto(src, meth):
    """Annotated source with marks, and the reference.

    `⟨e⟩?`: hooked operand; `‹return e›`: hooked return; `⟪e⟫`: hooked tail. `meth(line, column, a, b)` is the text of
    the hook, given the position and the marks around the target."""
    n = [0]

    def go(i, close):
        s, r = [], []
        while i < len(src):
            ch = src[i]
            if ch == close:
                return i + 1, "".join(s), "".join(r)
            if ch in "⟨‹⟪":
                n[0] += 1
                a, b, q = "a%d" % n[0], "b%d" % n[0], "q%d" % n[0]
                i, s1, r1 = go(i + 1, {"⟨": "⟩", "‹": "›", "⟪": "⟫"}[ch])
                if ch == "⟨":
                    assert src[i] == "?", src[i - 20:i + 10]
                    i += 1
                    s.append("«%s»%s«%s»?«%s»" % (a, s1, q, b))
                    r.append("(%s)%s?" % (r1, meth(q, a, b)))
                elif ch == "‹":
                    assert r1.startswith("return ")
                    s.append("«%s»%s«%s»" % (a, s1, b))
                    r.append("return (%s)%s" % (r1[7:], meth(a, a, b)))
                else:
                    s.append("«%s»%s«%s»" % (a, s1, b))
                    r.append("(%s)%s" % (r1, meth(a, a, b)))
                continue
            s.append(ch)
            r.append(ch)
            i += 1
        assert close is None, "unbalanced " + src
        return i, "".join(s), "".join(r)
    _, s, r = go(0, None)
    return s, r
