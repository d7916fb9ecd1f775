"""Typed generator of programs: random, and systematic over syntactic positions.

Every production is a function `(g, env, h)` that returns a Node; `h(type, env, ctx)` produces the
node for a hole. Random generation recurses through `h`; the systematic mode puts a chosen target
into one hole and leaves into the others.
"""
import random
from .model import *


class Env:
    """Where an expression stands."""
    __slots__ = ("fk", "vars", "mut", "arr", "loop", "lab", "items", "asy")

    def __init__(self, fk):
        self.fk = fk          # what `?`/`return` leave: 'R', 'O', 'V', 'Q' (Result<_, E2>)
        self.vars = ()        # readable i64 variables
        self.mut = ()         # assignable i64 variables
        self.arr = ()         # assignable [i64; 4] variables
        self.loop = 0         # inside a loop of the same function: break/continue allowed
        self.lab = ()
        self.items = True
        self.asy = False

    def w(self, **kw):
        e = Env(self.fk)
        for s in Env.__slots__:
            setattr(e, s, getattr(self, s))
        for k, v in kw.items():
            setattr(e, k, v)
        return e


def paren(n):
    return Node("paren", ["(", n, ")"])


def G(cls, *parts, **kw):
    return Node(cls, list(parts), **kw)


def call(name, *args, cls="call", path=""):
    parts = [path + name + "("]
    for i, a in enumerate(args):
        if i:
            parts.append(", ")
        parts.append(a)
    parts.append(")")
    return Node(cls, parts, call_ident=name)


class Gen:
    def __init__(self, rng, profile=None):
        self.rng = rng
        self.n = 0
        self.nid = 0
        self.sd = 0
        self.p = dict(depth=4, attr=0.0, stmts=(0, 3), plain=0.0, cfg=0.0, try_leaf=0.55, size=90, tryo=True)
        self.p.update(profile or {})
        self.attr_fn = None      # (gen, node) -> list of Attr
        self.no_cfg = ("expr",)  # positions without foreign attributes
        self.only = None         # restrict productions

    # ids make every value traceable to the probe that made it
    def id(self):
        self.nid += 1
        return self.nid

    def name(self, pre="v"):
        self.n += 1
        return "%s%d" % (pre, self.n)

    # ------------------------------------------------------------ holes
    def hole(self, ty, env, d):
        def h(t, e=None, ctx="any"):
            return self.fit(self.expr(t, e or env, d - 1), ctx)
        return h

    def fit(self, n, ctx):
        """Adds parentheses where the grammar needs them, and attributes where they may stand."""
        need = (ctx == "post" and n.prec != "post" or ctx == "op" and n.prec in ("low", "blk")
                or ctx == "cond" and n.prec in ("low", "struct") or n.prec == "struct" and ctx != "any")
        if ctx in ("post", "op", "cond") and n.cls == "call" and n.parts[0] in ("Ok(", "Err("):
            n.parts[0] = n.parts[0][:-1] + "::<i64, E>("
        if self.attr_fn and n.kind != "body":
            if ctx in ("any", "arm", "clo", "mac") or need:
                self.decorate(n)
            elif ctx in ("post", "op", "cond") and self.rng.random() < 0.3 and n.cls != "let":
                self.decorate(n)
                need = need or bool(n.attrs)
        return paren(n) if need else n

    def decorate(self, n, at="expr"):
        if n.cls in NOATTR or n.cls in OPCLS or not n.attrable or n.attrs:
            return
        if self.rng.random() < self.p["attr"]:
            self.at = at
            n.attrs = self.attr_fn(self, n)
        if at not in self.no_cfg and self.rng.random() < self.p["cfg"]:
            # attributes that are not hooq's, before, between and behind hooq's own
            a = a_plain(self.rng.choice({"item": ["#[allow(dead_code)]", "#[doc = \"x\"]", "#[cfg(all())]", "#[rustfmt::skip]", "#[cfg_attr(any(), hooq::skip_all)]"],
                                         "stmt": ["#[cfg(any())]", "#[cfg(all())]", "#[allow(unused)]", "#[cfg(all())]", "#[cfg_attr(any(), hooq::skip)]", "#[warn(clippy::all, reason = \"method\")]"],
                                         "tail": ["#[cfg(all())]", "#[allow(unused)]", "#[cfg_attr(all(), allow(unused))]"]}.get(at, ["#[cfg(all())]"])))
            n.attrs = list(n.attrs or [])
            n.attrs.insert(self.rng.randint(0, len(n.attrs)), a)

    def dec(self, n):
        """Decorates an item or statement and returns it."""
        if self.attr_fn:
            t = n.e if isinstance(n, SExpr) else n
            self.decorate(t, "item" if n.kind == "fn" or n.cls in ITEMS else "stmt")
        return n

    def expr(self, ty, env, d):
        r = self.rng
        if d <= 0 or self.nid > self.p["size"]:
            return self.leaf(ty, env)
        tab = PRODS[ty]
        for _ in range(50):
            name, f, cond = r.choice(tab)
            if cond and not cond(env):
                continue
            if self.only and not self.only(name):
                continue
            if env.fk == "O" and name == "tryo" and not self.p["tryo"]:
                continue
            n = f(self, env, self.hole(ty, env, d))
            return n
        return self.leaf(ty, env)

    def leaf(self, ty, env):
        r = self.rng
        if ty == "V":
            x = r.random()
            if x < self.p["try_leaf"] and env.fk in ("R", "Q"):
                return Try(call("r", G("lit", str(self.id()), attrs=None)))
            if x < self.p["try_leaf"] and env.fk == "O" and self.p["tryo"]:
                return Try(call("o", G("lit", str(self.id()))))
            if env.vars and r.random() < 0.3:
                return G("path", r.choice(env.vars))
            return call("p", G("lit", str(self.id())))
        if ty == "R":
            return call("r", G("lit", str(self.id())))
        if ty == "O":
            return call("o", G("lit", str(self.id())))
        if ty == "B":
            return call("c", G("lit", str(self.id())))
        raise KeyError(ty)

    # ------------------------------------------------------------ statements
    def stmts(self, env, d, n=None):
        """A list of statements and the environment after them."""
        r = self.rng
        lo, hi = self.p["stmts"]
        k = r.randint(lo, hi) if n is None else n
        if d <= 0 or self.sd >= 4 or self.nid > self.p["size"]:
            k = 0
        self.sd += 1
        try:
            return self.stmts_(env, d, k)
        finally:
            self.sd -= 1

    def stmts_(self, env, d, k):
        r = self.rng
        out = []
        for _ in range(k):
            for _ in range(30):
                name, f, cond = r.choice(STMTS)
                if cond and not cond(env):
                    continue
                if self.only and not self.only(name):
                    continue
                if env.fk == "O" and name == "trystmt" and not self.p["tryo"]:
                    continue
                s, env = f(self, env, self.hole("S", env, d), d)
                out.append(self.dec(s))
                break
        return out, env

    def body(self, ty, env, d, fn_tail=False, n=None):
        """A block of type `ty` ('V','R','O','U')."""
        ss, e2 = self.stmts(env, d - 1, n)
        if ty == "U":
            return Body(ss, fn_tail)
        r = self.rng
        if ty in ("R", "O") and env.fk == ty and fn_tail and r.random() < 0.12:
            t = Ret(self.tail(ty, e2, d))
            ss.append(SExpr(t, r.random() < 0.5))
            return Body(ss, fn_tail)
        t = self.tail(ty, e2, d)
        ss.append(SExpr(t, False))
        return Body(ss, fn_tail)

    def tail(self, ty, env, d):
        n = self.expr(ty, env, d - 1)
        if n.cls in TAILPAREN:
            n = paren(n)
        if self.attr_fn:
            self.decorate(n, "tail")
        return n


# productions after which nothing may be glued in front of an attribute, or that are no place for one
NOATTR = {"lit", "path", "arm", "seq", "structitem", "items"}
ITEMS = {"constitem", "mod", "impl", "trait", "implconst", "traitconst", "staticitem"}
OPCLS = {"binary", "cast", "assign", "compound", "cmp", "and", "or", "lazy", "range", "let"}
TAILPAREN = {"struct"}

PRODS = {"V": [], "R": [], "O": [], "B": []}
STMTS = []
BYNAME = {}


def prod(ty, name, cond=None):
    def deco(f):
        PRODS[ty].append((name, f, cond))
        BYNAME[(ty, name)] = (f, cond)
        return f
    return deco


def stmt(name, cond=None):
    def deco(f):
        STMTS.append((name, f, cond))
        BYNAME[("S", name)] = (f, cond)
        return f
    return deco


def can_try(e):
    return e.fk in ("R", "O", "Q")


# ---------------------------------------------------------------- V

@prod("V", "try", lambda e: e.fk in ("R", "Q"))
def _(g, e, h):
    return Try(h("R", e, "post"))


@prod("V", "tryo", lambda e: e.fk == "O")
def _(g, e, h):
    return Try(h("O", e, "post"))


@prod("V", "array")
def _(g, e, h):
    return G("index", G("array", "[", h("V"), ", ", h("V"), "]"), "[", G("lit", g.rng.choice("01")), "]")


@prod("V", "repeat")
def _(g, e, h):
    return G("index", paren(G("repeat", "[", h("V"), "; ", G("lit", "2"), "]")), "[1]")


@prod("V", "tuple")
def _(g, e, h):
    return G("field", paren_tuple(h("V"), h("V")), "." + g.rng.choice("01"))


def paren_tuple(a, b):
    return G("tuple", "(", a, ", ", b, ")")


@prod("V", "struct")
def _(g, e, h):
    return G("field", paren(G("struct", "S { ", fv(g, "a", h("V")), ", ", fv(g, "b", h("V")), " }", prec="struct")), ".b")


@prod("V", "struct_rest")
def _(g, e, h):
    return G("field", paren(G("struct", "S { ", fv(g, "a", h("V")), ", ..", call("mk", h("V")), " }", prec="struct")),
             "." + g.rng.choice("ab"))


@prod("V", "struct_only_rest")
def _(g, e, h):
    return G("field", paren(G("struct", "S { ..", call("mk", h("V")), " }", prec="struct")), "." + g.rng.choice("ab"))


TEXTS = ['"a  b"', '"\\t?  \\"x\\" "', 'r#"  "é"   日 "#', '" // no  comment"', '"/*  */"', '"{  }"', "['\\'', ' ', '\"']", "['a';  3]", 'b"  \\x00 "', '"return  Err(1)"', '"$source  $line"', 'concat!("a  ", " b")', '"#[hooq::skip]  "']


@prod("V", "text")
def _(g, e, h):
    return call("p", G("lit", g.rng.choice(TEXTS) + ".len() as i64"))


@prod("R", "text")
def _(g, e, h):
    return call("r", G("lit", g.rng.choice(TEXTS) + ".len() as i64"))


@prod("V", "tuple1")
def _(g, e, h):
    return G("field", G("tuple", "(", h("V"), ",)"), ".0")


@prod("V", "array1")
def _(g, e, h):
    return G("index", G("array", "[", h("V"), "]"), "[0]")


def fv(g, name, v):
    """A field value; it may carry attributes of its own."""
    n = G("fieldval", name + ": ", v)
    if g.attr_fn:
        g.decorate(n, "field")
    return n


@prod("V", "mkfield")
def _(g, e, h):
    return G("field", call("mk", h("V")), ".b")


@prod("V", "call2")
def _(g, e, h):
    return call("add", h("V"), h("V"))


@prod("V", "callpath")
def _(g, e, h):
    return call("dbl", h("V"), path=g.rng.choice(["hrt::", "::hrt::", "self::", ""]))


@prod("V", "callfn")
def _(g, e, h):
    f = call("pick", h("V"))
    if g.rng.random() < 0.5:
        f = paren(f)
    return G("callexpr", f, "(", h("V"), ")")


@prod("V", "method")
def _(g, e, h):
    return G("methodcall", h("V", e, "post"), ".plus(", h("V"), ")")


@prod("V", "binary")
def _(g, e, h):
    return G("binary", h("V", e, "op"), g.rng.choice([" + ", " ^ ", " | ", " - "]), h("V", e, "op"), prec="low")


@prod("V", "cast")
def _(g, e, h):
    return G("cast", h("V", e, "post"), " as i32 as i64", prec="low")


@prod("V", "castb")
def _(g, e, h):
    return call("b2i", h("B"))


@prod("V", "neg")
def _(g, e, h):
    return G("unary", g.rng.choice(["-", "!"]), h("V", e, "post"), prec="low")


@prod("V", "deref")
def _(g, e, h):
    return G("unary", "*", G("ref", "&", h("V", e, "post"), prec="low"), prec="low")


@prod("V", "index")
def _(g, e, h):
    return G("index", call("tbl", h("V")), "[", call("ix", h("V")), "]")


@prod("V", "rawaddr")
def _(g, e, h):
    return G("unsafe", "unsafe ", Body([SExpr(G("unary", "*", paren(G("rawaddr", "&raw const ", G("index", "TBL[", call("ix", h("V")), "]"), prec="low")), prec="low"), False)]), prec="blk")


@prod("V", "range")
def _(g, e, h):
    op = g.rng.choice(["..", "..="])
    return call("rlen", G("range", h("V", e, "post"), op, h("V", e, "post"), prec="low"))


@prod("V", "rangefrom")
def _(g, e, h):
    return call("rlen", G("range", h("V", e, "post"), "..", prec="low"))


@prod("V", "rangeto")
def _(g, e, h):
    return call("rlen", G("range", "..", h("V", e, "post"), prec="low"))


@prod("V", "block")
def _(g, e, h):
    return ExprBlock(blk(g, e, h, "V"))


def blk(g, e, h, ty, fn_tail=False):
    """A block of type `ty` whose tail comes from the hole."""
    ss, e2 = g.stmts(e, 1) if g.p["stmts"][1] and g.rng.random() < 0.6 else ([], e)
    t = h(ty, e2, "tail")
    if t.cls in TAILPAREN:
        t = paren(t)
    if g.attr_fn:
        g.decorate(t, "tail")
    return Body(ss + [SExpr(t, False)], fn_tail)


@prod("V", "labeled")
def _(g, e, h):
    l = g.name("'l")
    b = G("if", "if ", h("B", e, "cond"), " ", Body([SExpr(G("break", "break %s " % l, h("V"), prec="low"))]), prec="blk")
    return ExprBlock(Body([SExpr(b, False), SExpr(call("p", G("lit", str(g.id()))), False)]), l + ": ")


@prod("V", "unsafe")
def _(g, e, h):
    return G("unsafe", "unsafe ", blk(g, e, h, "V"), prec="blk")


@prod("V", "if")
def _(g, e, h):
    return G("if", "if ", h("B", e, "cond"), " ", blk(g, e, h, "V"), " else ", blk(g, e, h, "V"), prec="blk")


@prod("V", "elseif")
def _(g, e, h):
    i2 = G("if", "if ", h("B", e, "cond"), " ", blk(g, e, h, "V"), " else ", blk(g, e, h, "V"), prec="blk")
    return G("if", "if ", h("B", e, "cond"), " ", blk(g, e, h, "V"), " else ", Else(i2), prec="blk")


@prod("V", "iflet")
def _(g, e, h):
    x = g.name()
    lt = G("let", "let Some(%s) = " % x, h("O", e, "op"), prec="low")
    return G("if", "if ", lt, " ", blk(g, e.w(vars=e.vars + (x,)), h, "V"), " else ", blk(g, e, h, "V"), prec="blk")


@prod("V", "letchain")
def _(g, e, h):
    x, y = g.name(), g.name()
    c = G("and", G("let", "let Some(%s) = " % x, h("O", e, "post"), prec="low"), " && ", h("B", e, "post"), " && ",
          G("let", "let Ok(%s) = " % y, h("R", e, "post"), prec="low"), prec="low")
    return G("if", "if ", c, " ", blk(g, e.w(vars=e.vars + (x, y)), h, "V"), " else ", blk(g, e, h, "V"), prec="blk")


@prod("V", "match")
def _(g, e, h):
    x = g.name()
    e2 = e.w(vars=e.vars + (x,))
    return Match(h("V", e, "cond"), [(x, h("B", e2, "cond"), h("V", e2, "arm")),
                                     ("3..=9", None, ExprBlock(blk(g, e, h, "V"))),
                                     ("_", h("B", e, "cond"), ExprBlock(blk(g, e, h, "V"))),
                                     ("_", None, h("V", e, "arm"))])


@prod("V", "matcho")
def _(g, e, h):
    x = g.name()
    e2 = e.w(vars=e.vars + (x,))
    return Match(h("O", e, "cond"), [("Some(%s)" % x, None, h("V", e2, "arm")), ("None", None, h("V", e, "arm"))])


@prod("V", "matchret", lambda e: e.fk in ("R", "O"))
def _(g, e, h):
    x = g.name()
    return Match(h("O", e, "cond"), [("Some(%s)" % x, None, G("path", x)), ("None", None, Ret(h(e.fk, e, "any")))])


@prod("V", "loop")
def _(g, e, h):
    e2 = e.w(loop=1, lab=())
    b = SExpr(G("if", "if ", h("B", e2, "cond"), " ", Body([SExpr(G("continue", "continue", prec="low", attrs=None))]), prec="blk"), False)
    return G("loop", "loop ", Body([b, SExpr(G("break", "break ", h("V", e2), prec="low"))]), prec="blk")


@prod("V", "loopl")
def _(g, e, h):
    l = g.name("'l")
    e2 = e.w(loop=1)
    inner = G("loop", "loop ", Body([SExpr(G("break", "break %s " % l, h("V", e2), prec="low"))]), prec="blk")
    return G("loop", l + ": loop ", Body([SExpr(inner, False)]), prec="blk")


@prod("V", "closure_expr")
def _(g, e, h):
    x = g.name()
    e2 = Env("V").w(vars=e.vars + (x,))
    return call("cv", Closure(g.rng.choice(["|%s|", "|%s: i64|", "move |%s|"]) % x, None, h("V", e2, "clo")))


@prod("V", "closure_block")
def _(g, e, h):
    x = g.name()
    e2 = Env("V").w(vars=e.vars + (x,))
    hd, rt = g.rng.choice([("|%s|", None), ("|%s: i64|", None), ("|%s| -> i64", "i64"), ("move |%s| -> i64", "i64")])
    return call("cv", Closure(hd % x, rt, blk(g, e2, h, "V", True)))


@prod("V", "unw")
def _(g, e, h):
    return call("unw", h("R"))


@prod("V", "unwo")
def _(g, e, h):
    return call("unwo", h("O"))


@prod("V", "async")
def _(g, e, h):
    e2 = Env("R").w(vars=e.vars, asy=True)
    t = call("Ok", h("V", e2), path="")
    t.parts[0] = "Ok::<i64, E>("
    return call("unw", call("block_on", G("async", g.rng.choice(["async ", "async move "]), Body(g.stmts(e2, 1)[0] + [SExpr(t, False)]), prec="blk")))


@prod("V", "await")
def _(g, e, h):
    e2 = Env("V").w(vars=e.vars)
    return call("block_on", G("async", "async ", Body([SExpr(G("await", G("methodcall", h("V", e2, "post"), ".rdy()"), ".await"), False)]), prec="blk"))


@prod("V", "paren")
def _(g, e, h):
    return paren(h("V"))


@prod("V", "idm")
def _(g, e, h):
    o, c = g.rng.choice(["()", "[]", "()"])
    return Mac("macro", ["idm!" + o, h("V", e, "mac"), c])


@prod("V", "vecm")
def _(g, e, h):
    return G("index", Mac("macro", ["vec![", h("V", e, "mac"), ", ", h("V", e, "mac"), g.rng.choice(["]", ",]"])]), "[1]")


@prod("V", "addm")
def _(g, e, h):
    return Mac("macro", ["addm!(", h("V", e, "mac"), "; ", h("V", e, "mac"), ")"])


@prod("V", "fmtm")
def _(g, e, h):
    return G("cast", G("methodcall", Mac("macro", ["format!(\"{}{}\", ", h("V", e, "mac"), ", ", h("V", e, "mac"), ")"]), ".len()"), " as i64", prec="low")


@prod("V", "assignexpr", lambda e: e.mut)
def _(g, e, h):
    return ExprBlock(Body([SExpr(G("assign", g.rng.choice(e.mut) + " = ", h("V"), prec="low")), SExpr(G("path", g.rng.choice(e.mut)), False)]))


# ---------------------------------------------------------------- R

@prod("R", "ok")
def _(g, e, h):
    n = call("Ok", h("V"), path="")
    if g.rng.random() < 0.2:
        n.parts[0] = g.rng.choice(["Ok::<i64, E>(", "Result::Ok(", "::std::result::Result::Ok("])
    return n


@prod("R", "err")
def _(g, e, h):
    n = call("Err", call("ev", h("V")))
    if g.rng.random() < 0.2:
        n.parts[0] = g.rng.choice(["Err::<i64, E>(", "Result::Err(", "Result::<i64, E>::Err("])
    return n


@prod("R", "rid")
def _(g, e, h):
    return call("rid", h("R"), path=g.rng.choice(["", "hrt::", ""]))


@prod("R", "parenr")
def _(g, e, h):
    return paren(h("R"))


@prod("R", "tryokr", lambda e: e.fk in ("R", "Q"))
def _(g, e, h):
    return Try(call("okr", h("R")))


@prod("R", "map")
def _(g, e, h):
    x = g.name()
    e2 = Env("V").w(vars=e.vars + (x,))
    return G("methodcall", h("R", e, "post"), ".map(", Closure("|%s|" % x, None, h("V", e2, "clo")), ")")


@prod("R", "andthen")
def _(g, e, h):
    x = g.name()
    e2 = Env("R").w(vars=e.vars + (x,))
    return G("methodcall", h("R", e, "post"), ".and_then(", Closure("|%s|" % x, None, h("R", e2, "clo")), ")")


@prod("R", "orelse")
def _(g, e, h):
    e2 = Env("R").w(vars=e.vars)
    return G("methodcall", h("R", e, "post"), ".or_else(", Closure("|_|", None, blk(g, e2, h, "R", True)), ")")


@prod("R", "cr_typed")
def _(g, e, h):
    x = g.name()
    e2 = Env("R").w(vars=e.vars + (x,))
    ty, rt = g.rng.choice(RTYPES)
    return call("cr", Closure("|%s: i64| -> %s" % (x, ty), rt, blk(g, e2, h, "R", True)))


RTYPES = [("Result<i64, E>", "Result"), ("std::result::Result<i64, hrt::E>", "Result"), ("Res", "Res"),
          ("hrt::Out", "Out"), ("Result<i64, E>", "Result")]


@prod("R", "cr_untyped")
def _(g, e, h):
    x = g.name()
    e2 = Env("R").w(vars=e.vars + (x,))
    return call("cr", Closure(g.rng.choice(["|%s|", "move |%s|"]) % x, None, blk(g, e2, h, "R", True)))


@prod("R", "cr_expr")
def _(g, e, h):
    x = g.name()
    e2 = Env("R").w(vars=e.vars + (x,))
    return call("cr", Closure("|%s|" % x, None, h("R", e2, "clo")))


@prod("R", "ifr")
def _(g, e, h):
    return G("if", "if ", h("B", e, "cond"), " ", blk(g, e, h, "R"), " else ", blk(g, e, h, "R"), prec="blk")


@prod("R", "matchr")
def _(g, e, h):
    x = g.name()
    e2 = e.w(vars=e.vars + (x,))
    return Match(h("R", e, "cond"), [("Ok(%s)" % x, h("B", e2, "cond"), h("R", e2, "arm")),
                                     ("Ok(%s)" % x, None, ExprBlock(blk(g, e2, h, "R"))),
                                     ("Err(_)", None, h("R", e, "arm"))])


@prod("R", "blockr")
def _(g, e, h):
    return ExprBlock(blk(g, e, h, "R"))


@prod("R", "unsafer")
def _(g, e, h):
    return G("unsafe", "unsafe ", blk(g, e, h, "R"), prec="blk")


@prod("R", "loopr")
def _(g, e, h):
    e2 = e.w(loop=1)
    return G("loop", "loop ", Body([SExpr(G("break", "break ", h("R", e2), prec="low"))]), prec="blk")


@prod("R", "okor")
def _(g, e, h):
    return G("methodcall", h("O", e, "post"), ".ok_or(", call("ev", h("V")), ")")


@prod("R", "asyncr")
def _(g, e, h):
    e2 = Env("R").w(vars=e.vars, asy=True)
    return call("block_on", G("async", "async ", blk(g, e2, h, "R"), prec="blk"))


@prod("R", "await_r", lambda e: e.asy)
def _(g, e, h):
    return G("await", call("ar", h("V")), ".await")


@prod("R", "idmr")
def _(g, e, h):
    return Mac("macro", ["idm!(", h("R", e, "mac"), ")"])


# ---------------------------------------------------------------- O

@prod("O", "some")
def _(g, e, h):
    return call("Some", h("V"))


@prod("O", "okm")
def _(g, e, h):
    return G("methodcall", h("R", e, "post"), ".ok()")


@prod("O", "ifo")
def _(g, e, h):
    return G("if", "if ", h("B", e, "cond"), " ", blk(g, e, h, "O"), " else ", blk(g, e, h, "O"), prec="blk")


@prod("O", "co")
def _(g, e, h):
    x = g.name()
    e2 = Env("O").w(vars=e.vars + (x,))
    hd, rt = g.rng.choice([("|%s|", None), ("|%s: i64| -> Option<i64>", "Option")])
    return call("co", Closure(hd % x, rt, blk(g, e2, h, "O", True)))


# ---------------------------------------------------------------- B

@prod("B", "cmp")
def _(g, e, h):
    return G("cmp", h("V", e, "post"), g.rng.choice([" < ", " == ", " >= "]), h("V", e, "post"), prec="low")


@prod("B", "and")
def _(g, e, h):
    return G("lazy", h("B", e, "post"), g.rng.choice([" && ", " || "]), h("B", e, "post"), prec="low")


@prod("B", "not")
def _(g, e, h):
    return G("unary", "!", h("B", e, "post"), prec="low")


@prod("B", "issome")
def _(g, e, h):
    return G("methodcall", h("O", e, "post"), ".is_some()")


@prod("B", "matches")
def _(g, e, h):
    return Mac("macro", ["matches!(", h("V", e, "mac"), ", 1 | 2 | 5)"])


# ---------------------------------------------------------------- statements

@stmt("let")
def _(g, e, h, d):
    x = g.name()
    m = g.rng.random() < 0.4
    s = G("letstmt", "let %s%s%s = " % ("mut " if m else "", x, g.rng.choice(["", ": i64"])), h("V"), ";")
    return s, e.w(vars=e.vars + (x,), mut=e.mut + ((x,) if m else ()))


@stmt("letarr")
def _(g, e, h, d):
    x = g.name()
    s = G("letstmt", "let mut %s = " % x, call("tbl", h("V")), ";")
    return s, e.w(arr=e.arr + (x,))


@stmt("lettuple")
def _(g, e, h, d):
    x, y = g.name(), g.name()
    s = G("letstmt", "let (%s, mut %s) = " % (x, y), G("tuple", "(", h("V"), ", ", h("V"), ")"), ";")
    return s, e.w(vars=e.vars + (x, y), mut=e.mut + (y,))


@stmt("letelse", lambda e: e.fk in ("R", "O"))
def _(g, e, h, d):
    x = g.name()
    ss = g.stmts(e, 1)[0]
    s = G("letelse", "let Some(%s) = " % x, g.fit(h("O", e, "op"), "post"), " else ",
          Body(ss + [SExpr(Ret(h(e.fk, e)), g.rng.random() < 0.7)]), ";")
    return s, e.w(vars=e.vars + (x,))


@stmt("lettyped_r")
def _(g, e, h, d):
    return G("letstmt", "let _r: Result<i64, E> = ", h("R"), ";"), e


@stmt("letdiscard")
def _(g, e, h, d):
    return G("letstmt", "let _ = ", h(g.rng.choice("VROB")), ";"), e


@stmt("guard")
def _(g, e, h, d):
    return G("letstmt", "let _%s = " % g.name("g"), call("dg", h("V")), ";"), e


@stmt("sink")
def _(g, e, h, d):
    return SExpr(call("sink", h(g.rng.choice("VROB")))), e


@stmt("trystmt", lambda e: e.fk in ("R", "O"))
def _(g, e, h, d):
    return SExpr(Try(h(e.fk, e, "post"))), e


@stmt("assign", lambda e: e.mut)
def _(g, e, h, d):
    return SExpr(G("assign", g.rng.choice(e.mut) + " = ", h("V"), prec="low")), e


@stmt("compound", lambda e: e.mut)
def _(g, e, h, d):
    return SExpr(G("compound", g.rng.choice(e.mut) + g.rng.choice([" ^= ", " |= ", " &= "]), h("V"), prec="low")), e


@stmt("assignidx", lambda e: e.arr)
def _(g, e, h, d):
    a = g.rng.choice(e.arr)
    op = g.rng.choice([" = ", " ^= "])
    return SExpr(G("assign", a + "[", call("ix", h("V")), "]" + op, h("V"), prec="low")), e


@stmt("destructure", lambda e: len(e.mut) > 1)
def _(g, e, h, d):
    a, b = g.rng.sample(e.mut, 2)
    return SExpr(G("assign", "(%s, %s) = " % (a, b), G("tuple", "(", h("V"), ", ", h("V"), ")"), prec="low")), e


@stmt("if")
def _(g, e, h, d):
    b1 = Body(g.stmts(e, d - 1)[0])
    parts = ["if ", h("B", e, "cond"), " ", b1]
    if g.rng.random() < 0.5:
        parts += [" else ", Body(g.stmts(e, d - 1)[0])]
    elif g.rng.random() < 0.3:
        parts += [" else ", Else(Node("if", ["if ", h("B", e, "cond"), " ", Body(g.stmts(e, d - 1)[0])], "blk"))]
    return SExpr(Node("if", parts, "blk"), False), e


@stmt("ifret", lambda e: e.fk in ("R", "O"))
def _(g, e, h, d):
    ss = g.stmts(e, 0)[0] if d > 1 else []
    n = Node("if", ["if ", h("B", e, "cond"), " ", Body(ss + [SExpr(Ret(h(e.fk, e)), g.rng.random() < 0.6)])], "blk")
    return SExpr(n, False), e


@stmt("while")
def _(g, e, h, d):
    e2 = e.w(loop=1)
    return SExpr(Node("while", ["while ", h("B", e, "cond"), " ", lbody(g, e2, h, d)], "blk"), False), e


def lbody(g, e2, h, d):
    ss = g.stmts(e2, d - 1)[0]
    # the budget of a loop is bounded by the fuel of `c`
    ss.append(SExpr(G("if", "if ", G("not", "!", call("c", G("lit", str(g.id())))), " ", Body([SExpr(G("break", "break", prec="low"))]), prec="blk"), False))
    if g.rng.random() < 0.5:
        ss.append(SExpr(call("sink", h("V", e2)), g.rng.random() < 0.5))
    return Body(ss)


@stmt("whilelet")
def _(g, e, h, d):
    x = g.name()
    e2 = e.w(loop=1, vars=e.vars + (x,))
    lt = G("let", "let Some(%s) = " % x, h("O", e, "op"), prec="low")
    return SExpr(Node("while", ["while ", lt, " ", lbody(g, e2, h, d)], "blk"), False), e


@stmt("for")
def _(g, e, h, d):
    x = g.name()
    e2 = e.w(loop=1, vars=e.vars + (x,))
    return SExpr(Node("for", ["for %s in " % x, call("rng", h("V")), " ", Body(g.stmts(e2, d - 1)[0] + [SExpr(call("sink", h("V", e2)), g.rng.random() < 0.5)])], "blk"), False), e


@stmt("break", lambda e: e.loop)
def _(g, e, h, d):
    return SExpr(Node("if", ["if ", h("B", e, "cond"), " ", Body([SExpr(G("break", g.rng.choice(["continue", "continue"]), prec="low"))])], "blk"), False), e


@stmt("matchstmt")
def _(g, e, h, d):
    x = g.name()
    e2 = e.w(vars=e.vars + (x,))
    m = Match(h("V", e, "cond"), [(x, h("B", e2, "cond"), ExprBlock(Body(g.stmts(e2, d - 1)[0]))),
                                  ("_", None, call("sink", h("V", e)))])
    return SExpr(m, False), e


@stmt("blockstmt")
def _(g, e, h, d):
    return SExpr(ExprBlock(Body(g.stmts(e, d - 1)[0])), False), e


@stmt("unsafestmt")
def _(g, e, h, d):
    return SExpr(G("unsafe", "unsafe ", Body(g.stmts(e, d - 1)[0]), prec="blk"), False), e


@stmt("innerfn", lambda e: e.items)
def _(g, e, h, d):
    f = g.name("inner")
    e2 = Env("R").w(vars=("q",), items=False)
    ty, rt = g.rng.choice(RTYPES)
    fn = Fn(f, "fn %s(q: i64) -> %s" % (f, ty), rt, Body(g.stmts(e2, 1)[0] + [SExpr(h("R", e2, "tail"), False)], True))
    return Seq(g.dec(fn), SExpr(call("sink", call(f, h("V"))))), e


class Seq(Node):
    """Several statements produced as one."""
    kind = "seq"
    attrable = False

    def __init__(self, *ss):
        parts = []
        for i, s in enumerate(ss):
            if i:
                parts.append(" ")
            parts.append(s)
        super().__init__("seq", parts, attrs=None)



@stmt("innerconst", lambda e: e.items)
def _(g, e, h, d):
    k = g.name("K")
    e2 = Env("R").w(items=False)
    ty, rt = g.rng.choice([("Result<i64, E>", "Result")])
    cl = Closure("|| -> " + ty, rt, Body([SExpr(h("R", e2, "tail"), False)], True))
    it = G("constitem", g.rng.choice(["const", "static"]) + " %s: fn() -> Result<i64, E> = " % k, cl, ";")
    return Seq(g.dec(it), SExpr(call("sink", call("rid", Node("call", ["%s()" % k], call_ident=k))))), e


@stmt("innermod", lambda e: e.items)
def _(g, e, h, d):
    m, f = g.name("m"), g.name("inner")
    e2 = Env("R").w(vars=("q",), items=False)
    fn = Fn(f, "fn %s(q: i64) -> Result<i64, E>" % f, "Result", Body([SExpr(h("R", e2, "tail"), False)], True), vis="pub ")
    it = G("mod", "mod %s { use super::*; " % m, g.dec(fn), " }")
    return Seq(g.dec(it), SExpr(call("sink", Node("call", ["%s::%s(" % (m, f), h("V"), ")"], call_ident=f)))), e


@stmt("innerimpl", lambda e: e.items)
def _(g, e, h, d):
    t = g.name("T")
    e2 = Env("R").w(vars=("q",), items=False)
    fn = Fn("get", "fn get(&self, q: i64) -> Result<i64, E>", "Result", Body([SExpr(h("R", e2, "tail"), False)], True))
    k = G("implconst", "const K: fn() -> Option<i64> = ", Closure("|| -> Option<i64>", "Option", Body([SExpr(h("O", Env("O").w(items=False), "tail"), False)], True)), ";")
    it = G("impl", "impl %s { " % t, g.dec(fn), " ", g.dec(k), " }")
    return Seq(G("structitem", "struct %s;" % t, attrs=None), g.dec(it),
               SExpr(call("sink", G("methodcall", t + ".get(", h("V"), ")"))),
               SExpr(call("sink", G("callexpr", "(%s::K)()" % t)))), e


@stmt("innertrait", lambda e: e.items)
def _(g, e, h, d):
    t, u = g.name("Tr"), g.name("T")
    e2 = Env("R").w(vars=("q",), items=False)
    fn = Fn("get", "fn get(&self, q: i64) -> Res", "Res", Body([SExpr(h("R", e2, "tail"), False)], True))
    k = G("traitconst", "const K: fn() -> Result<i64, E> = ", Closure("|| -> Result<i64, E>", "Result", Body([SExpr(h("R", Env("R").w(items=False), "tail"), False)], True)), ";")
    it = G("trait", "trait %s { " % t, g.dec(fn), " ", g.dec(k), " }")
    return Seq(g.dec(it), G("items", "struct %s; impl %s for %s {}" % (u, t, u)),
               SExpr(call("sink", G("methodcall", u + ".get(", h("V"), ")"))),
               SExpr(call("sink", G("callexpr", "(<%s as %s>::K)()" % (u, t))))), e



@stmt("run")
def _(g, e, h, d):
    """Statements inside a macro: the last one is no tail."""
    o, c = g.rng.choice([("(", ");"), ("{ ", " }"), ("[", "];")])
    parts = ["run!" + o]
    parts += [SExpr(call("sink", h("V", e, "mac"))), " ", SExpr(call("sink", h("V", e, "mac")), g.rng.random() < 0.5), c]
    return Mac("macstmt", parts), e


@stmt("storeclosure")
def _(g, e, h, d):
    f, x = g.name("f"), g.name()
    e2 = Env("R").w(vars=e.vars + (x,))
    ty, rt = g.rng.choice(RTYPES)
    s = G("letstmt", "let %s = " % f, Closure("|%s: i64| -> %s" % (x, ty), rt, blk(g, e2, h, "R", True)), ";")
    return Seq(g.dec(s), SExpr(call("sink", Node("call", ["%s(" % f, h("V"), ")"], call_ident=f)))), e


@stmt("return", lambda e: e.fk in ("R", "O"))
def _(g, e, h, d):
    # keeps the rest reachable
    return SExpr(Node("if", ["if ", h("B", e, "cond"), " ", Body([SExpr(Ret(h(e.fk, e)))])], "blk"), False), e


# ---------------------------------------------------------------- whole functions

FNTY = {"R": [("Result<i64, E>", "Result"), ("Result<i64, E>", "Result"), ("Res", "Res"), ("hrt::Out", "Out"),
              ("std::result::Result<i64, E>", "Result")],
        "O": [("Option<i64>", "Option")], "V": [("i64", "i64")],
        "Q": [("Result<i64, E2>", "Result")]}


def make_fn(g, name, fk="R", tail=None, body=None, attrs=None, d=None, sig_extra=None):
    e = Env(fk)
    ty, rt = g.rng.choice(FNTY[fk])
    if fk == "Q":
        t = call("Ok", g.expr("V", e, d or g.p["depth"]))
        b = Body(g.stmts(e, (d or g.p["depth"]) - 1)[0] + [SExpr(t, False)], True)
    elif body is None:
        b = g.body(fk, e, d or g.p["depth"], True)
    else:
        b = body
    return Fn(name, "fn %s() -> %s" % (name, ty), rt, b, vis="pub ")


def wrap_item(g, name, fk="R"):
    """A random annotated item: fn, impl, trait, mod."""
    k = g.rng.random()
    if k < 0.6:
        f = make_fn(g, name, fk)
        return "", f, name + "()"
    if k < 0.75:
        fs, calls = [], []
        for i in range(g.rng.randint(1, 2)):
            fk2 = g.rng.choice("ROV")
            f = make_fn(g, "m%d" % i, fk2)
            f.sig = f.sig.replace("()", "(&self)", 1)
            f.parts[0] = f.vis + f.sig + " "
            fs.append(f)
            calls.append("T_%s.m%d()" % (name, i))
        kc = G("implconst", "const K: fn() -> Result<i64, E> = ", Closure("|| -> Result<i64, E>", "Result", g.body("R", Env("R"), 2, True)), ";")
        calls.append("(T_%s::K)()" % name)
        it = G("impl", "impl T_%s { " % name, *inter([g.dec(x) for x in fs + [kc]]), " }")
        return "pub struct T_%s;" % name, it, "(%s)" % ", ".join(calls)
    if k < 0.87:
        f = make_fn(g, "m0", g.rng.choice("ROV"))
        f.vis = ""
        f.sig = f.sig.replace("()", "(&self)", 1)
        f.parts[0] = f.vis + f.sig + " "
        kc = G("traitconst", "const K: fn() -> Option<i64> = ", Closure("|| -> Option<i64>", "Option", g.body("O", Env("O"), 2, True)), ";")
        it = G("trait", "pub trait Tr_%s { " % name, g.dec(f), " ", g.dec(kc), " fn req(&self) -> i64 { 4 } }")
        return "pub struct T_%s; impl Tr_%s for T_%s {}" % (name, name, name), it, \
            "(Tr_%s::m0(&T_%s), (<T_%s as Tr_%s>::K)())" % (name, name, name, name)
    fs = [make_fn(g, "f%d" % i, g.rng.choice("ROV")) for i in range(2)]
    deep = G("mod", "pub mod deep { use super::*; ", g.dec(make_fn(g, "f9", "R")), " }")
    st = G("staticitem", "pub static ST: fn() -> Result<i64, E> = ", Closure("|| -> Result<i64, E>", "Result", g.body("R", Env("R"), 2, True)), ";")
    it = G("mod", "pub mod m_%s { use super::*; " % name, *inter([g.dec(x) for x in fs + [deep, st]]), " }")
    return "", it, "(m_%s::f0(), m_%s::f1(), m_%s::deep::f9(), (m_%s::ST)())" % (name, name, name, name)


def inter(xs):
    o = []
    for x in xs:
        o += [x, " "]
    return o
