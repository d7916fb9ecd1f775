"""Syntax trees of generated programs and the specification of what hooq must do with them.

`Node.src` prints the program with its hooq attributes and records where every token of interest
lands; `Node.ref` prints the same program with the hooks written out by hand, following the
documented rules (this file is the oracle: it knows nothing of hooq's implementation).
"""
import re

from . import excerpt


class Reject(Exception):
    """The program cannot be expressed; the generator drops it."""


class Writer:
    """Source text with positions (1-based line and column, in characters)."""

    def __init__(self, layout=None):
        self.buf = []
        self.line = 1
        self.col = 1
        self.off = 0
        self.layout = layout  # random.Random or None

    def w(self, s):
        self.buf.append(s)
        self.off += len(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rfind("\n")
        else:
            self.col += len(s)

    def gap(self):
        r = self.layout
        if r is None:
            return
        x = r.random()
        if x < 0.72:
            return
        if x < 0.80:
            self.w(" " * r.randint(1, 5))
        elif x < 0.88:
            self.w("\n" + " " * r.randint(0, 9))
        elif x < 0.92:
            self.w(r.choice([" /* c */ ", "/*é日本*/", "/* 🦀 \n λ */", "\t", "\t\t "]))
        elif x < 0.96:
            self.w(r.choice([" // ?; return Err(1)\n", "// \"é ' \n\t", "\n\n   ", "\n\t"]))
        else:
            self.w("\n" * r.randint(1, 3))

    def text(self):
        return "".join(self.buf)


# ------------------------------------------------------------------ settings

class Meth:
    def __init__(self, text):
        t = text.strip()
        self.raw = t
        self.exc = t.endswith("!")
        self.ins = t.startswith(".")
        self.body = t[1:].strip() if self.ins else t

    def split(self, cq):
        """(insert?, body, consumes `?`)"""
        if cq and self.exc:
            return self.ins, self.body[:-1].rstrip(), True
        return self.ins, self.body, False


class Flavor:
    FIELDS = ("method", "targets", "idents", "ignore", "rtypes", "inmac", "binds", "traits")

    def __init__(self, method, targets=("?", "return", "tail expr"), idents=("Err",), ignore=("Ok",),
                 rtypes=("Result",), inmac=True, binds=None, traits=()):
        self.method = method if isinstance(method, Meth) else Meth(method)
        self.targets = frozenset(targets)
        self.idents = tuple(idents)
        self.ignore = tuple(ignore)
        self.rtypes = tuple(rtypes)
        self.inmac = inmac
        self.binds = dict(binds or {})
        self.traits = tuple(traits)
        self.subs = {}

    def clone(self):
        f = Flavor(self.method, self.targets, self.idents, self.ignore, self.rtypes, self.inmac,
                   self.binds, self.traits)
        f.subs = {k: v.clone() for k, v in self.subs.items()}
        return f


class FnInfo:
    def __init__(self, name, sig, ret, closure, named):
        self.name = name      # $fn_name
        self.sig = sig        # $fn_sig
        self.ret = ret        # last path segment of the declared type or None
        self.closure = closure
        self.named = named    # nearest enclosing function name


class Root:
    def __init__(self, path="gen.rs", cq=False, text=""):
        self.text = text      # the source file
        self.counts = {"?": 0, "return": 0, "tail expr": 0}
        self.sites = []
        self.path = path
        self.cq = cq
        self.stack = []
        self.skipped = 0


class Ctx:
    __slots__ = ("chain", "targets", "idents", "ignore", "rtypes", "inmac", "binds", "skip", "fn", "root")

    @staticmethod
    def from_flavor(fl, root):
        c = Ctx()
        c.chain = (fl.method,)
        c.targets = fl.targets
        c.idents = fl.idents
        c.ignore = fl.ignore
        c.rtypes = fl.rtypes
        c.inmac = fl.inmac
        c.binds = dict(fl.binds)
        c.skip = None
        c.fn = None
        c.root = root
        return c

    def copy(self):
        c = Ctx()
        for s in Ctx.__slots__:
            setattr(c, s, getattr(self, s))
        return c

    def sub(self):
        c = self.copy()
        if c.skip != "all":
            c.skip = None
        return c

    def apply(self, attrs):
        """The settings in force at a node carrying `attrs`."""
        c = self.copy()
        method = targets = idents = ignore = rtypes = inmac = None
        binds = {}
        skip = skip_all = False
        for a in attrs:
            k, v = a.kind, a.val
            if k == "plain":
                continue
            if k == "skip":
                skip = True
            elif k == "skip_all":
                skip_all = True
            elif k == "method":
                method = v
            elif k == "targets":
                targets = v
            elif k == "idents":
                inc = [x for x in v if not x.startswith("!")]
                exc = [x[1:] for x in v if x.startswith("!")]
                idents = tuple(inc)
                if ignore is not None:
                    ignore = tuple(ignore) + tuple(exc)
                elif exc:
                    ignore = tuple(exc)
            elif k == "ignore":
                ignore = tuple(v) if ignore is None else tuple(ignore) + tuple(v)
            elif k == "rtypes":
                rtypes = tuple(v)
            elif k == "inmac":
                inmac = v
            elif k == "bind":
                binds[v[0]] = v[1]
            elif k == "flavor":
                setting, fl = v
                if setting in ("flavor", "method"):
                    method = fl.method
                if setting in ("flavor", "hook_targets"):
                    targets = fl.targets
                if setting in ("flavor", "tail_expr_idents"):
                    idents, ignore = fl.idents, fl.ignore
                if setting in ("flavor", "result_types"):
                    rtypes = fl.rtypes
                if setting in ("flavor", "hook_in_macros"):
                    inmac = fl.inmac
                if setting in ("flavor", "bindings"):
                    binds.update(fl.binds)
            else:
                raise AssertionError(k)
        if method is not None:
            c.chain = (method,) + self.chain
        if targets is not None:
            c.targets = frozenset(targets)
        if idents is not None:
            c.idents = idents
        if ignore is not None:
            c.ignore = ignore
        if rtypes is not None:
            c.rtypes = rtypes
        if inmac is not None:
            c.inmac = inmac
        if binds:
            c.binds = {**self.binds, **binds}
        if self.skip != "all":
            if skip_all:
                c.skip = "all"
            elif skip:
                c.skip = "same"
        return c


class Attr:
    def __init__(self, kind, val, text):
        self.kind, self.val, self.text = kind, val, text


def strs(xs):
    return ", ".join('"%s"' % x for x in xs)


def a_skip():
    return Attr("skip", None, "#[hooq::skip]")


def a_skip_all():
    return Attr("skip_all", None, "#[hooq::skip_all]")


def a_method(t):
    return Attr("method", Meth(t), "#[hooq::method(%s)]" % t)


TARGET_SPELL = {"?": ["?", "question"], "return": ["return"],
                "tail expr": ["tail_expr", "tail expr", "tailexpr", "tailExpr"]}


def spell_targets(r, ts):
    if len(ts) == 3 and r.random() < 0.3:
        return ["all"]
    return [r.choice(TARGET_SPELL[t]) for t in ts]


def a_targets(ts, spell=None):
    ts = list(ts)
    if spell is None:
        names = [TARGET_SPELL[t][0] for t in ts]
    else:
        names = spell
    return Attr("targets", frozenset(ts), "#[hooq::hook_targets(%s)]" % strs(names))


def a_idents(xs):
    return Attr("idents", list(xs), "#[hooq::tail_expr_idents(%s)]" % strs(xs))


def a_ignore(xs):
    return Attr("ignore", list(xs), "#[hooq::ignore_tail_expr_idents(%s)]" % strs(xs))


def a_rtypes(xs):
    return Attr("rtypes", list(xs), "#[hooq::result_types(%s)]" % strs(xs))


def a_inmac(b):
    return Attr("inmac", b, "#[hooq::hook_in_macros(%s)]" % ("true" if b else "false"))


def a_bind(n, e, form=0):
    t = ["#[hooq::binding(%s = %s)]", "#[hooq::var(%s = %s)]", "#[hooq::%s = %s]"][form % 3] % (n, e)
    return Attr("bind", (n, e), t)


def a_flavor(setting, name, fl, string=False):
    v = '"%s"' % name if string else name.replace(".", "::")
    return Attr("flavor", (setting, fl), "#[hooq::%s = %s]" % (setting, v))


def a_plain(t):
    return Attr("plain", None, t)


# ------------------------------------------------------------------ meta variables

def rstr(s):
    """Rust string literal."""
    o = '"'
    for ch in s:
        if ch == "\\":
            o += "\\\\"
        elif ch == '"':
            o += '\\"'
        elif ch == "\n":
            o += "\\n"
        elif ch == "\t":
            o += "\\t"
        elif ch == "\r":
            o += "\\r"
        else:
            o += ch
    return o + '"'


def ordinal(n, kind):
    if n % 100 in (11, 12, 13):
        s = "th"
    else:
        s = {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")
    return "%d%s %s" % (n, s, kind)


ALIAS = {"col": "column", "nth": "count", "fnname": "fn_name", "fnsig": "fn_sig", "sofar": "so_far",
         "vars": "bindings", "hooqmeta": "hooq_meta"}
META = {"line", "column", "path", "file", "expr", "source", "count", "fn_name", "fn_sig", "so_far",
        "bindings", "hooq_meta"}
# only in the oracle's methods: what the excerpt macros make of the target
EXTRA = {
    "x_default": excerpt.default,
    "x_one": excerpt.one_line,
    "x_ex3": lambda t, a, b: excerpt.pretty(t, a, b, True, False, True, None, 3),
    "x_ex2": lambda t, a, b: excerpt.pretty(t, a, b, True, True, True, 7, 2),
    "x_num": lambda t, a, b: excerpt.pretty(t, a, b, True, True, False),
    "x_plain": lambda t, a, b: excerpt.pretty(t, a, b, False, False, True),
}
VAR = re.compile(r"\$\s*([^\W\d]\w*)")


class Site:
    def __init__(self, kind, ctx, pos, node, expr, nth):
        self.kind, self.ctx, self.pos, self.node, self.expr, self.nth = kind, ctx, pos, node, expr, nth
        self.source = node.text()

    def bindings(self):
        parts = []
        for k in sorted(self.ctx.binds):
            v = self.ctx.binds[k]
            parts.append("(::std::string::ToString::to_string(%s), ::hooq::BindingPayload { "
                         "expr: ::std::string::ToString::to_string(stringify!(%s)), "
                         "value: ::std::rc::Rc::new(%s) as ::std::rc::Rc<dyn ::std::any::Any> })"
                         % (rstr(k), v, v))
        return "::std::collections::HashMap::<String, ::hooq::BindingPayload>::from([%s])" % ", ".join(parts)

    def expand(self, text, depth=0):
        def f(m):
            n = ALIAS.get(m.group(1), m.group(1))
            c = self.ctx
            if n in EXTRA:
                return rstr(EXTRA[n](c.root.text, self.node.o0, self.node.o1))
            if n not in META:
                if n not in c.binds:
                    raise Reject("unbound $" + n)
                return "(%s)" % c.binds[n]
            if n == "line":
                return "%dusize" % self.pos[0]
            if n == "column":
                return "%dusize" % self.pos[1]
            if n == "path":
                return rstr(c.root.path)
            if n == "file":
                return rstr(c.root.path.split("/")[-1])
            if n == "expr":
                return "(%s)" % self.expr
            if n == "source":
                return self.source
            if n == "count":
                return rstr(ordinal(self.nth, self.kind))
            if n == "fn_name":
                return rstr(c.fn.name if c.fn else "<unknown>")
            if n == "fn_sig":
                return rstr(c.fn.sig if c.fn else "<unknown>")
            if n == "so_far":
                if depth + 1 >= len(c.chain):
                    raise Reject("no $so_far")
                _, body, _ = c.chain[depth + 1].split(c.root.cq)
                return self.expand(body, depth + 1)
            if n == "bindings":
                return self.bindings()
            if n == "hooq_meta":
                return ("::hooq::HooqMeta { line: %dusize, column: %dusize, path: %s, file: %s, "
                        "source_str: stringify!(%s), count: %s, bindings: %s }"
                        % (self.pos[0], self.pos[1], rstr(c.root.path), rstr(c.root.path.split("/")[-1]),
                           self.source, rstr(ordinal(self.nth, self.kind)), self.bindings()))
            raise AssertionError(n)
        return VAR.sub(f, text)


def hook(kind, ctx, pos, node, expr):
    """Text after hooking (or not) and whether `?` is consumed. Counts the target unless skipped."""
    root = ctx.root
    if ctx.skip:
        root.skipped += 1
        root.sites.append((kind, "skipped", tuple(root.stack[-3:])))
        return expr, False
    root.counts[kind] += 1
    if kind not in ctx.targets:
        root.sites.append((kind, "off", tuple(root.stack[-3:])))
        return expr, False
    root.sites.append((kind, "hooked", tuple(root.stack[-3:])))
    s = Site(kind, ctx, pos, node, expr, root.counts[kind])
    ins, body, exc = ctx.chain[0].split(root.cq)
    t = s.expand(body)
    if ins:
        return "(%s).%s" % (expr, t), exc
    return "(%s)" % t if kind == "?" else t, exc


def selected(ctx, node, fn_tail):
    ci = node.call_ident
    if ci is not None and ci in ctx.idents:
        return True
    if not fn_tail:
        return False
    is_res = ctx.fn is not None and ctx.fn.ret is not None and ctx.fn.ret in ctx.rtypes
    return is_res and not (ci is not None and ci in ctx.ignore)


# ------------------------------------------------------------------ nodes

class Node:
    """Generic syntax: text and children in source order, all in the node's own scope."""
    kind = "g"
    call_ident = None
    attrable = True

    def __init__(self, cls, parts, prec="post", attrs=None, call_ident=None):
        self.cls = cls
        self.parts = parts
        self.prec = prec
        self.attrs = attrs or []
        self.call_ident = call_ident
        self.start = None
        self.pos = None

    # --- printing with attributes
    def src(self, w):
        for a in self.attrs:
            w.w(a.text + " ")
            w.gap()
        self.start = (w.line, w.col)
        self.o0 = w.off
        self.src_inner(w)
        self.o1 = w.off

    def src_inner(self, w):
        for i, x in enumerate(self.parts):
            if isinstance(x, str):
                w.w(x)
            else:
                if i:
                    w.gap()
                x.src(w)

    def text(self, top=True):
        """The node's own text; `top` leaves out its own hooq attributes."""
        o = "".join(a.text + " " for a in self.attrs if not top or a.kind == "plain")
        return o + self.text_inner()

    def text_inner(self):
        return "".join(x if isinstance(x, str) else x.text(False) for x in self.parts)

    # --- hooks by hand
    def plain_attrs(self):
        return "".join(a.text + " " for a in self.attrs if a.kind == "plain")

    def ref(self, ctx):
        c = ctx.apply(self.attrs)
        ctx.root.stack.append(self.cls)
        t = self.plain_attrs() + self.ref_inner(c)
        ctx.root.stack.pop()
        return t

    def ref_inner(self, c):
        return "".join(x if isinstance(x, str) else x.ref(c) for x in self.parts)

    def children(self):
        return [x for x in self.parts if not isinstance(x, str)]

    def walk(self):
        yield self
        for x in self.children():
            yield from x.walk()


class Try(Node):
    kind = "try"

    def __init__(self, child, attrs=None):
        super().__init__("try", [child, "?"], "post", attrs)
        self.child = child

    def src_inner(self, w):
        self.child.src(w)
        w.gap()
        self.pos = (w.line, w.col)
        w.w("?")

    def ref_inner(self, c):
        inner = self.child.ref(c)
        t, exc = hook("?", c, self.pos, self, inner)
        return t if exc else t + "?"


class Ret(Node):
    kind = "ret"

    def __init__(self, child, attrs=None):
        super().__init__("return", ["return ", child], "low", attrs)
        self.child = child

    def src_inner(self, w):
        self.pos = (w.line, w.col)
        w.w("return ")
        w.gap()
        self.child.src(w)

    def ref_inner(self, c):
        inner = self.child.ref(c)
        if selected(c, self.child, True):
            inner, _ = hook("return", c, self.pos, self, inner)
        return "return " + inner


class SExpr(Node):
    """Expression statement (attributes belong to the expression)."""
    kind = "sexpr"

    def __init__(self, e, semi=True):
        super().__init__("stmt", [e, ";" if semi else ""])
        self.e = e
        self.semi = semi


def tail_ref(e, ctx, fn_tail):
    c = ctx.apply(e.attrs)
    ctx.root.stack.append(e.cls)
    inner = e.ref_inner(c)
    ctx.root.stack.pop()
    if not isinstance(e, Ret) and selected(c, e, fn_tail):
        ctx.root.stack.append("fn-tail" if fn_tail else "block-tail")
        t, _ = hook("tail expr", c, e.start, e, inner)
        ctx.root.stack.pop()
        return e.plain_attrs() + t
    return e.plain_attrs() + inner


class Body(Node):
    """`{ statements }`: a nested scope, the last expression is a tail."""
    kind = "body"

    def __init__(self, stmts, fn_tail=False):
        self.stmts = stmts
        self.fn_tail = fn_tail
        parts = ["{ "]
        for s in stmts:
            parts += [s, " "]
        parts.append("}")
        super().__init__("body", parts, "blk")

    def ref_inner(self, c):
        c = c.sub()
        o = ["{ "]
        for i, s in enumerate(self.stmts):
            if i == len(self.stmts) - 1 and isinstance(s, SExpr) and not s.semi:
                o.append(tail_ref(s.e, c, self.fn_tail))
            else:
                o.append(s.ref(c))
            o.append(" ")
        o.append("}")
        return "".join(o)


class Match(Node):
    kind = "match"

    def __init__(self, scrut, arms):
        self.scrut, self.arms = scrut, arms
        parts = ["match ", scrut, " { "]
        for pat, guard, body in arms:
            parts.append(pat)
            if guard is not None:
                parts += [" if ", guard]
            parts += [" => ", body, ", "]
        parts.append("}")
        super().__init__("match", parts, "blk")

    def ref_inner(self, c):
        o = ["match ", self.scrut.ref(c), " { "]
        c = c.sub()
        for pat, guard, body in self.arms:
            o.append(pat)
            if guard is not None:
                o += [" if ", guard.ref(c)]
            o.append(" => ")
            if isinstance(body, ExprBlock):
                o.append(body.ref(c))
            else:
                o.append(tail_ref(body, c, False))
            o.append(", ")
        o.append("}")
        return "".join(o)


class Else(Node):
    """The `if` of an `else if`: a branch, hence a nested scope."""
    kind = "else"

    def __init__(self, n):
        super().__init__("else", [n], "blk")
        self.attrable = False

    def ref_inner(self, c):
        return self.parts[0].ref(c.sub())


class ExprBlock(Node):
    """`{ .. }` or `'l: { .. }` as an expression."""
    kind = "eblock"

    def __init__(self, body, label=""):
        super().__init__("block", [label, body] if label else [body], "blk")


class Closure(Node):
    kind = "closure"

    def __init__(self, header, ret, body):
        """`header` up to and including a declared return type; `ret` its last segment."""
        super().__init__("closure", [header + " ", body], "low")
        self.header, self.ret_, self.body = header, ret, body

    def ref_inner(self, c):
        c = c.copy()
        named = c.fn.named if c.fn else "<unknown>"
        sig = "".join(a.text for a in self.attrs if a.kind == "plain") + self.header + " {}"
        c.fn = FnInfo("__closure_in_%s__" % named, sig, self.ret_, True, named)
        if isinstance(self.body, Body):
            return self.header + " " + self.body.ref(c)
        return self.header + " " + tail_ref(self.body, c, True)


class Fn(Node):
    kind = "fn"

    def __init__(self, name, sig, ret, body, vis="", attrs=None):
        super().__init__("fn", [vis + sig + " ", body], "blk", attrs)
        self.name, self.sig, self.ret_, self.body, self.vis = name, sig, ret, body, vis

    def ref_inner(self, c):
        c = c.copy()
        c.fn = FnInfo(self.name, self.sig, self.ret_, False, self.name)
        return self.vis + self.sig + " " + self.body.ref(c)


class Mac(Node):
    """Macro invocation. `rust`: its arguments are Rust code in the sense of the documentation."""
    kind = "mac"

    def __init__(self, cls, parts, prec="post", rust=True, attrs=None):
        super().__init__(cls, parts, prec, attrs)
        self.rust = rust

    def ref_inner(self, c):
        if c.inmac and self.rust:
            return super().ref_inner(c)
        t = self.text_inner()
        if "#[hooq::" in t:
            raise Reject("hooq attribute left inside a macro")
        return t
