"""Systematic enumeration of syntactic positions: every production, every hole, nested to depth two."""
import random
from .gen import *
from .model import *

RUSTTY = {"V": "i64", "R": "Result<i64, E>", "O": "Option<i64>", "B": "bool"}


ALL_HOLES = -1


def base_env(fk):
    return Env(fk).w(vars=("a0",), mut=("m0", "m1"), arr=("z0",))


def productions():
    out = []
    for ty in "VROB":
        for name, f, cond in PRODS[ty]:
            out.append((ty, name, f, cond))
    for name, f, cond in STMTS:
        out.append(("S", name, f, cond))
    return out


def leaf_plain(g, ty, env):
    if ty == "V":
        return call("p", G("lit", str(g.id())))
    if ty == "S":
        return call("p", G("lit", str(g.id())))
    return g.leaf(ty, env)


def norm_ctx(ctx):
    return "any" if ctx in ("arm", "tail", "clo", "mac") else ctx


def build_with(g, prod, env, k, fill):
    """`prod` with `fill(type, env)` in hole `k` (ALL_HOLES: in each) and leaves elsewhere; None if there is no such hole."""
    ty, name, f, cond = prod
    st = {"i": -1, "hit": False}

    def h(t, e=None, ctx="any"):
        e = e or env
        st["i"] += 1
        n = None
        if k == ALL_HOLES:
            n = fill(g, t, e) or leaf_plain(g, t, e)
            st["hit"] = True
        elif st["i"] == k:
            n = fill(g, t, e)
            if n is None:
                raise Reject("no filler")
            st["hit"] = True
        else:
            n = leaf_plain(g, t, e)
        return g.fit(n, norm_ctx(ctx))
    n = f(g, env, h, 1)[0] if ty == "S" else f(g, env, h)
    return n if st["hit"] else None


def holes(prod, env):
    """(type, env.fk) of every hole."""
    seen = []
    ty, name, f, cond = prod
    if cond and not cond(env):
        return []
    g = Gen(random.Random(1), dict(stmts=(0, 0)))

    def h(t, e=None, ctx="any"):
        e = e or env
        seen.append((t, e.fk))
        return g.fit(leaf_plain(g, t, e), norm_ctx(ctx))
    f(g, env, h, 1) if ty == "S" else f(g, env, h)
    return seen


def wrap_fn(g, name, prod_ty, node, fk, variant=0):
    """A function around a node of type `prod_ty`."""
    ss = [G("letstmt", "let a0 = ", call("p", G("lit", "90")), ";"),
          G("letstmt", "let (mut m0, mut m1, mut z0) = (1i64, 2i64, [5i64, 6, 7, 8]);")]
    tailty = fk
    if prod_ty == "S":
        ss.append(g.dec(node))
        last = None
    elif prod_ty == fk and variant % 2 == 0:
        last = node
    else:
        last = None
        if prod_ty == "B":
            ss.append(g.dec(SExpr(Node("if", ["if ", g.fit(node, "cond"), " ", Body([SExpr(call("sink", G("lit", "1")), True)])], "blk"), False)))
        elif variant % 3 == 1:
            ss.append(g.dec(G("letstmt", "let _x: %s = " % RUSTTY[prod_ty], node, ";")))
        else:
            ss.append(g.dec(SExpr(Node("call", ["sink::<%s>(" % RUSTTY[prod_ty], node, ")"], call_ident="sink"))))
    if last is None:
        ss.append(SExpr(call("sink", G("tuple", "(m0, m1, z0)"))))
        last = {"R": lambda: call("Ok", call("p", G("lit", "99"))),
                "Q": lambda: call("Ok", call("p", G("lit", "99"))),
                "O": lambda: call("Some", call("p", G("lit", "99"))),
                "V": lambda: call("p", G("lit", "99"))}[fk]()
    if last.cls in TAILPAREN:
        last = paren(last)
    if g.attr_fn:
        g.decorate(last)
    ss.append(SExpr(last, False))
    ty, rt = FNTY[fk][0]
    return Fn(name, "fn %s() -> %s" % (name, ty), rt, Body(ss, True), vis="pub ")


def chains(depth, fks=("R", "O")):
    """All chains of holes: [(prod, k), ...] with fk of the outermost function."""
    ps = productions()
    by = {}
    for p in ps:
        by.setdefault(p[0], []).append(p)
    first = []
    for fk in fks:
        for p in ps:
            for k, (t, efk) in enumerate(holes(p, base_env(fk))):
                first.append((fk, [(p, k)], t, efk))
    if depth == 1:
        return first
    out = []
    for fk, ch, t, efk in first:
        for p in by.get(t, []):
            for k, (t2, e2) in enumerate(holes(p, Env(efk).w(vars=("a0",)))):
                out.append((fk, ch + [(p, k)], t2, e2))
    return out


def siblings(fks=("R", "O")):
    """Every production with several holes, all of them filled."""
    out = []
    for fk in fks:
        for p in productions():
            hs = holes(p, base_env(fk))
            if len(hs) > 1:
                out.append((fk, [(p, ALL_HOLES)], hs[0][0], hs[0][1]))
    return out


def build_chain(g, chain, env, fill):
    def go(i, env):
        prod, k = chain[i]
        if prod[3] and not prod[3](env):
            raise Reject("condition")
        return build_with(g, prod, env, k, fill if k == ALL_HOLES or i == len(chain) - 1 else
                          (lambda g2, t, e: go(i + 1, e)))
    return go(0, env)


def chain_label(fk, chain):
    return fk + ":" + ">".join("%s.%s#%d" % (p[0], p[1], k) for p, k in chain)


# ---------------------------------------------------------------- fillers

def fill_try(g, t, e):
    """A value of type `t` that contains a `?`."""
    if e.fk in ("R", "Q"):
        v = Try(call("r", G("lit", str(g.id()))))
        if t == "V":
            return v
        if t == "R":
            return Try(call("okr", call("r", G("lit", str(g.id())))))
    elif e.fk == "O" and g.p["tryo"]:
        v = Try(call("o", G("lit", str(g.id()))))
        if t == "V":
            return v
        if t == "R":
            return call("Ok", v)
    else:
        return None
    if t == "O":
        return call("Some", v)
    if t == "B":
        return G("cmp", v, " < ", G("lit", "5"), prec="low")
    return None


def fill_ret(g, t, e):
    """A value of type `t` around a conditional `return`."""
    if e.fk not in ("R", "O"):
        return None
    r = g.rng
    rv = {"R": lambda: r.choice([call("Ok", call("p", G("lit", str(g.id())))), call("r", G("lit", str(g.id()))),
                                 call("Err", call("ev", G("lit", str(g.id()))))]),
          "O": lambda: r.choice([call("Some", call("p", G("lit", str(g.id())))), call("o", G("lit", str(g.id())))])}[e.fk]()
    i = Node("if", ["if ", call("c", G("lit", str(g.id()))), " ", Body([SExpr(Ret(rv), r.random() < 0.5)])], "blk")
    return ExprBlock(Body([SExpr(i, False), SExpr(leaf_plain(g, t, e), False)]))


def fill_tail(g, t, e):
    r = g.rng
    if t == "R":
        return r.choice([lambda: call("Err", call("ev", G("lit", str(g.id())))), lambda: call("rid", call("r", G("lit", str(g.id())))),
                         lambda: call("Ok", call("p", G("lit", str(g.id()))))])()
    if t == "O":
        return r.choice([lambda: call("o", G("lit", str(g.id()))), lambda: call("Some", call("p", G("lit", str(g.id()))))])()
    if t == "V":
        return ExprBlock(Body([SExpr(call("dbl", call("p", G("lit", str(g.id())))), False)]))
    return None


def fill_mix(g, t, e):
    return g.rng.choice([fill_try, fill_try, fill_ret, fill_tail])(g, t, e)
