"""C12: random hooq.toml files, the flavors they define, and every way of selecting them."""
import random

from . import build, diff
from .diff import U
from .dprops import ALL, DEFAULT, IDPOOL, RTPOOL, Spec, build_units, fill_mix, reg
from .gen import *
from .model import *

TRAITS = ["hrt::tr::T1", "hrt::tr::T2", "hrt::tr::deep::T3", "hrt::tr::deep::T4"]
LOGM = ".inspect_err(|e| { hrt::logref($level, e) })"
LEVELS = ["error", "warn", "info", "debug", "trace"]


def presets():
    d = {"default": Flavor(".nope()"), "hook": Flavor(".hook(|| { $hooq_meta })"),
         "log": Flavor(LOGM, binds={"level": "::log::Level::Error"}),
         "anyhow": Flavor(".nope()"), "eyre": Flavor(".nope()"), "color_eyre": Flavor(".nope()"), "tracing": Flavor(".nope()", binds={"level": "::tracing::Level::ERROR"}),
         "empty": Flavor("$expr", (), (), (), (), False)}
    for l in LEVELS:
        d["log"].subs[l] = Flavor(LOGM, binds={"level": "::log::Level::" + l.capitalize()})
        d["tracing"].subs[l] = Flavor(".nope()", binds={"level": "::tracing::Level::" + l.upper()})
    for n in ("default", "anyhow", "eyre", "color_eyre", "tracing"):
        d[n].opaque = True          # its method is judged by C13
    for l in LEVELS:
        d["tracing"].subs[l].opaque = True
    return d


Flavor.opaque = False
_clone = Flavor.clone


def clone(f):
    c = _clone(f)
    c.opaque = f.opaque
    return c


SUBNAMES = ["inn", "sub", "default", "x1", "warn", "method_", "deep", "Err", "release", "bindings_", "hook", "empty_", "u_9"]
BVALS = ["1i64", "2i64 + 1", '"str"', "-4i64", "true", "mk(2)", "hrt::p(88)", "'x'", "[1u8, 2]", "{ let q = 2u8; q }", '"q\\"uote"', "(1i64, \"t\")"]


class Tree:
    """A random hooq.toml: its text, and the flavors that follow from it by the documented rules."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.tables = []       # (path, own settings)
        tops = rng.sample(["uf1", "uf2", "my_flavor", "Zed", "base"], rng.randint(1, 3))
        tops += rng.sample(["default", "hook", "log", "anyhow", "eyre", "color_eyre", "tracing"], rng.choice([0, 1, 1, 2, 2, 3]))
        self.flavors = presets()
        for t in tops:
            self.grow((t,), self.flavors, Flavor(".nope()"), True, rng.choice([1, 2, 2, 3, 4]))
        self.text = self.render()
        self.all = []

        def walk(d, pre):
            for k in sorted(d):
                if not d[k].opaque:
                    self.all.append((".".join(pre + (k,)), d[k]))
                walk(d[k].subs, pre + (k,))
        walk(self.flavors, ())

    def grow(self, path, into, base, base_opaque, depth):
        r = self.rng
        name = path[-1]
        own = {}
        if name in into:
            f = into[name]
        else:
            f = clone(base)
            f.opaque = base_opaque
            f.subs = {}
            into[name] = f
        rich = r.choice([0.15, 0.35, 0.6, 0.9])
        if r.random() < max(rich, 0.75 if f.opaque else 0):
            self.n += 1
            tag = "%s#%d" % (".".join(path), self.n)
            own["method"] = r.choice([
                '.hk(|| "%s".to_string())' % tag, "hrt::hkf($expr, || String::from(\"%s\"))" % tag, '.tg("%s")' % tag,
                '.hk(|| format!("%s {}", hrt::meta_bindings(&$bindings)))' % tag, '.hk(|| format!("%s {}", hrt::meta_bindings(&$bindings)))' % tag,
                '{\n    let v = $expr;\n    v.tg("%s")\n}' % tag, '\n  .hk(|| {\n  "%s".into()\n})\n' % tag])
            f.method = Meth(own["method"])
            f.opaque = False
        if r.random() < rich:
            ts = r.sample(ALL, r.randint(0, 3))
            own["hook_targets"] = spell_targets(r, ts)
            f.targets = frozenset(ts)
        if r.random() < rich:
            ids = r.sample(IDPOOL, r.randint(0, 4))
            ex = [x for x in r.sample(IDPOOL, r.choice([0, 0, 1, 2])) if x not in ids]
            own["tail_expr_idents"] = ids + ["!" + x for x in ex]
            f.idents = tuple(ids)
            if ex:
                f.ignore = tuple(ex)
        if r.random() < rich:
            ig = r.sample(IDPOOL, r.randint(0, 4))
            own["ignore_tail_expr_idents"] = ig
            f.ignore = tuple([x[1:] for x in own.get("tail_expr_idents", []) if x[0] == "!"] + ig)
        if r.random() < rich:
            own["result_types"] = r.sample(RTPOOL, r.randint(0, 4))
            f.rtypes = tuple(own["result_types"])
        if r.random() < rich:
            own["hook_in_macros"] = r.random() < 0.5
            f.inmac = own["hook_in_macros"]
        if r.random() < rich:
            own["bindings"] = {r.choice(["b0", "b1", "who", "long_name", "level2"]): r.choice(BVALS) for _ in range(r.randint(0, 3))}
            if path[0] == "log" and r.random() < 0.4:
                own["bindings"]["level"] = "::log::Level::" + r.choice(LEVELS).capitalize()
            f.binds.update(own["bindings"])
        if r.random() < rich:
            own["trait_uses"] = r.sample(TRAITS, r.choice([0, 1, 1, 2, 3]))
            f.traits = tuple(own["trait_uses"])
        self.tables.append((path, own))
        if depth > 1:
            names = r.sample(SUBNAMES, r.choice([0, 1, 1, 2, 3])) + ([r.choice(LEVELS)] if name == "log" and r.random() < 0.6 else [])
            for s in dict.fromkeys(names):
                self.grow(path + (s,), f.subs, f, f.opaque, depth - 1)

    # ------------------------------------------------------------ text
    def s(self, x):
        r = self.rng
        k = r.random()
        if k < 0.45 and "'" not in x and "\n" not in x:
            return "'%s'" % x
        if k < 0.7 and "'''" not in x and not x.startswith("\n") and not x.endswith("'"):
            return "'''%s'''" % x
        if k < 0.85 and '"' not in x and "\\" not in x:
            return '"""%s"""' % (("\n" if r.random() < 0.5 and not x.startswith("\n") else "") + x)
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'

    def val(self, v):
        r = self.rng
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, str):
            return self.s(v)
        if isinstance(v, list):
            sep = r.choice([", ", ",\n  ", " , # c ] \n"])
            return "[" + sep.join(self.s(x) for x in v) + (r.choice(["", ",", ",\n"]) if v else "") + "]"
        raise AssertionError(v)

    def inline(self, v):
        return "{ " + ", ".join("%s = %s" % (k, self.s(x)) for k, x in v.items()) + " }"

    def render(self):
        r = self.rng
        bodies = []
        kids = {}
        for path, own in self.tables:
            kids.setdefault(path[:-1], []).append((path, own))
        within = {}               # sub flavors written inside the table of their parent
        for path, own in self.tables:
            if len(path) > 1 and path not in kids and path[:-1] not in within and r.random() < 0.2:
                within[path] = own
        for path, own in self.tables:
            if path in within:
                continue
            mine = [(p, o) for p, o in kids.get(path, []) if p in within]
            if not own and not mine and path in kids and r.random() < 0.7:
                continue          # defined by its sub flavors alone
            lines, later = [], []
            ks = list(own)
            r.shuffle(ks)
            for k in ks:
                q = r.choice([k, k, k, '"%s"' % k, "'%s'" % k])
                if k == "bindings":
                    if r.random() < 0.5:
                        lines.append(q + " = " + self.inline(own[k]))
                    elif r.random() < 0.5 and own[k]:
                        lines += ["%s.%s = %s" % (q, n, self.s(v)) for n, v in own[k].items()]
                    else:
                        later.append("[%s.bindings]\n%s\n" % (self.hd(path), "\n".join("%s = %s" % (n, self.s(v)) for n, v in own[k].items())))
                else:
                    lines.append("%s = %s" % (q, self.val(own[k])))
            for p_, o in mine:
                if o and r.random() < 0.5:
                    lines += ["%s.%s = %s" % (p_[-1], k, self.inline(v) if k == "bindings" else self.val(v)) for k, v in o.items()]
                else:
                    lines.append("%s = { %s }" % (p_[-1], ", ".join("%s = %s" % (k, self.inline(v) if k == "bindings" else self.val(v)) for k, v in o.items())))
            if mine:
                r.shuffle(lines)
            bodies.append("[%s]%s\n%s\n" % (self.hd(path), r.choice(["", "  # note [x]"]), "\n".join(lines)))
            bodies += later
        if r.random() < 0.5:
            r.shuffle(bodies)
        t = "# generated\n" + "\n".join(bodies)
        return t.replace("\n", "\r\n") if r.random() < 0.15 else t

    def hd(self, path):
        return self.rng.choice([".", ".", " . "]).join(p if self.rng.random() < 0.8 else '"%s"' % p for p in path)


SETTINGS = ["flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]


class U12(U):
    """An item in a module of its own, so that the trait imports beside it can be seen."""

    def __init__(self, name, item, call, pre="", root_attr="#[hooq]", attrs=(), flavor=None, label="", traits=(), cfg=0, **kw):
        pre = "mod w_%s { #![allow(unused)] use hrt::*; use hooq::hooq; %s" % (name, pre)
        super().__init__(name, item, "w_%s::call()" % name, pre, root_attr, attrs, flavor, label, **kw)
        self.post = "\npub fn call() -> String { format!(\"{:?} {:?}\", scope_probe!(), %s) }\n}" % call
        self.traits = traits
        self.cfg = cfg

    def ref(self, root):
        return "".join("#[allow(unused)] use %s as _; " % t for t in dict.fromkeys(self.traits)) + super().ref(root)


class C12(Spec):
    foreign = 0.0                # whether an excerpt shows them is not claimed
    fills = (fill_mix,)
    depth1 = False
    profile = {}

    def __init__(self, tree, cfg, n2, nr):
        self.tree, self.cfg = tree, cfg
        self.n2, self.nr = (n2, n2), (nr, nr)
        self.sattr, self.profile = 0.25, dict(attr=0.12)
        self.attr_fn = self.attrs
        self.unit = self.make

    def pick(self, r):
        own = [x for x in self.tree.all if any(".".join(p) == x[0] for p, _ in self.tree.tables)]
        return r.choice(own if own and r.random() < 0.85 else self.tree.all)

    def root(self, g):
        r = g.rng
        name, fl = self.pick(r)
        if r.random() < 0.12 and not self.tree.flavors["default"].opaque:
            name, fl = "default", self.tree.flavors["default"]
        sel = name.replace(".", "::") if r.random() < 0.55 else 'flavor = "%s"' % (name if r.random() < 0.5 else name.replace(".", "::"))
        parts = [sel] if name != "default" or r.random() < 0.3 else []
        self.extra = []
        if r.random() < 0.3:
            self.extra = r.sample(TRAITS, r.randint(0, 2))
            parts.insert(r.randint(0, len(parts)), "%s(%s)" % (r.choice(["trait_use", "trait_uses"]), ", ".join(self.extra)))
        if r.random() < 0.1:
            t = r.choice(TRAITS)
            self.extra.append(t)
            parts.append("trait_use(%s)" % t)
        self.traits = tuple(self.extra) + tuple(fl.traits)
        attrs = []
        if r.random() < 0.3:
            attrs += self.attrs(g, None)
        ra = "#[hooq(%s)]" % (", ".join(parts) + r.choice(["", ","] if parts else [""])) if parts or r.random() < 0.3 else "#[hooq]"
        return attrs, ra, fl

    def attrs(self, g, n):
        r = g.rng
        o = []
        for _ in range(r.choice([1, 1, 2])):
            name, fl = self.pick(r)
            o.append(a_flavor(r.choice(SETTINGS), name if r.random() < 0.5 else name, fl, r.random() < 0.45))
        return o

    def make(self, name, item, call, pre, **kw):
        return U12(name, item, call, pre, traits=self.traits, cfg=self.cfg, singles=6, randoms=2, **kw)


def run(tier, seed):
    rng = random.Random("C12/%s" % seed)
    n = 48 if tier == "quick" else 400
    units, tomls, trees = [], [], []
    for i in range(n):
        t = Tree(random.Random(rng.random()))
        spec = C12(t, i, 16, 10)
        us = build_units(spec, "quick", random.Random(rng.random()))
        units += us
        tomls.append(t.text)
        trees.append(t)
    # no file at all, and an empty one
    st, vs = diff.run_units(units, "C12", seed=str(seed), max_reject=0.7, tomls=tomls)
    from .main import diff_cov
    cov = diff_cov(st)
    cov["rule"] = ("a run of a generated program under a generated hooq.toml, compared event by event with a reference that applies the "
                   "flavors as resolved by the oracle; distinct = different (program, event sequence)")
    cov["configurations"] = n
    cov["flavors_resolved"] = sum(len(t.all) for t in trees)
    cov["max_flavor_depth"] = max(len(p) for t in trees for p, _ in t.tables)
    cov["preset_overrides"] = sum(1 for t in trees for p, _ in t.tables if p[0] in presets())
    return cov, vs, st.units and st.hook_events
