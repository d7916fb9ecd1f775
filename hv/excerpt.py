"""What a source excerpt must look like: worked out from the text of the source file alone."""
import re

RAWSTR = re.compile(r'(b|c)?r(#*)"')
STR = re.compile(r'(b|c)?"')
CHAR = re.compile(r"b?'(?:\\u\{[0-9a-fA-F_]+\}|\\x..|\\.|[^\\'])'")
KEYW = {"if", "return", "in", "match", "while", "break", "else", "move", "let", "mut"}


def lex(t):
    """[(kind, start, end)]; kinds: ws, comment, str, bstr, char, tok."""
    i, n, out = 0, len(t), []
    while i < n:
        c = t[i]
        s = i
        if c.isspace():
            while i < n and t[i].isspace():
                i += 1
            out.append(("ws", s, i))
            continue
        if t.startswith("//", i):
            while i < n and t[i] != "\n":
                i += 1
            out.append(("comment", s, i))
            continue
        if t.startswith("/*", i):
            d = 1
            i += 2
            while d and i < n:
                if t.startswith("/*", i):
                    d += 1
                    i += 2
                elif t.startswith("*/", i):
                    d -= 1
                    i += 2
                else:
                    i += 1
            out.append(("comment", s, i))
            continue
        prev_id = out and out[-1][0] == "tok" and out[-1][2] == i and (t[i - 1].isalnum() or t[i - 1] == "_")
        m = None if prev_id else RAWSTR.match(t, i)
        if m:
            e = t.find('"' + m.group(2), m.end())
            i = n if e < 0 else e + 1 + len(m.group(2))
            out.append(("bstr" if m.group(1) else "str", s, i))
            continue
        m = None if prev_id else STR.match(t, i)
        if m:
            i = m.end()
            while i < n and t[i] != '"':
                i += 2 if t[i] == "\\" else 1
            i = min(i + 1, n)
            out.append(("bstr" if m.group(1) else "str", s, i))
            continue
        m = None if prev_id else CHAR.match(t, i)
        if m:
            i = m.end()
            out.append(("char", s, i))
            continue
        if c.isalnum() or c == "_":
            while i < n and (t[i].isalnum() or t[i] == "_"):
                i += 1
        else:
            i += 1
        out.append(("tok", s, i))
    return out


ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def value(lit):
    """The value of a string literal."""
    m = RAWSTR.match(lit)
    if m:
        return lit[m.end():len(lit) - 1 - len(m.group(2))]
    b = lit[1:-1]
    o, i = [], 0
    while i < len(b):
        if b[i] != "\\":
            o.append(b[i])
            i += 1
            continue
        e = b[i + 1]
        if e == "x":
            o.append(chr(int(b[i + 2:i + 4], 16)))
            i += 4
        elif e == "u":
            j = b.index("}", i)
            o.append(chr(int(b[i + 3:j].replace("_", ""), 16)))
            i = j + 1
        elif e == "\n":
            i += 2
            while i < len(b) and b[i] in " \n\t\r":
                i += 1
        else:
            o.append(ESC[e])
            i += 2
    return "".join(o)


def quote(v):
    o = '"'
    for c in v:
        o += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0", "\\": "\\\\", '"': '\\"'}.get(c, c)
    return o + '"'


def shorten(v, n):
    """At most `n` characters of every line, keeping head and tail."""
    if n is None:
        n, a, b = 10, 4, 4
    else:
        a = (n - 2) // 2
        b = n - 2 - a
    return "\n".join(x if len(x) <= n else x[:a] + ".." + (x[-b:] if b else "") for x in v.split("\n"))


def in_macro(t, toks):
    """Indices of the tokens that are arguments of a macro."""
    res = set()
    sig = [i for i, k in enumerate(toks) if k[0] not in ("ws", "comment")]
    tx = lambda j: t[toks[sig[j]][1]:toks[sig[j]][2]]
    j = 0
    while j < len(sig):
        if (tx(j) == "!" and 0 < j < len(sig) - 1 and tx(j + 1) in "([{" and (tx(j - 1)[0].isalpha() or tx(j - 1)[0] == "_")
                and tx(j - 1) not in KEYW):
            d, k = 0, j + 1
            while k < len(sig):
                if toks[sig[k]][0] == "tok":
                    d += tx(k) in "([{"
                    d -= tx(k) in ")]}"
                res.add(sig[k])
                if not d:
                    break
                k += 1
            j = k
        j += 1
    return res


NOCUT = object()


def lines_of(text, o0, o1, cut):
    """The excerpt of text[o0:o1] without line numbers, as one string (see the documentation of `pretty_stringify!`)."""
    t = text[o0:o1]
    toks = lex(t)
    mac = in_macro(t, toks) if cut is not NOCUT else ()
    line = 1
    col = o0 - text.rfind("\n", 0, o0)
    out = "    "
    cl, cc = line, col
    for i, (k, a, b) in enumerate(toks):
        s = t[a:b]
        l0, c0 = line, col
        if "\n" in s:
            line += s.count("\n")
            col = len(s) - s.rfind("\n")
        else:
            col += len(s)
        if k in ("ws", "comment"):
            continue
        if k == "str" and cut is not NOCUT and i not in mac:
            s = quote(shorten(value(s), cut))
        if l0 > cl:
            out += "\n" * (l0 - cl) + " " * (c0 - 1)
        elif c0 > cc:
            out += " " * (c0 - cc)
        out += s
        cl, cc = l0 + s.count("\n"), col
    return out


def span_lines(text, o0, o1):
    a = text.count("\n", 0, o0) + 1
    return a, a + text.count("\n", o0, o1)


def pretty(text, o0, o1, nums=False, top=False, bottom=False, cut=NOCUT, limit=None):
    body = lines_of(text, o0, o1, cut)
    a, b = span_lines(text, o0, o1)
    w = max(4, len(str(b)))
    ls = body.split("\n")
    if nums:
        ls = ["%*d%s%s" % (w, a + i, "|" if i else ">", l) for i, l in enumerate(ls)]
    if limit is not None and len(ls) > limit:
        ls = [ls[0], "..."] + ls[len(ls) - limit + 1:]
    s = "\n".join(ls)
    if top:
        s = (" " * w + "|\n" if nums else "\n") + s
    if bottom:
        s += "\n" + " " * w + "|" if nums else "\n"
    return s


def default(text, o0, o1):
    """`excerpted_pretty_stringify!` without options."""
    return pretty(text, o0, o1, True, False, True, None, 5)


def one_line(text, o0, o1, cut=NOCUT):
    return " ".join(x.strip() for x in lines_of(text, o0, o1, cut).split("\n"))


def canon(s):
    """String literals by value, white space outside literals collapsed when `s` is one line."""
    o = []
    for k, a, b in lex(s):
        x = s[a:b]
        if k == "str" and "\n" not in x:
            try:
                x = quote(value(x))
            except (KeyError, ValueError, IndexError):
                pass
        o.append(x)
    return "".join(o)


def squeeze(s):
    return "".join(" " if k in ("ws", "comment") else s[a:b] for k, a, b in lex(s)).strip()
