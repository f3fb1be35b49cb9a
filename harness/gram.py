"""Grammar trees: generation, rendering to grammar text, and an independent
reference interpreter (recogniser, derivations, next leaves, action evaluator).

The interpreter works on the generated tree, never on anything the code under
test produced.
"""

import functools

# ---------------------------------------------------------------------------
# String conversion as documented: the nine escapes, quotes where needed

ESC = {"\n": "\\n", "\0": "\\0", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\v": "\\v",
       "\a": "\\a", '"': '\\"', "\\": "\\\\"}
UNESC = {v[1]: k for k, v in ESC.items()}


def escape(s):
    return "".join(ESC.get(c, c) for c in s)


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in UNESC:
            out.append(UNESC[s[i + 1]])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def quote(s):
    return '"' + escape(s) + '"'


def cli_form(s):
    """How a keyword with this text is typed."""
    if any(c in ESC or c == " " for c in s):
        return quote(s)
    return s


# ---------------------------------------------------------------------------
# Token classes

class TokClass:
    """What a declared token accepts. accept(tok) -> None or (grade, value);
    viable(tok) -> True / False / None (do not know); suggestions(prefix) ->
    ("list", [...]) or ("help", text)."""

    completable = False
    form = 0            # how the arguments are written
    help = None

    def decl(self):
        raise NotImplementedError

    def arguments(self, *pairs):
        """the arguments of the class, by position, by name or some of both"""
        pairs = [(k, str(v)) for k, v in pairs]
        if self.help is not None:
            pairs.append(("helpstring", quote(self.help)))
        named = ["%s = %s" % (k, v) if self.form & 1 else "%s=%s" % (k, v) for k, v in pairs]
        plain = [v for k, v in pairs if k not in ("helpstring", "max_suggestions")]
        rest = named[len(plain):]
        if self.form < 2:
            args = plain + rest
        elif self.form == 2:
            args = plain[:1] + named[len(plain[:1]):]
        elif self.form == 3:
            args = named
        else:
            args = named[::-1]
        return ", ".join(args)

    def decorate(self, rng):
        self.form = rng.choice([0, 0, 1, 2, 3, 4])
        if rng.random() < 0.15:
            self.help = rng.choice(["An id", "say \"x\"", "value, or = (so)", "a\\b", "1"])
        return self


class TString(TokClass):
    kind = "string"

    def decl(self):
        return "StringToken(%s)" % self.arguments()

    def accept(self, tok):
        return ("value", str_value(tok))

    def viable(self, tok):
        return True

    def suggestions(self, p):
        return ("help", self.help or "Any string")

    def sample(self, rng):
        return rng.choice(["v1", "zed", '"two words"', "12", '""', "Q", '"a\\"b"', "x-y", "0"])


def str_value(tok):
    if tok.startswith('"'):
        tok = tok[1:]
    if tok.endswith('"'):
        tok = tok[:-1]
    return unescape(tok)


class TRString(TokClass):
    kind = "rstring"

    def __init__(self, lo, hi):
        self.lo, self.hi = min(lo, hi), max(lo, hi)
        self.args = (lo, hi)

    def decl(self):
        return "RangedStringToken(%s)" % self.arguments(("min_len", self.args[0]), ("max_len", self.args[1]))

    def accept(self, tok):
        v = str_value(tok)
        return ("value", v) if self.lo <= len(v) <= self.hi else None

    def viable(self, tok):
        return len(str_value(tok)) <= self.hi

    def suggestions(self, p):
        return ("help", self.help or "Any string of length (%d-%d)" % (self.lo, self.hi))

    def sample(self, rng):
        n = rng.randint(self.lo, self.hi)
        s = "".join(rng.choice("pqrw 7") for _ in range(n))
        return cli_form(s) if s else '""'


class TInt(TokClass):
    kind = "int"
    completable = True
    most = 10

    def decorate(self, rng):
        if rng.random() < 0.2:
            self.most = rng.choice([1, 3, 9, 11, 40])
        return super().decorate(rng)

    def __init__(self, lo, hi):
        self.lo, self.hi = min(lo, hi), max(lo, hi)
        self.args = (lo, hi)

    def decl(self):
        pairs = [("start", self.args[0]), ("end", self.args[1])]
        if self.most != 10:
            pairs.append(("max_suggestions", self.most))
        return "RangedIntToken(%s)" % self.arguments(*pairs)

    def canonical(self, tok):
        body = tok[1:] if tok.startswith("-") else tok
        # (no range of the generator has numbers of thousands of digits)
        return len(body) < 4000 and body.isascii() and body.isdigit() and (body == "0" or body[0] != "0") and tok != "-0"

    def accept(self, tok):
        if self.canonical(tok) and self.lo <= int(tok) <= self.hi:
            return ("value", int(tok))
        return None

    def comps(self, p):
        """Accepted values whose text starts with p (exact arithmetic)."""
        if p in ("", "-") or self.canonical(p):
            if self.hi - self.lo <= 3000:
                return [n for n in range(self.lo, self.hi + 1) if str(n).startswith(p)]
            return int_completions(self.lo, self.hi, p)
        return []

    def viable(self, tok):
        return bool(self.comps(tok))

    def suggestions(self, p):
        c = self.comps(p)
        if len(c) <= self.most and c:
            return ("list", [str(n) for n in c])
        return ("help", self.help or "An integer between %d and %d" % (self.lo, self.hi))

    def sample(self, rng):
        return str(rng.choice([self.lo, self.hi, rng.randint(self.lo, self.hi)]))


def int_completions(lo, hi, p):
    """Integers of [lo, hi] whose decimal text starts with p, capped listing."""
    out = []
    if p == "" or p == "-":
        a, b = (lo, hi) if p == "" else (lo, min(hi, -1))
        return range(a, b + 1)
    if p == "0":
        return [0] if lo <= 0 <= hi else []
    neg = p.startswith("-")
    n = int(p[1:] if neg else p)
    l, h = (max(1, -hi), -lo) if neg else (max(lo, 0), hi)
    k = 0
    while n * 10 ** k <= h:
        a, b = n * 10 ** k, n * 10 ** k + 10 ** k - 1
        a, b = max(a, l), min(b, h)
        if a <= b:
            out.append((a, b))
        k += 1
    total = sum(b - a + 1 for a, b in out)
    if total > 100000:
        return range(total)         # only the count matters then
    return [(-x if neg else x) for a, b in out for x in range(a, b + 1)]


class TBool(TokClass):
    kind = "bool"
    completable = True

    def decl(self):
        return "BooleanToken(%s)" % self.arguments()

    def accept(self, tok):
        t = tok.lower()
        if t and "true".startswith(t):
            return ("value", True)
        if t and "false".startswith(t):
            return ("value", False)
        return None

    def viable(self, tok):
        return tok == "" or self.accept(tok) is not None

    def suggestions(self, p):
        if p == "":
            return ("list", ["True", "False"])
        w = "true" if "true".startswith(p.lower()) else "false"
        return ("list", [p + w[len(p):]])

    def sample(self, rng):
        return rng.choice(["True", "False", "true", "FALSE", "t", "Fa"])


class TAlts(TokClass):
    kind = "alts"
    completable = True

    def __init__(self, words):
        self.words = list(words)
        self.cli = [cli_form(w) for w in self.words]

    def decl(self):
        return "AlternativeStringsToken(%s)" % ", ".join([quote(w) for w in self.words] + ([self.arguments()] if self.help else []))

    def accept(self, tok):
        if not tok:
            return None
        c = [i for i, w in enumerate(self.cli) if w.startswith(tok)]
        if tok in self.cli:
            return ("exact", self.words[self.cli.index(tok)])
        if len(c) == 1:
            return ("prefix", self.words[c[0]])
        return None

    def viable(self, tok):
        return any(w.startswith(tok) for w in self.cli)

    def suggestions(self, p):
        return ("list", [w for w in self.cli if w.startswith(p)])

    def sample(self, rng):
        return rng.choice(self.cli)


class TPlain(TokClass):
    """token NAME; : a keyword with the token's own name"""
    kind = "plain"
    completable = True

    def __init__(self, name):
        self.name = name

    def decl(self):
        return None

    def accept(self, tok):
        if tok == self.name:
            return ("exact", self.name)
        if tok and self.name.startswith(tok):
            return ("prefix", self.name)
        return None

    def viable(self, tok):
        return self.name.startswith(tok)

    def suggestions(self, p):
        return ("list", [self.name])

    def sample(self, rng):
        return self.name


# ---------------------------------------------------------------------------
# Tree

class N:
    """Grammar node. kind: const tok seq alt opt set rep ref"""
    __slots__ = ("kind", "kids", "text", "bare", "help", "m", "n", "name", "args", "pre", "post", "spell")

    def __init__(self, kind, kids=(), **kw):
        self.kind = kind
        self.kids = list(kids)
        self.text = kw.get("text")
        self.bare = kw.get("bare", False)
        self.help = kw.get("help")
        self.m = kw.get("m")
        self.n = kw.get("n")
        self.name = kw.get("name")
        self.args = kw.get("args", [])
        self.spell = kw.get("spell", 0)
        self.pre = []
        self.post = []


class Gram:
    """A whole specification: tokens {name: TokClass}, grammars in definition
    order [(name, params, node)]; params: [(name, default or NODEF)]."""

    def __init__(self):
        self.tokens = {}
        self.grammars = []

    def get(self, name):
        for n, p, node in self.grammars:
            if n == name:
                return p, node
        raise KeyError(name)


NODEF = object()


# -- statements and arguments ------------------------------------------------
# arg: ("lit", python value, text)  ("var", name)  ("num", k)
#      ("call", cname, id, [args])  ("fn", fname, [args])
# stmt: ("call", cname, id, [args])  ("fn", fname, [args])  ("assign", ("var", name), arg)

def lit(v, text=None):
    if text is None:
        if v is None or v is True or v is False:
            text = str(v)
        elif isinstance(v, str):
            text = quote(v)
        else:
            text = repr(v)
    return ("lit", v, text)


def r_arg(a):
    k = a[0]
    if k == "lit":
        return a[2]
    if k == "var":
        return "$" + a[1]
    if k == "num":
        return "$%d" % a[1]
    if k == "call":
        return "call %s(%s)" % (a[1], ", ".join([str(a[2])] + [r_arg(x) for x in a[3]]))
    if k == "fn":
        return "%s(%s)" % (a[1], ", ".join(r_arg(x) for x in a[2]))
    raise ValueError(k)


def r_stmt(s):
    if s[0] in ("call", "fn"):
        return r_arg(s) + ";"
    return "$%s = %s;" % (s[1][1], r_arg(s[2]))


class Layout:
    """White space and comments between the tokens of the rendered text."""

    def __init__(self, rng=None, level=0):
        self.rng, self.level = rng, level

    def sp(self):
        if not self.level:
            return " "
        r = self.rng
        x = r.random()
        if x < 0.5:
            return " "
        if x < 0.65:
            return "\n"
        if x < 0.72:
            return "\t "
        if x < 0.78:
            return "\r\n  "
        if x < 0.83:
            return " /* c : \" ; ( */ "
        if x < 0.88:
            return " // rest | of ; line\n"
        if x < 0.93:
            return " # also \" a comment\n"
        return "  \n\n "

    def parens(self):
        return self.level and self.rng.random() < 0.2


def r_block(stmts, lay):
    if lay.level and lay.rng.random() < 0.3 and len(stmts) > 1:
        k = lay.rng.randint(1, len(stmts) - 1)
        return r_block(stmts[:k], lay) + lay.sp() + r_block(stmts[k:], lay)
    return "<<" + lay.sp() + lay.sp().join(r_stmt(s) for s in stmts) + lay.sp() + ">>"


def r_core(n, lay):
    sp = lay.sp
    k = n.kind
    if k == "const":
        s = n.text if n.bare else quote(n.text)
        if n.help is not None:
            s += ":" + sp() + quote(n.help)
        return s
    if k == "tok":
        return n.name + (":" + sp() + quote(n.help) if n.help is not None else "")
    if k == "ref":
        if n.args or n.spell:
            return n.name + "[" + ("," + sp()).join(
                ("$%s = " % p if p else "") + r_arg(a) for p, a in n.args) + "]"
        return n.name
    if k == "opt":
        return "{" + sp() + r_unit_kids(n, lay) + sp() + "}"
    if k == "rep":
        body = "(" + sp() + r_twb(n.kids[0], lay) + sp() + ")"
        if n.m == n.n and n.spell == 0:
            mult = "%d" % n.m
        elif n.m == n.n and n.spell == 1:
            mult = "(%d)" % n.m
        elif n.spell == 2:
            mult = "(%d%s:%s%d)" % (n.n, sp(), sp(), n.m)      # given in reverse order
        else:
            mult = "(%d:%d)" % (n.m, n.n)
        return body + " * " + mult
    return "(" + sp() + r_rule(n, lay) + sp() + ")"


def r_term(n, lay):
    s = r_core(n, lay)
    if n.pre:
        s = "(" + lay.sp() + r_block(n.pre, lay) + lay.sp() + s + lay.sp() + ")"
    elif lay.parens() and n.kind != "rep":
        s = "(" + lay.sp() + s + lay.sp() + ")"
    return s


def r_twb(n, lay):
    s = r_term(n, lay)
    if n.post:
        s += lay.sp() + r_block(n.post, lay)
    return s


def r_unit_kids(n, lay):
    """the kids of an opt: a sequence"""
    return lay.sp().join(r_twb(k, lay) for k in n.kids)


def r_rule(n, lay):
    """without n's own bindings (the caller put parentheses around)"""
    sp = lay.sp
    if n.kind == "seq":
        return sp().join(r_twb(k, lay) for k in n.kids)
    if n.kind == "set":
        return (sp() + "," + sp()).join(r_twb(k, lay) for k in n.kids)
    if n.kind == "alt":
        return (sp() + "|" + sp()).join(r_twb(k, lay) for k in n.kids)
    raise ValueError(n.kind)


def render(g, lay=None, order=None):
    lay = lay or Layout()
    sp = lay.sp
    parts = []
    decls = []
    for name, cls in g.tokens.items():
        d = cls.decl()
        decls.append(name + (" " + d if d else ""))
    gtexts = []
    for name, params, node in g.grammars:
        ps = ""
        if params:
            ps = "[" + (", ").join(
                "$" + p + ("" if d is NODEF else " = " + r_arg(d)) for p, d in params) + "]"
        if node.kind in ("seq", "set", "alt") and not node.pre and not node.post:
            body = r_rule(node, lay)
        else:
            body = r_twb(node, lay)
        gtexts.append(name + ps + ":" + sp() + body + sp() + ";")
    if lay.level:
        # token declarations, grouped at random, anywhere among the grammars
        rng = lay.rng
        rng.shuffle(decls)
        groups = []
        while decls:
            k = rng.randint(1, len(decls))
            groups.append("token " + ("," + sp()).join(decls[:k]) + sp() + ";")
            decls = decls[k:]
        parts = list(gtexts)
        for gr in groups:
            parts.insert(rng.randint(0, len(parts)), gr)
        return sp() + (sp() + "\n").join(parts) + sp()
    for d in decls:
        parts.append("token " + d + ";")
    return "\n".join(parts + gtexts) + "\n"


# ---------------------------------------------------------------------------
# Normal form: what the constructs mean

class M:
    """Normalised node: leaf seq opt alt set repw ref.  uid is unique."""
    __slots__ = ("kind", "kids", "leaf", "count", "pre", "post", "uid", "ref", "args", "nullable", "key")


class Leaf:
    """A place where one token is read."""

    def __init__(self, g, node):
        self.help = node.help
        if node.kind == "const":
            self.tc = None
            self.text = node.text
            self.cli = cli_form(node.text)
            self.name = node.text
        else:
            self.tc = g.tokens[node.name]
            self.name = node.name

    @property
    def completable(self):
        return True if self.tc is None else self.tc.completable

    def accept(self, tok):
        if self.tc is not None:
            return self.tc.accept(tok)
        if tok == self.cli:
            return ("exact", self.text)
        if tok and self.cli.startswith(tok):
            return ("prefix", self.text)
        return None

    def viable(self, tok):
        if self.tc is not None:
            return self.tc.viable(tok)
        return self.cli.startswith(tok)

    def helptext(self):
        if self.help is not None and (self.tc is None or self.tc.kind != "x"):
            return self.help
        if self.tc is None:
            return self.cli
        return self.tc.suggestions("")[1] if not self.tc.completable else None

    def suggest(self, p):
        if self.tc is None:
            return ("list", [self.cli])
        k, v = self.tc.suggestions(p)
        if k == "help" and self.help:
            return (k, self.help)
        return (k, v)


class Model:

    def __init__(self, g, root="g"):
        self.g = g
        self.uid = 0
        self.norms = {}
        for name, params, node in g.grammars:
            self.norms[name] = (params, self.norm(node))
        self.root = self.norms[root][1]
        self.root_params = self.norms[root][0]

    def mk(self, kind, kids=(), **kw):
        m = M()
        m.kind, m.kids = kind, list(kids)
        m.leaf = kw.get("leaf")
        m.count = kw.get("count", 1)
        m.ref = kw.get("ref")
        m.args = kw.get("args", [])
        m.pre, m.post = [], []
        m.uid = self.uid
        m.key = kw.get("key", m.uid)
        self.uid += 1
        if kind == "leaf":
            m.nullable = False
        elif kind == "opt":
            m.nullable = True
        elif kind in ("seq", "set"):
            m.nullable = all(k.nullable for k in m.kids)
        elif kind == "alt":
            m.nullable = any(k.nullable for k in m.kids)
        elif kind == "repw":
            m.nullable = m.kids[0].nullable
        elif kind == "ref":
            m.nullable = self.norms[m.ref][1].nullable
        return m

    def norm(self, n):
        k = n.kind
        if k in ("const", "tok"):
            m = self.mk("leaf", leaf=Leaf(self.g, n))
        elif k == "ref":
            m = self.mk("ref", ref=n.name, args=n.args)
        elif k in ("seq", "set", "alt"):
            m = self.mk(k, [self.norm(x) for x in n.kids])
        elif k == "opt":
            if len(n.kids) == 1 and n.kids[0].kind == "seq":
                # braces directly around a sequence are one block
                inner = self.norm(n.kids[0])
                m = self.mk("opt", inner.kids)
                m.pre, m.post = inner.pre, inner.post
            elif len(n.kids) == 1 and n.kids[0].kind == "rep" and n.kids[0].m >= 1 and n.kids[0].m < n.kids[0].n:
                inner = self.norm(n.kids[0])
                m = self.mk("opt", inner.kids)
                m.pre, m.post = inner.pre, inner.post
            else:
                m = self.mk("opt", [self.norm(x) for x in n.kids])
        elif k == "rep":
            body = n.kids[0]
            a, b = n.m, n.n
            if a == b:
                m = self.norm(body) if a == 1 else self.mk("repw", [self.norm(body)], count=a)
            elif a == 0 and b == 1:
                m = self.mk("opt", [self.norm(body)])
            else:
                lo = max(a, 1)
                if lo == b:
                    blk = self.norm(body)
                else:
                    b1 = self.norm(body) if lo == 1 else self.mk("repw", [self.norm(body)], count=lo)
                    b2 = self.mk("repw", [self.mk("opt", [self.norm(body)])], count=b - lo)
                    blk = self.mk("seq", [b1, b2])
                m = self.mk("opt", [blk]) if a == 0 else blk
        else:
            raise ValueError(k)
        m.pre = list(n.pre) + m.pre
        m.post = m.post + list(n.post)
        return m

    # -- recogniser ----------------------------------------------------------

    def analyse(self, tokens):
        """-> (ends: can the tokens end here, nexts: leaves that can follow).
        Works on the whole token list; tokens must all be accepted by some leaf
        for nexts to be non-empty."""
        T = len(tokens)
        memo = {}
        nexts = {}
        acc = {}

        def leaf_ok(leaf, i):
            key = (id(leaf), i)
            if key not in acc:
                acc[key] = leaf.accept(tokens[i]) is not None
            return acc[key]

        def ends(m, i):
            key = (m.uid, i)
            if key in memo:
                return memo[key]
            k = m.kind
            if k == "leaf":
                if i == T:
                    nexts[m.uid] = m.leaf
                    r = frozenset()
                else:
                    r = frozenset([i + 1]) if leaf_ok(m.leaf, i) else frozenset()
            elif k == "ref":
                r = ends(self.norms[m.ref][1], i)
            elif k in ("seq", "opt"):
                cur = frozenset([i])
                for x in m.kids:
                    nxt = set()
                    for j in cur:
                        nxt |= ends(x, j)
                    cur = frozenset(nxt)
                if k == "opt":
                    cur = cur | {i}
                r = cur
            elif k == "alt":
                r = frozenset().union(*[ends(x, i) for x in m.kids])
            elif k == "repw":
                cur = frozenset([i])
                for _ in range(m.count):
                    nxt = set()
                    for j in cur:
                        nxt |= ends(m.kids[0], j)
                    cur = frozenset(nxt)
                r = cur
            elif k == "set":
                out = set()
                seen = set()
                work = [(frozenset(range(len(m.kids))), i)]
                while work:
                    st = work.pop()
                    if st in seen:
                        continue
                    seen.add(st)
                    rest, j = st
                    if all(m.kids[x].nullable for x in rest):
                        out.add(j)
                    for x in rest:
                        for e in ends(m.kids[x], j):
                            if e > j:
                                work.append((rest - {x}, e))
                r = frozenset(out)
            memo[key] = r
            return r

        e = ends(self.root, 0)
        return (T in e), nexts

    def classify(self, tokens):
        """-> ("accept", None) | ("partial", None) | ("failure", position)"""
        for i in range(len(tokens)):
            _, nexts = self.analyse(tokens[:i])
            if not any(l.accept(tokens[i]) is not None for l in nexts.values()):
                return "failure", i
        ok, _ = self.analyse(tokens)
        return ("accept", None) if ok else ("partial", None)

    def ways(self, tokens):
        """Number of (complete or unfinished) derivations of the token list."""
        T = len(tokens)
        memo = {}

        def add(d, j, c):
            d[j] = d.get(j, 0) + c

        def chain(kids, i):
            cur, stuck = {i: 1}, 0
            for x in kids:
                nxt = {}
                for j, c in cur.items():
                    e, s = w(x, j)
                    stuck += c * s
                    for k, cc in e.items():
                        add(nxt, k, c * cc)
                cur = nxt
            return cur, stuck

        def w(m, i):
            key = (m.uid, i)
            if key in memo:
                return memo[key]
            k = m.kind
            if k == "leaf":
                if i == T:
                    r = {}, 1
                else:
                    r = ({i + 1: 1} if m.leaf.accept(tokens[i]) is not None else {}), 0
            elif k == "ref":
                r = w(self.norms[m.ref][1], i)
            elif k == "seq":
                r = chain(m.kids, i)
            elif k == "opt":
                e, s = chain(m.kids, i)
                e = dict(e)
                e[i] = 1
                r = e, s
            elif k == "repw":
                r = chain([m.kids[0]] * m.count, i)
            elif k == "alt":
                e, s = {}, 0
                for x in m.kids:
                    e2, s2 = w(x, i)
                    s += s2
                    for j, c in e2.items():
                        add(e, j, c)
                r = e, s
            elif k == "set":
                st = {(frozenset(range(len(m.kids))), i): 1}
                e, s = {}, 0
                for _ in range(len(m.kids) + 1):
                    nst = {}
                    for (rest, j), c in st.items():
                        if all(m.kids[x].nullable for x in rest):
                            add(e, j, c)
                        for x in rest:
                            e2, s2 = w(m.kids[x], j)
                            s += c * s2
                            for j2, c2 in e2.items():
                                if j2 > j:
                                    add(nst, (rest - {x}, j2), c * c2)
                    st = nst
                r = e, s
            memo[key] = r
            return r

        e, s = w(self.root, 0)
        return sum(e.values()) + s

    def tame(self, tokens, limit=60):
        """few enough readings at every length for the code under test, whose
        cost grows with their number"""
        return all(self.ways(tokens[:n]) <= limit for n in range(1, len(tokens) + 1))

    # -- derivations ---------------------------------------------------------

    def derivations(self, tokens, limit=40):
        """All derivation trees, up to limit (None when there are more).
        tree: (m, i, j, [(pos, tree)...]); empty spans are omitted."""
        T = len(tokens)
        memo = {}
        recog = {}
        budget = [20000]

        class TooMany(Exception):
            pass

        def der(m, i):
            key = (m.uid, i)
            if key in memo:
                return memo[key]
            budget[0] -= 1
            if budget[0] < 0:
                raise TooMany
            k = m.kind
            res = []
            if k == "leaf":
                if i < T and m.leaf.accept(tokens[i]) is not None:
                    res = [(i + 1, (m, i, i + 1, []))]
            elif k == "ref":
                for j, t in der(self.norms[m.ref][1], i):
                    res.append((j, (m, i, j, [(0, t)]) if j > i else None))
            elif k in ("seq", "opt"):
                cur = [(i, [])]
                for p, x in enumerate(m.kids):
                    nxt = []
                    for j, ts in cur:
                        for e, t in der(x, j):
                            nxt.append((e, ts + ([(p, t)] if t else [])))
                            if len(nxt) > 2000:
                                raise TooMany
                    cur = nxt
                res = [(j, (m, i, j, ts) if j > i else None) for j, ts in cur]
                if k == "opt":
                    res.append((i, None))
            elif k == "alt":
                for p, x in enumerate(m.kids):
                    for j, t in der(x, i):
                        res.append((j, (m, i, j, [(p, t)]) if j > i else None))
            elif k == "repw":
                cur = [(i, [])]
                done = []
                for p in range(m.count):
                    nxt = []
                    for j, ts in cur:
                        for e, t in der(m.kids[0], j):
                            if t is None:
                                done.append((j, ts))       # a gap: only at the end
                            else:
                                nxt.append((e, ts + [(p, t)]))
                    cur = nxt
                res = [(j, (m, i, j, ts) if j > i else None) for j, ts in cur + done]
            elif k == "set":
                def rec(rest, j, ts):
                    if all(m.kids[x].nullable for x in rest):
                        res.append((j, (m, i, j, ts) if j > i else None))
                    for x in sorted(rest):
                        for e, t in der(m.kids[x], j):
                            if t is not None:
                                budget[0] -= 1
                                if budget[0] < 0:
                                    raise TooMany
                                rec(rest - {x}, e, ts + [(x, t)])
                rec(frozenset(range(len(m.kids))), i, [])
            # one empty derivation is enough
            out, empty = [], False
            for j, t in res:
                if t is None:
                    if empty:
                        continue
                    empty = True
                out.append((j, t))
            if len(out) > 2000:
                raise TooMany
            memo[key] = out
            return out

        try:
            full = [t for j, t in der(self.root, 0) if j == T]
        except TooMany:
            return None
        if len(full) > limit:
            return None
        return full

    def leaves(self, tree):
        """[(leaf node, token index)] in line order"""
        out = []

        def walk(t):
            if t is None:
                return
            m, i, j, kids = t
            if m.kind == "leaf":
                out.append((m, i))
            for _, k in kids:
                walk(k)
        walk(tree)
        return out

    def values(self, tree, tokens):
        return [m.leaf.accept(tokens[i])[1] for m, i in self.leaves(tree)]

    # -- evaluation of actions ------------------------------------------------

    def execute(self, tree, tokens, snap, args=None, printed=None):
        """Runs the actions of a derivation: returns (log, final values of the
        root parameters). snap pictures a value as the CLI recorder does."""
        log = []
        Cell = _Cell
        root_cells = {}
        order = []
        for idx, (p, d) in enumerate(self.root_params):
            v = None
            if args is not None and idx < len(args):
                v = args[idx]
            elif d is not NODEF:
                v = d[1]
            root_cells[p] = Cell(v)
            order.append(p)

        def cell_of(a, gctx, nctx):
            if a[0] == "var":
                return gctx.get(a[1])
            return nctx.get(a[1])

        def value(a, gctx, nctx):
            k = a[0]
            if k == "lit":
                return a[1]
            if k in ("var", "num"):
                c = cell_of(a, gctx, nctx)
                return c.v if c is not None else None
            if k == "call":
                return call(a, gctx, nctx)
            if k == "fn":
                return builtin(a[1], [value(x, gctx, nctx) for x in a[2]], printed)
            raise ValueError(k)

        def call(a, gctx, nctx):
            vals = [value(x, gctx, nctx) for x in a[3]]
            log.append((a[2],) + tuple(snap(v) for v in vals))
            if a[1] in ("boom", "aboom"):
                return None
            if a[1] == "mklist":
                return list(vals)
            return "R%s" % (a[2],)

        def execute(stmts, gctx, nctx):
            for s in stmts:
                if s[0] == "assign":
                    v = value(s[2], gctx, nctx)
                    if s[1][0] == "num":
                        c = nctx.get(s[1][1])
                        if c is not None:
                            c.v = v
                    else:
                        c = gctx.get(s[1][1])
                        if c is None:
                            c = gctx[s[1][1]] = Cell(None)
                        c.v = v
                else:
                    value(s, gctx, nctx)

        def ev(t, pos, gctx, nctx):
            m, i, j, kids = t
            execute(m.pre, gctx, nctx)
            mine = {}
            sub_g = gctx
            if m.kind == "ref":
                params = self.norms[m.ref][0]
                sub_g = bind(params, m.args, gctx, nctx)
            for p, k in kids:
                kp = 0 if m.kind in ("alt", "repw") else p
                ev(k, kp, sub_g, mine)
            if m.kind == "leaf":
                v = vals[i]
            else:
                v = vals[i] if j - i == 1 else list(vals[i:j])
            nctx[pos + 1] = Cell(v)
            execute(m.post, gctx, nctx)

        def bind(params, args, gctx, nctx):
            out = {}
            names = [p for p, _ in params]
            free = list(names)
            given = {}
            for pn, a in args:
                name = pn if pn else free[0]
                free.remove(name)
                given[name] = a
            for p, d in params:
                if p in given:
                    a = given[p]
                    if a[0] in ("var", "num"):
                        c = cell_of(a, gctx, nctx)
                        out[p] = c if c is not None else Cell(None)
                    else:
                        out[p] = Cell(a[1])
                elif d is not NODEF:
                    out[p] = Cell(d[1])
                else:
                    out[p] = Cell(None)
            return out

        vals = self.values(tree, tokens)
        gctx = dict(root_cells)
        if tree is not None:
            ev(tree, 0, gctx, {})
        return log, [root_cells[p].v for p in order]


class _Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def builtin(name, a, printed):
    if name == "list":
        return list(a)
    if name == "set":
        return set(a)
    if name == "dict":
        return {}
    if name == "inc":
        return a[0] + 1 if isinstance(a[0], (int, float)) else a[0]
    if name == "dec":
        return a[0] - 1 if isinstance(a[0], (int, float)) else a[0]
    if name == "add":
        r = a[0]
        for x in a[1:]:
            try:
                r = r + x
            except Exception:
                pass
        return r
    if name == "append":
        r = a[0]
        for x in a[1:]:
            if isinstance(r, list):
                r.append(x)
            elif isinstance(r, set):
                r.add(x)
        return r
    if name == "update":
        if len(a) > 2:
            if isinstance(a[0], dict):
                a[0][a[1]] = a[2]
            return a[0]
        return None
    if name == "print":
        if printed is not None:
            printed.append(" ".join(str(x) for x in a))
        return None
    raise ValueError(name)


# ---------------------------------------------------------------------------
# Random grammars and lines

WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india",
         "juliet", "kilo", "lima", "mike", "november", "oscar", "papa", "quebec", "romeo"]
CLASHING = ["a", "ab", "abc", "abd", "b", "ba", "stop", "start", "sto", "show", "two words", "two more",
            'q"x', "in-let", "x_1", "Alpha", "7", "-3", "42"]
TOKNAMES = ["NUM", "NAME", "FLAG", "MODE", "LABEL", "neg", "Word_1", "PLAINTOK"]


class GenCfg:
    def __init__(self, **kw):
        self.depth = kw.get("depth", 3)
        self.maxkids = kw.get("maxkids", 3)
        self.actions = kw.get("actions", 0.0)
        self.clash = kw.get("clash", 0.2)
        self.value_tokens = kw.get("value_tokens", True)
        self.refs = kw.get("refs", 1)
        self.sets = kw.get("sets", True)
        self.reps = kw.get("reps", True)
        self.maxrep = kw.get("maxrep", 4)
        self.string_tokens = kw.get("string_tokens", 0.3)
        self.help = kw.get("help", 0.0)
        self.kinds = kw.get("kinds")
        self.size = kw.get("size", 14)
        self.long_words = kw.get("long_words", 0.0)


class Gen:

    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        self.g = Gram()
        self.words = list(WORDS)
        rng.shuffle(self.words)
        self.next_id = 1
        self.budget = cfg.size

    def word(self):
        if self.rng.random() < self.cfg.clash:
            return self.rng.choice(CLASHING)
        if not self.words:
            self.words = [w + "2" for w in WORDS]
        if self.rng.random() < self.cfg.long_words:
            return self.words.pop() + "-" + self.rng.choice(["ab", "x", "ndash "]) * self.rng.randint(15, 60) + "z"
        return self.words.pop()

    def token_name(self):
        rng = self.rng
        g = self.g
        if g.tokens and rng.random() < 0.5:
            return rng.choice(list(g.tokens))
        free = [t for t in TOKNAMES if t not in g.tokens]
        if not free:
            return rng.choice(list(g.tokens))
        name = rng.choice(free)
        x = rng.random()
        if x < self.cfg.string_tokens:
            cls = TString() if rng.random() < 0.6 else TRString(rng.randint(0, 3), rng.randint(2, 6))
        elif x < self.cfg.string_tokens + 0.25:
            lo = rng.choice([-120, -15, -3, 0, 0, 1, 1, 5, 90])
            hi = lo + rng.choice([0, 1, 4, 9, 10, 60, 250])
            cls = TInt(lo, hi) if rng.random() < 0.8 else TInt(hi, lo)
        elif x < self.cfg.string_tokens + 0.4:
            cls = TBool()
        elif x < self.cfg.string_tokens + 0.55:
            ws = rng.sample(["red", "green", "grey", "blue", "black", "re", "dark red", "dark blue"], rng.randint(1, 4))
            cls = TAlts(ws)
        else:
            cls = TPlain(name)
        g.tokens[name] = cls.decorate(rng)
        return name

    def leaf(self):
        rng = self.rng
        if self.cfg.value_tokens and rng.random() < 0.3:
            n = N("tok", name=self.token_name())
        else:
            w = self.word()
            n = N("const", text=w)
            # a bare word is a keyword as long as nothing else has that name
            import re
            if re.fullmatch(r"[A-Za-z_][-a-zA-Z0-9_]*", w) and rng.random() < 0.4:
                n.bare = True
        if self.cfg.help and rng.random() < self.cfg.help:
            n.help = rng.choice(["the thing", "help: me", "x" * 30, "long " * rng.choice([9, 30]) + "text", 'say "hi"', "n", w + "s more" if n.kind == "const" else rng.choice(WORDS) + "s",
                                 rng.choice(CLASHING)])
        return n

    def node(self, depth, nullable_ok=True):
        """a term"""
        rng, cfg = self.rng, self.cfg
        self.budget -= 1
        if depth <= 0 or self.budget <= 0 or rng.random() < 0.3:
            return self.leaf()
        kinds = list(cfg.kinds or ["seq", "alt", "opt", "set", "rep", "ref", "seq", "alt", "opt", "rep"])
        if not cfg.sets:
            kinds = [k for k in kinds if k != "set"]
        if not cfg.reps:
            kinds = [k for k in kinds if k != "rep"]
        k = rng.choice(kinds)
        if k == "ref":
            names = [n for n, p, x in self.g.grammars]
            names = [n for n in names if nullable_ok or not self.nullable(self.g.get(n)[1])]
            if not names:
                return self.leaf()
            return N("ref", name=rng.choice(names), spell=rng.randint(0, 1))
        if k == "opt":
            if not nullable_ok:
                k = "seq"
            else:
                if rng.random() < 0.5:
                    # braces around one thing
                    kid = self.node(depth - 1)
                    return N("opt", [kid])
                return N("opt", [self.node(depth - 1) for _ in range(rng.randint(2, cfg.maxkids))])
        if k == "rep":
            body = self.node(depth - 1, nullable_ok=False)
            if self.nullable(body):
                return body
            m = rng.randint(0 if nullable_ok else 1, 3)
            n = rng.randint(max(m, 1), max(m, 1, cfg.maxrep))
            if cfg.maxrep > 7 and rng.random() < 0.7:
                m = rng.randint(4, cfg.maxrep)
                n = m + rng.randint(0, 2)
            sp = rng.randint(0, 1) if m == n else rng.choice([2, 3, 3])
            return N("rep", [body], m=m, n=n, spell=sp)
        cnt = rng.randint(2, cfg.maxkids + (1 if k == "set" else 0))
        kids = [self.node(depth - 1, nullable_ok=(k != "alt" or rng.random() < 0.15) and nullable_ok)
                for _ in range(cnt)]
        n = N(k, kids)
        if not nullable_ok and self.nullable(n):
            kids[rng.randrange(len(kids))] = self.leaf()
            if k == "alt":
                n.kids = [self.leaf() if self.nullable(x) else x for x in kids]
        return n

    def nullable(self, n):
        k = n.kind
        if k in ("const", "tok"):
            return False
        if k == "opt":
            return True
        if k == "ref":
            return self.nullable(self.g.get(n.name)[1])
        if k in ("seq", "set"):
            return all(self.nullable(x) for x in n.kids)
        if k == "alt":
            return any(self.nullable(x) for x in n.kids)
        if k == "rep":
            return n.m == 0 or self.nullable(n.kids[0])

    def rule(self, depth):
        rng = self.rng
        cnt = rng.randint(1, self.cfg.maxkids)
        if cnt == 1:
            return self.node(depth)
        return N(rng.choice(["seq", "seq", "seq", "alt", "set" if self.cfg.sets else "seq"]),
                 [self.node(depth - 1) for _ in range(cnt)])

    def build(self):
        rng, cfg = self.rng, self.cfg
        for i in range(rng.randint(0, cfg.refs)):
            self.budget = cfg.size // 2
            self.g.grammars.append(("sub%d" % i, [], self.rule(cfg.depth - 1)))
        self.budget = cfg.size
        root = self.rule(cfg.depth)
        self.g.grammars.append(("g", [], root))
        self.fix_bare()
        return self.g

    def fix_bare(self):
        """bare words must not be names of tokens or grammars; quoted literals
        equal to a declared token's name are a known finding: not generated"""
        names = set(self.g.tokens) | {n for n, _, _ in self.g.grammars}
        reserved = {"token", "import", "True", "False", "None", "call"}

        def walk(n):
            if n.kind == "const" and (n.text in names or (n.bare and n.text in reserved)):
                n.text = n.text + "_k"
            for k in n.kids:
                walk(k)
        for _, _, node in self.g.grammars:
            walk(node)

    # -- actions ---------------------------------------------------------------

    def add_actions(self, prob, rich=True):
        """Puts recording actions before and after nodes."""
        for name, params, node in self.g.grammars:
            self._act(node, prob, [], rich, top=True)

    def nid(self):
        self.next_id += 1
        return self.next_id - 1

    def _call(self, refs, rich):
        rng = self.rng
        args = []
        for _ in range(rng.randint(0, 2)):
            x = rng.random()
            if refs and x < 0.7:
                args.append(("num", rng.choice(refs)))
            elif x < 0.85:
                args.append(lit(rng.choice([0, 1, "s", "a b", None, True, False, 7, -2, "", 1.5])))
            else:
                args.append(("var", rng.choice(["u", "v", "w"])))
        return ("call", rng.choice(["ev", "ev", "aev"]), self.nid(), args)

    def _stmts(self, refs, rich):
        rng = self.rng
        out = [self._call(refs, rich)]
        if rich and rng.random() < 0.4:
            v = rng.choice(["u", "v", "w"])
            a = rng.choice([("num", rng.choice(refs)) if refs else lit(3), lit("k%d" % self.nid()), ("var", rng.choice(["u", "v", "w"]))])
            out.insert(rng.randint(0, 1), ("assign", ("var", v), a))
        return out

    def _act(self, n, prob, refs_before, rich, top=False, self_ref=1):
        """refs_before: $ numbers of earlier siblings usable in n's actions;
        self_ref: n's own number in its block."""
        rng = self.rng
        if rng.random() < prob * 0.6 and not n.pre:
            n.pre = self._stmts([], rich)
        k = n.kind
        if k == "seq" or (k == "opt" and not self._odd_opt(n)):
            kids = n.kids
            if k == "opt" and len(kids) == 1 and kids[0].kind == "seq":
                # flattened: actions of the inner sequence see the outer block
                inner = kids[0]
                if rng.random() < prob * 0.5:
                    inner.pre = self._stmts([], rich)
                if rng.random() < prob * 0.5:
                    inner.post = self._stmts([], rich)
                kids = inner.kids
            for i, x in enumerate(kids):
                self._act(x, prob, list(range(1, i + 1)), rich, self_ref=i + 1)
        elif k == "set":
            for i, x in enumerate(n.kids):
                self._act(x, prob, [j for j in range(1, len(n.kids) + 1) if j != i + 1], rich, self_ref=i + 1)
        elif k in ("alt", "rep") or k == "opt":
            for x in n.kids:
                self._act(x, prob, [], rich, self_ref=1)
        if rng.random() < prob:
            refs = [self_ref] * 2 + list(refs_before)
            n.post = self._stmts(refs, rich)

    def _odd_opt(self, n):
        return len(n.kids) == 1 and n.kids[0].kind == "rep"


# -- lines ---------------------------------------------------------------------

def sample_line(rng, model, maxlen=14, stop=0.4):
    """A random token list of the language."""
    def leaf_tok(leaf):
        if leaf.tc is None:
            if rng.random() < 0.12:
                k = rng.randint(1, len(leaf.cli))
                if leaf.cli[:k].endswith('"') and k < len(leaf.cli) or leaf.cli[:k].endswith("\\"):
                    return leaf.cli
                return leaf.cli[:k]
            return leaf.cli
        return leaf.tc.sample(rng)

    def gen(m):
        k = m.kind
        if k == "leaf":
            return [leaf_tok(m.leaf)]
        if k == "ref":
            return gen(model.norms[m.ref][1])
        if k == "seq":
            return [t for x in m.kids for t in gen(x)]
        if k == "opt":
            if rng.random() < stop:
                return []
            return [t for x in m.kids for t in gen(x)]
        if k == "alt":
            return gen(rng.choice(m.kids))
        if k == "set":
            idx = list(range(len(m.kids)))
            rng.shuffle(idx)
            return [t for i in idx for t in gen(m.kids[i])]
        if k == "repw":
            out = []
            for _ in range(m.count):
                r = gen(m.kids[0])
                if not r and m.kids[0].nullable:
                    break
                out += r
            return out
    return gen(model.root)


def all_leaf_tokens(rng, model):
    """An alphabet: some token texts for every leaf of the grammar."""
    out = []

    def walk(m):
        if m.kind == "leaf":
            if m.leaf.tc is None:
                out.append(m.leaf.cli)
            else:
                out.append(m.leaf.tc.sample(rng))
        if m.kind == "ref":
            walk(model.norms[m.ref][1])
        for x in m.kids:
            walk(x)
    walk(model.root)
    return list(dict.fromkeys(out))


def mutate_line(rng, line, alphabet):
    line = list(line)
    for _ in range(rng.randint(1, 2)):
        x = rng.random()
        if line and x < 0.25:
            line.pop(rng.randrange(len(line)))
        elif x < 0.5 and alphabet:
            line.insert(rng.randint(0, len(line)), rng.choice(alphabet))
        elif line and x < 0.65:
            i = rng.randrange(len(line))
            line.insert(i, line[i])
        elif len(line) > 1 and x < 0.8:
            i = rng.randrange(len(line) - 1)
            line[i], line[i + 1] = line[i + 1], line[i]
        elif line and x < 0.9:
            i = rng.randrange(len(line))
            t = line[i]
            if len(t) > 1 and not t.startswith('"'):
                line[i] = t[:rng.randint(1, len(t) - 1)]
            else:
                line[i] = rng.choice(["zzz", "9999", "tru", "-", "alp"])
        elif line:
            line[rng.randrange(len(line))] = rng.choice(alphabet + ["zzz", "nosuch", "5", '"quo ted"'])
    return line


def joinable(line):
    """do the tokens survive being joined with blanks?"""
    return all((not t.startswith('"')) or (len(t) > 1 and t.endswith('"')) for t in line[:-1])
