"""C22: user-defined tokens are asked for the current input and see what precedes it."""
import asyncio
import itertools

import vlib
from vlib import check, make_cli, do_match, snap, run, VCli, CliToken, EndOfInpuToken, NullTokenValue
import gram
from gram import Gen, Model, GenCfg, TokClass
import c01
import c07

PID = "C22"
CASES = {"quick": 2600, "thorough": 60000}
RULE = ("generated token classes (synchronous or asynchronous, cacheable or not, completable or not, with any value including falsy ones, "
        "the null value, and methods raising for some inputs) in generated grammars, and context dependent classes whose options, "
        "acceptance and value are functions of the values before them; declarations with arguments by position and name; acceptance, values, suggestions and every call the classes "
        "receive are compared with reference interpreters; non-trivial = distinct (grammar, line) with a user token that was asked")
REQUIRED = {"sync": 310, "async": 330, "uncacheable": 330, "accepted": 3000, "rejected": 7300, "falsy": 1400,
            "containers_changed": 1700, "with_failing_class": 5700, "suggested": 6900, "calls": 150000,
            "context_calls": 270000, "context_match": 130000, "context_value": 93000, "context_complete": 17000,
            "context_help": 28000, "context_helps": 15000, "context_accepted": 5400, "context_ambiguous": 180,
            "context_rejected": 2500, "several_readings": 250, "context_suggested": 13000, "diverse_contexts": 170,
            "declared": 1700, "declared_named": 1100, "declared_positional": 1300}
ASSUMPTIONS = ["classes marked cacheable give the same value for the same text", "methods raise ordinary exceptions"]

SUCCESS, PARTIAL, FAILURE = vlib.toks.MATCH_SUCCESS, vlib.toks.MATCH_PARTIAL, vlib.toks.MATCH_FAILURE


class Odd:
    """a value of a class of its own, equal to nothing"""

    def __eq__(self, o):
        return False

    def __hash__(self):
        return 1

    def __repr__(self):
        return "Odd()"


class Falsy:

    def __bool__(self):
        return False

    def __repr__(self):
        return "Falsy()"


class Same:
    """equal to everything"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 7

    def __repr__(self):
        return "Same()"


class Touchy:
    """a value which does not let itself be compared, judged or hashed"""

    def no(self, *a):
        raise TypeError("ambiguous")

    __eq__ = __ne__ = __bool__ = __len__ = __hash__ = __str__ = no

    def __repr__(self):
        return "Touchy()"


VALUES = [0, "", False, None, [], {}, set(), (), 0.0, 1, "text", "a\\nb", '"quoted"', "$x", "$1", [1, "x"], {"k": 1}, (1, 2), 1.5, True, -3,
          Odd(), Falsy(), Same(), Touchy(), b"bytes", "\x00", " "]


def fresh(v):
    """containers are made anew, as user code would"""
    return type(v)(v) if isinstance(v, (list, dict, set)) else v


def dirty(values, obs):
    """what an action or a handler can do to the values it got"""
    for v in values:
        if isinstance(v, list):
            v.append("dirt")
        elif isinstance(v, dict):
            v["dirt"] = 1
        elif isinstance(v, set):
            v.add("dirt")
        else:
            continue
        obs.count["containers_changed"] += 1


# -- tables: classes without context -------------------------------------------

class Table(TokClass):
    """a generated token class and its reference"""

    kind = "table"

    def __init__(self, rng, ident, words):
        self.ident = ident
        self.completable = rng.random() < 0.6
        self.sync = rng.random() < 0.5
        self.help_sync = rng.random() < 0.5
        self.cacheable = rng.random() < 0.5
        self.entries = {}
        for w in words:
            self.entries[w] = rng.choice(["value"] * 7 + ["null", "raise_match", "raise_value"]), rng.choice(VALUES)
        self.raise_complete = set(w[:k] for w in words for k in range(len(w)) if rng.random() < 0.08) if rng.random() < 0.3 else set()
        self.raise_help = rng.random() < 0.15
        self.help = "help of %s" % ident
        self.each = rng.random() < 0.6
        self.exc = rng.choice([ValueError, KeyError, RuntimeError, StopIteration, AssertionError, ZeroDivisionError, OSError])

    def decl(self):
        return self.ident + "()"

    def help_of(self, w):
        """the help text of a suggested word"""
        return "%s: %s" % (self.help, w) if self.each and self.completable and w not in self.raise_complete else self.help

    def comps(self, p):
        return [w for w in self.entries if w.startswith(p)]

    def matching(self, s):
        if s in self.entries:
            return FAILURE if self.entries[s][0] == "raise_match" else SUCCESS
        if self.comps(s):
            return PARTIAL
        return FAILURE

    def value(self, s):
        """-> (has value, value)"""
        if s not in self.entries and self.completable:
            l = self.comps(s)
            if len(l) != 1 or s in self.raise_complete:
                return False, None
            s = l[0]
        if s not in self.entries:
            return False, None
        k, v = self.entries[s]
        return k in ("value", "raise_match"), v

    def accept(self, s):
        m = self.matching(s)
        ok, v = self.value(s)
        if m == FAILURE or not ok:
            return None
        return ("exact" if m == SUCCESS else "prefix", v)

    def viable(self, s):
        m = self.matching(s)
        return m == PARTIAL or (m == SUCCESS and self.value(s)[0])

    def suggestions(self, p):
        if self.completable and p not in self.raise_complete and self.comps(p):
            return "list", self.comps(p)
        return "help", self.help

    def sample(self, rng):
        good = [w for w, (k, v) in self.entries.items() if k == "value"]
        if not good or rng.random() < 0.05:
            return rng.choice(list(self.entries))
        return rng.choice(good)

    def make(self):
        t = self

        def note(self, cli, what, s):
            if hasattr(cli, "calls"):
                seen = cli.get_matched_values()
                cli.calls.append((t.ident, what, s, list(seen)))
                # what it does with the list is its own business
                seen.append("dirt")
                seen.reverse()

        def match(self, s, cli):
            note(self, cli, "match", s)
            if t.entries.get(s, ("",))[0] == "raise_match":
                raise t.exc("match")
            return t.matching(s)

        def complete(self, s, cli):
            note(self, cli, "complete", s)
            if s in t.raise_complete:
                raise t.exc("complete")
            l = t.comps(s)
            return len(l), l

        def get_value(self, s=None, cli=None):
            note(self, cli, "value", s)
            if t.entries.get(s, ("",))[0] == "raise_value":
                raise t.exc("value")
            ok, v = t.value(s)
            return fresh(v) if ok else NullTokenValue

        def get_helpstring(self, s=None, cli=None):
            note(self, cli, "help", s)
            if t.raise_help:
                raise t.exc("help")
            if self._helpstring is not None:
                return self._helpstring
            return t.help_of(s) if s in t.entries else t.help
        return make_class(t.ident, match, complete, get_value, get_helpstring, t.completable, t.cacheable, t.sync, t.help_sync)


def as_async(f):
    async def g(self, s=None, cli=None):
        if len(s or "") % 2:
            await asyncio.sleep(0)
        return f(self, s, cli)
    return g


def make_class(name, match, complete, get_value, get_helpstring, completable, cacheable, sync, help_sync):
    w = (lambda f: f) if sync else as_async
    d = {"match": w(match), "complete": w(complete), "get_value": w(get_value),
         "get_helpstring": get_helpstring if help_sync else as_async(get_helpstring),
         "completable": property(lambda self: completable), "cacheable": property(lambda self: cacheable)}
    return type(name, (CliToken,), d)


VOCAB = ["on", "one", "ones", "off", "alpha", "alps", "beta", "b", "0", "12", "1", "eth0", "eth1", '"a b"', '"a c"', "x", "zed"]


def tables(rng, obs):
    """user tokens in grammars of any shape"""
    gen = Gen(rng, GenCfg(depth=rng.choice([2, 3]), clash=rng.choice([0, 0.3]), refs=1, help=0.2, string_tokens=0.0))
    g = gen.build()
    if not g.tokens:
        return
    used = []
    for name in list(g.tokens):
        if rng.random() < 0.75 or not used:
            g.tokens[name] = t = Table(rng, "Tab%d" % len(used), rng.sample(VOCAB, rng.choice([1, 2, 3, 5])))
            used.append(t)
    gen.add_actions(rng.choice([0.3, 0.6]))
    text = gram.render(g)
    model = Model(g)

    class C(VCli):
        vclasses = vlib.BUILTIN_TOKENS + [t.make() for t in used]
    c = make_cli(vlib.compile_grammar(text), cls=C)
    c.calls = []
    for t in used:
        obs.count["sync" if t.sync else "async"] += 1
        obs.count["uncacheable"] += not t.cacheable
    helps_ok = not any(t.raise_help for t in used)
    raising = helps_ok is False or any(t.raise_complete or any(k.startswith("raise") for k, _ in t.entries.values()) for t in used)
    byname = {t.ident: t for t in used}
    for line in c01.lines_for(rng, model, 12, 8, 12):
        if not line or len(line) > 14 or not model.tame(line, 40):
            continue
        obs.ev()
        del c.calls[:]
        r = do_match(c, line, arglist=[])
        got = list(c.log)
        kind, pos = model.classify(line)
        where = dict(line=line, grammar=text, tables={t.ident: t.entries for t in used})
        if kind == "accept":
            check(r.result in ("success", "ambigous"), "a line of user tokens was not accepted", result=r.result, error=r.error, **where)
        else:
            check(r.result not in ("success", "ambigous"), "a line which no command derives was accepted", result=r.result, **where)
            check(not got, "a rejected line ran actions", got=got, **where)
            obs.count["rejected"] += 1
        if r.result == "success":
            ders = model.derivations(line)
            want = [model.execute(d, line, snap)[0] for d in ders]
            check(got in want, "values of user tokens were not delivered as they are", got=got, want=want[:2], **where)
            obs.count["accepted"] += 1
            vals = [[m.leaf.tc.value(line[k])[1] for m, k in model.leaves(d) if isinstance(m.leaf.tc, Table)] for d in ders]
            obs.count["falsy"] += sum(1 for v in vals[0] if not isinstance(v, Touchy) and not v)
            # the very objects are delivered
            for v in vals[0]:
                if isinstance(v, (Odd, Falsy, Same, Touchy)):
                    check(any(any(x is v for x in (d2 if isinstance(d2, list) else [d2])) for d2 in r.matched_values) or len(ders) > 1,
                          "another object than the value was delivered", **where)
            dirty(r.matched_values, obs)
        check(c.verr.getvalue() == "", "something was reported", err=c.verr.getvalue()[:200], **where)
        seen_before(c, line, byname, where, obs, True)
        if c.calls:
            obs.seen((text, tuple(line)))
            if raising:
                obs.count["with_failing_class"] += 1
        # looked up
        for ltc in (True, False):
            done, p = (line, "") if ltc else (line[:-1], line[-1])
            if not ltc and rng.random() < 0.5 and len(p) > 1:
                p = p[:rng.randint(1, len(p))]
            if p.endswith("\\"):
                continue
            del c.calls[:]
            k2, _ = model.classify(done)
            r2 = run(c.match(list(done) + ([p] if not ltc else []), dry_run=True, last_token_complete=ltc))
            if k2 == "failure":
                check(r2.result == "failure", "a wrong line has suggestions", done=done, **where)
                continue
            if not ltc and not c07.expected(model, done, p, False)[0]:
                check(r2.result == "failure", "an unfinished wrong line has suggestions", done=done, p=p, **where)
                continue
            check(r2.result == "partial", "a line that can go on is not taken", done=done, p=p, result=r2.result, **where)
            if helps_ok:
                c07.compare(model, done, p, ltc, r2.next_tokens, obs, text)
                obs.count["suggested"] += 1
            seen_before(c, list(done) + ([p] if not ltc else []), byname, where, obs, ltc)
    obs.sample({"grammar": text})


def seen_before(c, line, byname, where, obs, ltc):
    """every call came with as many values as tokens precede it"""
    for ident, what, s, seen in c.calls:
        obs.count["calls"] += 1
        k = len(seen)
        if k < len(line) and line[k] == s:
            continue
        if what in ("complete", "help") and (k == len(line) or (k == len(line) - 1 and not ltc)):
            continue
        check(False, "a token was asked while the values before it were others", asked=(ident, what, s), saw=seen, typed=line, **where)


# -- context -------------------------------------------------------------------

OPTS = ["ant", "bee", "cat", "be", "cow", "dog"]


class Ctx:
    """a class whose options depend on the values before it"""

    def __init__(self, rng, ident):
        self.ident = ident
        self.how = rng.choice(["count", "last", "all", "echo", "first"])
        self.salt = rng.randrange(1000)
        self.completable = rng.random() < 0.7
        self.sync = rng.random() < 0.5
        self.help_sync = rng.random() < 0.5
        self.fails = rng.choice([None, None, None, "match", "value", "complete", "help"])
        self.boom = rng.choice(OPTS)
        self.help = "about " + ident

    cacheable = False

    def options(self, seen):
        if self.how == "echo":
            return sorted(set(v.split("/")[0] for v in seen if isinstance(v, str) and v.split("/")[0])) or ["none"]
        key = {"count": len(seen), "last": repr(seen[-1:]), "all": repr(seen), "first": repr(seen[:1])}[self.how]
        h = sum(ord(ch) * (i + 7) for i, ch in enumerate("%s|%s" % (key, self.salt)))
        n = 1 + h % 3
        return sorted(set(OPTS[(h // (k + 1)) % len(OPTS)] for k in range(n)))

    def failing(self, what, s):
        return self.fails == what and s == self.boom

    def matching(self, seen, s):
        if self.failing("match", s):
            return FAILURE
        o = self.options(seen)
        if s in o:
            return SUCCESS
        return PARTIAL if any(w.startswith(s) for w in o) else FAILURE

    def value(self, seen, s, line_no):
        if self.failing("value", s):
            return False, None
        o = self.options(seen)
        if s not in o:
            l = [w for w in o if w.startswith(s)]
            if not self.completable or len(l) != 1:
                return False, None
            s = l[0]
        # what was seen and when it was asked is part of the value
        return True, "%s/%d/%s/%s" % (s, len(seen), abs(hash_of(seen)), line_no)

    def accept(self, seen, s, line_no):
        m = self.matching(seen, s)
        ok, v = self.value(seen, s, line_no)
        return None if m == FAILURE or not ok else (m == SUCCESS, v)

    def viable(self, seen, s, line_no):
        m = self.matching(seen, s)
        return m == PARTIAL or (m == SUCCESS and self.value(seen, s, line_no)[0])

    def comps(self, seen, p):
        if not self.completable or (self.fails == "complete" and p == self.boom[:1]):
            return []
        return [w for w in self.options(seen) if w.startswith(p)]

    def help_of(self, seen, s):
        """the help text of a suggested word (or of the whole class)"""
        return "%s %d %s" % (self.help, abs(hash_of(seen)), s) if self.comps(seen, s) else self.help

    def make(self):
        t = self

        def note(cli, what, s):
            got = cli.get_matched_values()
            seen = list(got)
            cli.calls.append((t.ident, what, s, tuple(map(snap, seen))))
            del got[:]
            return seen

        def match(self, s, cli):
            seen = note(cli, "match", s)
            if t.failing("match", s):
                raise ValueError("match")
            return t.matching(seen, s)

        def complete(self, s, cli):
            seen = note(cli, "complete", s)
            if t.fails == "complete" and s == t.boom[:1]:
                raise ValueError("complete")
            l = t.comps(seen, s)
            return len(l), l

        def get_value(self, s=None, cli=None):
            seen = note(cli, "value", s)
            if t.failing("value", s):
                raise ValueError("value")
            ok, v = t.value(seen, s, cli.line_no)
            return fresh(v) if ok else NullTokenValue

        def get_helpstring(self, s=None, cli=None):
            seen = note(cli, "help", s)
            if t.fails == "help":
                raise ValueError("help")
            return t.help_of(seen, s)
        return make_class(t.ident, match, complete, get_value, get_helpstring, t.completable, t.cacheable, t.sync, t.help_sync)


def hash_of(seen):
    return sum(ord(ch) * (i % 97 + 3) for i, ch in enumerate(repr([snap(v) for v in seen]))) % 99991


class Fixed(Ctx):
    """a class of fixed words and values"""

    def __init__(self, rng, ident):
        super().__init__(rng, ident)
        self.table = {w: rng.choice(VALUES[:11] + VALUES[15:]) for w in rng.sample(OPTS, rng.choice([1, 2, 3]))}
        self.fails = None
        self.cacheable = rng.random() < 0.6

    def options(self, seen):
        return sorted(self.table)

    def value(self, seen, s, line_no):
        o = self.options(seen)
        if s not in o:
            l = [w for w in o if w.startswith(s)]
            if not self.completable or len(l) != 1:
                return False, None
            s = l[0]
        return True, self.table[s]


def contexts(rng, obs):
    kinds = {}
    for i in range(rng.randint(1, 3)):
        kinds["K%d" % i] = Ctx(rng, "Ctx%d" % i)
    for i in range(rng.randint(1, 2)):
        kinds["F%d" % i] = Fixed(rng, "Fix%d" % i)
    words = ["set", "get", "ant", "be", "a"]
    alts = []           # readings: (alternative, [(position, element)])
    texts = []
    for n in range(rng.randint(1, 4)):
        els = []
        size = rng.randint(1, 5)
        for j in range(size):
            e = rng.choice(list(kinds)) if rng.random() < 0.7 else '"%s"' % rng.choice(words)
            els.append((e, rng.random() < 0.3 and 0 < j < size - 1))     # the action is that of the last element
        args = ", ".join("$%d" % (j + 1) for j in range(len(els)))
        texts.append(" ".join("{%s}" % e if o else e for e, o in els) + " << call ev(%d, %s); >>" % (n, args))
        opts = [j for j, (e, o) in enumerate(els) if o]
        for r in range(2 ** len(opts)):
            gone = set(j for b, j in enumerate(opts) if r >> b & 1)
            alts.append((n, len(els), [(j, e) for j, (e, o) in enumerate(els) if j not in gone]))
    text = "".join("token %s %s();\n" % (k, t.ident) for k, t in kinds.items()) + "g: " + "\n | ".join(texts) + ";\n"

    class C(VCli):
        vclasses = [t.make() for t in kinds.values()]
    c = make_cli(vlib.compile_grammar(text), cls=C)
    c.calls, c.line_no = [], 0

    def step(e, seen, s, no):
        """-> None or (exact, value)"""
        if e[0] == '"':
            w = e[1:-1]
            return (w == s, w) if w.startswith(s) and s else None
        return kinds[e].accept(seen, s, no)

    def prefixes(toks, no):
        """-> list over k of [(alt, els, seen)] which take the first k tokens"""
        cur = [(n, w, els, []) for n, w, els in alts]
        res = [cur]
        for k, s in enumerate(toks):
            nxt = []
            for n, w, els, seen in cur:
                if k < len(els):
                    r = step(els[k][1], seen, s, no)
                    if r:
                        nxt.append((n, w, els, seen + [r[1]]))
            cur = nxt
            res.append(cur)
        return res

    def allowed(pre, toks, ltc):
        al = set()
        for k, rs in enumerate(pre):
            for n, w, els, seen in rs:
                if k < len(els) and els[k][1][0] != '"':
                    ident = kinds[els[k][1]].ident
                    key = tuple(map(snap, seen))
                    if k < len(toks):
                        al.add((ident, toks[k], key))
                    if k == len(toks) or (k == len(toks) - 1 and not ltc):
                        al.add((ident, "", key))
                        for w2 in kinds[els[k][1]].options(seen):
                            al.add((ident, w2, key))
        return al

    where = dict(grammar=text, classes={t.ident: (t.how, t.salt, t.fails, t.completable) for t in kinds.values()})

    def calls_ok(pre, toks, ltc):
        al = allowed(pre, toks, ltc)
        for ident, what, s, seen in c.calls:
            obs.count["context_calls"] += 1
            obs.count["context_" + what] += 1
            check((ident, s, seen) in al, "a token was asked while the values before it were others", asked=(ident, what, s), saw=seen,
                  could=sorted(map(repr, [a for a in al if a[0] == ident and a[1] == s]))[:4], line=toks, **where)

    for _ in range(14):
        n, w, els = rng.choice(alts)
        c.line_no += 1
        toks, seen = [], []
        for j, e in els:
            if e[0] == '"':
                s = e[1:-1]
            else:
                s = rng.choice(kinds[e].options(seen))
            if rng.random() < 0.1:
                s = s[:max(1, len(s) - 1)]
            if rng.random() < 0.07:
                s = rng.choice(OPTS + ["zz", "none"])
            toks.append(s)
            r = step(e, seen, s, c.line_no)
            if r is None and rng.random() < 0.7:
                break
            seen.append(r[1] if r else None)
        if rng.random() < 0.1:
            toks.append(rng.choice(OPTS))
        pre = prefixes(toks, c.line_no)
        full = [(n, w, els, seen) for n, w, els, seen in pre[-1] if len(els) == len(toks)]
        more = [x for x in pre[-1] if len(x[2]) > len(toks)]
        del c.calls[:]
        obs.ev()
        r = do_match(c, toks, arglist=[])
        got = list(c.log)
        if full:
            check(r.result in ("success", "ambigous"), "a line of user tokens was not accepted", line=toks, result=r.result, error=r.error, **where)
            wants = []
            for n, w, els, seen in full:
                args = [None] * w
                for (j, e), v in zip(els, seen):
                    args[j] = snap(v)
                wants.append([(n,) + tuple(args)])
            if r.result == "success":
                check(got in wants, "other values than those of the classes were delivered", line=toks, got=got, want=wants[:3], **where)
                obs.count["context_accepted"] += 1
                dirty(r.matched_values, obs)
            else:
                check(len(full) > 1 and not got, "not accepted", line=toks, **where)
                obs.count["context_ambiguous"] += 1
            if len(full) > 1:
                obs.count["several_readings"] += 1
        else:
            check(r.result not in ("success", "ambigous") and not got, "a line which no command derives was accepted", line=toks, result=r.result,
                  got=got, **where)
            obs.count["context_rejected"] += 1
            check((r.result == "partial") == bool(more), "wrong kind of rejection", line=toks, result=r.result, error=r.error, **where)
        calls_ok(pre, toks, True)
        check(c.verr.getvalue() == "", "something was reported", err=c.verr.getvalue()[:200], line=toks, **where)
        if c.calls:
            obs.seen((text, tuple(toks)))
        # looked up
        for ltc in (True, False):
            c.line_no += 1
            cut = rng.randint(0 if ltc else 1, len(toks)) if toks else 0
            done, p = toks[:cut], ""
            if not ltc:
                if not done:
                    continue
                done, p = done[:-1], done[-1][:rng.randint(1, len(done[-1]))]
            typed = done + ([p] if not ltc else [])
            pre = prefixes(done, c.line_no)
            exp, comp = {}, False
            diverse = {}
            for n, w, els, seen in pre[-1]:
                if len(els) == len(done):
                    comp = True
                    continue
                e = els[len(done)][1]
                if e[0] == '"':
                    if e[1:-1].startswith(p):
                        exp.setdefault(e[1:-1], set()).add(e[1:-1])
                    continue
                t = kinds[e]
                if p and not t.viable(seen, p, c.line_no):
                    continue
                diverse.setdefault(e, set()).add(repr(seen))
                l = t.comps(seen, p)
                for x in l:
                    exp.setdefault(x, set()).add(t.help_of(seen, x))
                if not l:
                    exp[None, t.help if t.fails != "help" else ""] = {t.help}
            obs.count["diverse_contexts"] += sum(1 for v in diverse.values() if len(v) > 1)
            del c.calls[:]
            obs.ev()
            r = run(c.match(list(typed), dry_run=True, last_token_complete=ltc))
            if not exp and not (comp and not p):
                check(r.result == "failure", "suggestions for a wrong line", typed=typed, ltc=ltc, got=[str(x) for x in r.next_tokens], **where)
            else:
                check(r.result == "partial", "no suggestions", typed=typed, ltc=ltc, result=r.result, error=r.error, want=list(exp), **where)
                gotset = {}
                for x in r.next_tokens:
                    if x is EndOfInpuToken:
                        continue
                    if x.completion is not None:
                        gotset.setdefault(x.completion, set()).add(x.helpstring)
                    else:
                        gotset[None, x.helpstring] = {x.helpstring}
                if any(t.fails == "help" for t in kinds.values()):
                    # how a failing help is shown is left open
                    a, b = set(k for k in gotset if isinstance(k, str)), set(k for k in exp if isinstance(k, str))
                else:
                    a, b = set(gotset), set(exp)
                    for x in a & b:
                        check(gotset[x] <= exp[x], "another help text than the class gives for a suggested word", typed=typed, ltc=ltc,
                              word=x, got=gotset[x], want=exp[x], **where)
                        obs.count["context_helps"] += 1
                check(a == b, "other suggestions than the classes give", typed=typed, ltc=ltc, got=sorted(map(repr, a)), want=sorted(map(repr, b)),
                      **where)
                obs.count["context_suggested"] += 1
            calls_ok(prefixes(typed, c.line_no), typed, ltc)
    obs.sample({"grammar": text})


def declared(rng, obs):
    """what is written in the declaration is what the class is made with"""
    names = ["start", "end", "flag", "opt_1", "Text", "helpstring", "max_suggestions"]
    values = [0, 1, -7, 123456789012, 1.5, -0.25, "", "a b", 'say "x"', "a\\b", "$x", "a, b = (c)", "None", "# c", "// d", True, False, None]
    made = []

    def write(v):
        return gram.quote(v) if isinstance(v, str) else repr(v)

    class Made(CliToken):

        def __init__(self, name, *args, cli=None, helpstring=None, **kw):
            super().__init__(name, helpstring, cli)
            made.append((name, args, dict(kw, **({"helpstring": helpstring} if helpstring is not None else {})), cli))

        async def match(self, token_input, cli):
            return SUCCESS if token_input == "x" + self.name.lower() else FAILURE

        async def get_value(self, match_string=None, cli=None):
            return [m for m in made if m[0] == self.name][-1][1:3]

    decls, uses, want, shown = [], [], {}, {}
    for k in range(rng.randint(1, 4)):
        name = "Tok%d" % k
        pos = [rng.choice(values) for _ in range(rng.randint(0, 5))]
        kw = {n: rng.choice(values) for n in rng.sample(names, rng.randint(0, 4))}
        if kw.get("helpstring", "") is None:
            kw["helpstring"] = "h"
        eq = rng.choice(["=", " = ", "= "])
        args = [write(v) for v in pos] + [n + eq + write(v) for n, v in kw.items()]
        decls.append("token %s Made(%s);" % (name, rng.choice([", ", ",", " ,\n "]).join(args)))
        help = rng.choice([None, None, "shown", "a: b"])
        uses.append(name + (": " + gram.quote(help) if help else ""))
        shown[name] = help
        want[name] = (tuple(pos), kw)
        obs.count["declared_named"] += len(kw)
        obs.count["declared_positional"] += len(pos)
    text = "\n".join(decls) + "\ng: " + " | ".join("(%s << call _got($1); >>)" % u for u in uses) + ";\n"

    class DCli(VCli):

        def get_token_classes(self):
            return list(vlib.BUILTIN_TOKENS) + [Made]

    c = make_cli(vlib.compile_grammar(text), cls=DCli)
    got = []
    c._got = lambda *a: got.append(a)
    for _ in range(3):
        for name, (pos, kw) in want.items():
            del got[:]
            r = do_match(c, ["x" + name.lower()])
            obs.ev()
            check(r.result == "success", "a declared token does not match", result=r.result, error=r.error, grammar=text, err=c.verr.getvalue()[-200:])
            check(len(got) == 1 and repr(got[0][0][0]) == repr(pos) and got[0][0] in [m[1:3] for m in made if m[0] == name],
                  "a token class was made with other arguments than declared", token=name, got=got, want=(pos, kw), grammar=text)
            for _, p, k, _ in [m for m in made if m[0] == name]:
                # only the help text shown may differ between places
                helps = {repr(kw.get("helpstring")), repr(shown[name] or kw.get("helpstring"))}
                check(repr(p) == repr(pos) and {x: repr(v) for x, v in k.items() if x != "helpstring"} == {
                      x: repr(v) for x, v in kw.items() if x != "helpstring"} and repr(k.get("helpstring")) in helps,
                      "a token class was made with other arguments than declared", token=name, got=(p, k), want=(pos, kw), grammar=text)
            check(all(m[3] is c for m in made), "a token class was made for something else than the cli", grammar=text)
            obs.count["declared"] += 1
    obs.seen(text)


def run_case(rng, idx, obs):
    if idx % 5 == 0:
        declared(rng, obs)
    if idx % 2:
        tables(rng, obs)
    else:
        contexts(rng, obs)
