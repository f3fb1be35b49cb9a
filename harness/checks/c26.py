"""C26: what commands change is what the next line and the next TAB see."""
import asyncio
import io
import os
import tempfile

import vlib
from vlib import check, NessaidCmd, CliToken, rlkey

PID = "C26"
CASES = {"quick": 600, "thorough": 26000}
RULE = ("an application of objects with tags as the documentation builds them (token classes asking the application for the names in use and, "
        "by the values before them, for the tags of the object named; a context per object, nested, with or without the parent's "
        "commands, changes applied when it is left), driven by typed sessions of 20-60 inputs: good, abbreviated, stale, wrong, "
        "unfinished and abandoned lines, TABs, command files, lines run by handlers in the same and in another object of the class,"
        " changes which happen while a line is being typed or between two TABs; "
        "the application's state, the calls, the line buffer and the rows on the screen against a model after every input; "
        "non-trivial = distinct scripts")
REQUIRED = {"lines": 15000, "by_handlers": 2900, "completed_and_run": 160, "changed_while_typed": 3300,
            "tab_again": 940, "entered_by_handlers": 330, "lines_after_entering": 700, "rejected_after_entering": 190,
            "fallback": 660, "file_lines": 1400, "helps": 26000, "rejected": 2700, "run_begin": 390, "run_copy": 360,
            "run_drop": 290, "run_edit": 480, "run_find": 570, "run_later": 1200, "run_pair": 490, "run_remote": 530,
            "run_rename": 1700, "run_sub": 1000, "run_untag": 1200, "shown": 2700, "tab_dozens": 380, "tab_many": 1300,
            "tab_none": 600, "tab_one": 850}
ASSUMPTIONS = ["a line which no context in reach can run but which an enclosing one could complete is not entered",
               "names and tags are plain words, none of them a keyword"]

NAMES = ["a", "ab", "abc", "b", "bc", "c1", "c2", "long_name", "long_tail"]
TAGS = ["t", "t1", "t12", "u", "uu", "v"]
ITEMS = ["item_%02d" % i for i in range(60)]
MARKS = ["m%02d" % i for i in range(60)]


class World:

    def __init__(self):
        self.objs = {}

    def image(self):
        return tuple(sorted((n, tuple(sorted(t))) for n, t in self.objs.items()))


def change(world, what):
    """something happens to the application while nobody enters anything"""
    kind, name, tags = what
    if kind == "add":
        world.objs[name] = set(tags)
    elif kind == "del":
        del world.objs[name]
    else:
        world.objs[name].symmetric_difference_update(tags)


def prefix_of(words):
    words = sorted(words)
    if not words:
        return ""
    return os.path.commonprefix([words[0], words[-1]])


# --------------------------------------------------------------------------
# the application

class FromWorld(CliToken):

    cacheable = False

    async def options(self, cli):
        raise NotImplementedError

    async def match(self, s, cli):
        await asyncio.sleep(0)
        return await CliToken.match_from_multiple(await self.options(cli), s, cli=cli)

    async def complete(self, s, cli):
        await asyncio.sleep(0)
        return await CliToken.complete_from_multiple(await self.options(cli), s, cli=cli)


class ObjToken(FromWorld):

    async def options(self, cli):
        return list(cli.world.objs)

    async def get_helpstring(self, s, cli=None):
        if s in cli.world.objs:
            return help_of(cli.world, s)
        return "one of %d" % len(cli.world.objs)


def help_of(world, name):
    return "%s has %d" % (name, len(world.objs[name]))


class ExactObjToken(ObjToken):
    """abbreviations are viable, but no value"""

    async def match(self, s, cli):
        m = await super().match(s, cli)
        if m == vlib.toks.MATCH_SUCCESS and s not in cli.world.objs:
            return vlib.toks.MATCH_PARTIAL
        return m

    async def get_value(self, s=None, cli=None):
        return s if s in cli.world.objs else vlib.NullTokenValue


class TagToken(FromWorld):

    def __init__(self, name, own, helpstring=None, cli=None):
        self.own = own
        super().__init__(name, helpstring=helpstring, cli=cli)

    async def options(self, cli):
        if self.own:
            return set(cli.world.objs.get(cli.obj, ()))
        return set(cli.world.objs.get(cli.get_matched_values()[-1], ()))


class AnyTagToken(FromWorld):

    async def options(self, cli):
        return tuple(set(t for o in cli.world.objs.values() for t in o))


class App(NessaidCmd):
    """
    token OBJ ObjToken();
    token EXACT ExactObjToken();
    token TAG TagToken(False);
    token OWNTAG TagToken(True);
    token ANYTAG AnyTagToken();
    token WORD StringToken();
    token NUM RangedIntToken(0, 999);
    """

    world = None
    sh = None
    obj = None

    def get_token_classes(self):
        return [ObjToken, ExactObjToken, TagToken, AnyTagToken] + list(vlib.BUILTIN_TOKENS)

    def add(self, *ev):
        self.sh.log.append((self.where(),) + ev)

    def where(self):
        return (type(self).__name__, self.obj)

    async def go(self, cls, mp, obj):
        await self.enter_context(cls, prompt="(%s)> " % obj, match_parent_grammar=mp)
        child = self.child_cli
        child.world, child.sh, child.obj, child.pending, child.discarded = self.world, self.sh, obj, [], False

    async def macro(self, k, cli):
        for line in self.sh.macros[k]:
            rc = await cli.exec_line(line)
            self.add("rc", rc == 0)

    async def do_macro(self, k):
        """
        "macro" NUM << $k = $2; >>
        """
        self.add("macro", k)
        await self.macro(k, self)

    async def do_remote(self, k):
        """
        "remote" NUM << $k = $2; >>
        """
        self.add("remote", k)
        await self.macro(k, self.sh.other)

    def do_load(self, k):
        """
        "load" NUM << $k = $2; >>
        """
        self.add("load", k)
        self.add_file_to_execute(os.path.join(self.sh.dir, "f%d" % k))

    def do_show(self):
        """
        "show"
        """
        self.add("show", self.world.image())


class Top(App):

    async def do_create(self, name, tags):
        """
        << $tags = list(); >>
        "create" WORD << $name = $2; >> { "with" ((WORD << append($tags, $1); >>) * (1:3)) }
        """
        self.add("create", name, tuple(tags))
        self.world.objs.setdefault(name, set()).update(tags)

    def do_delete(self, obj):
        """
        "delete" OBJ << $obj = $2; >>
        """
        self.add("delete", obj)
        del self.world.objs[obj]

    async def do_rename(self, obj, name):
        """
        "rename" OBJ << $obj = $2; >> "to" WORD << $name = $4; >>
        """
        self.add("rename", obj, name)
        await asyncio.sleep(0.1)
        self.world.objs[name] = self.world.objs.pop(obj)

    def do_tag(self, obj, tag):
        """
        "tag" EXACT << $obj = $2; >> WORD << $tag = $3; >>
        """
        self.add("tag", obj, tag)
        self.world.objs[obj].add(tag)

    async def do_untag(self, obj, tag):
        """
        "untag" OBJ << $obj = $2; >> TAG << $tag = $3; >>
        """
        self.add("untag", obj, tag)
        self.world.objs[obj].remove(tag)

    def do_copy(self, obj, tag, other):
        """
        "copy" OBJ TAG "into" OBJ << $obj = $2; $tag = $3; $other = $5; >>
        """
        self.add("copy", obj, tag, other)
        self.world.objs[other].add(tag)

    def do_drop(self, tags):
        """
        << $tags = list(); >>
        "drop" ((OBJ TAG << append($tags, $1, $2); >>) * (1:3))
        """
        self.add("drop", *tags)
        for o, t in zip(tags[::2], tags[1::2]):
            self.world.objs[o].discard(t)

    async def do_pair(self, one, two):
        """
        "pair" (("from" OBJ << $one = $2; >>), ("into" EXACT << $two = $2; >>))
        """
        self.add("pair", one, two)
        self.world.objs[two] |= self.world.objs[one]

    async def do_find(self, tag):
        """
        "find" ANYTAG << $tag = $2; >>
        """
        self.add("find", tag, tuple(sorted(n for n, t in self.world.objs.items() if tag in t)))

    async def do_edit(self, obj):
        """
        "edit" OBJ << $obj = $2; >>
        """
        self.add("edit", obj)
        await self.go(Edit, True, obj)

    async def do_begin(self, obj, k):
        """
        "begin" OBJ NUM << $obj = $2; $k = $3; >>
        """
        self.add("begin", obj, k)
        await self.go(Edit, True, obj)
        await self.macro(k, self)

    async def do_only(self, obj):
        """
        "only" OBJ << $obj = $2; >>
        """
        self.add("only", obj)
        await self.go(Edit, False, obj)


class Edit(App):

    pending = ()
    discarded = False

    def do_tag(self, tag):
        """
        "tag" WORD << $tag = $2; >>
        """
        self.add("tag", tag)
        if self.obj in self.world.objs:
            self.world.objs[self.obj].add(tag)

    def do_untag(self, tag):
        """
        "untag" OWNTAG << $tag = $2; >>
        """
        self.add("untag", tag)
        self.world.objs[self.obj].remove(tag)

    async def do_rename(self, name):
        """
        "rename" WORD << $name = $2; >>
        """
        self.add("rename", name)
        if self.obj in self.world.objs:
            self.world.objs[name] = self.world.objs.pop(self.obj)
            self.obj = name

    def do_later(self, tag):
        """
        "later" WORD << $tag = $2; >>
        """
        self.add("later", tag)
        self.pending.append(tag)

    async def do_sub(self, obj):
        """
        "sub" OBJ << $obj = $2; >>
        """
        self.add("sub", obj)
        await self.go(Edit, True, obj)

    def do_done(self):
        """
        "done"
        """
        self.add("done")
        self.exit_loop()

    def do_discard(self):
        """
        "discard"
        """
        self.add("discard")
        self.discarded = True
        self.exit_loop()

    async def on_exit(self):
        await asyncio.sleep(0)
        self.add("exit")
        if not self.discarded and self.obj in self.world.objs:
            self.world.objs[self.obj].update(self.pending)


# --------------------------------------------------------------------------
# the model

COMMON = [("macro", ("num",)), ("remote", ("num",)), ("load", ("num",)), ("show", ())]
FORMS = {
    "Top": COMMON + [("create", ("free",)), ("create", ("free", "=with", "free")), ("create", ("free", "=with", "free", "free")),
                     ("create", ("free", "=with", "free", "free", "free")), ("delete", ("obj",)), ("rename", ("obj", "=to", "free")),
                     ("tag", ("exact", "free")), ("untag", ("obj", "tag")), ("copy", ("obj", "tag", "=into", "obj")),
                     ("drop", ("obj", "tag")), ("drop", ("obj", "tag") * 2), ("drop", ("obj", "tag") * 3),
                     ("pair", ("=from", "obj", "=into", "exact")), ("pair", ("=into", "exact", "=from", "obj")), ("find", ("anytag",)),
                     ("edit", ("obj",)), ("only", ("obj",)), ("begin", ("obj", "num"))],
    "Edit": COMMON + [("tag", ("free",)), ("untag", ("owntag",)), ("rename", ("free",)), ("later", ("free",)), ("sub", ("obj",)),
                      ("done", ()), ("discard", ())],
}


class Ctx:

    def __init__(self, kind, obj, mp, parent):
        self.kind, self.obj, self.mp, self.parent = kind, obj, mp, parent
        self.pending, self.discarded, self.exit = [], False, False
        self.name = obj

    def depth(self):
        return 1 + (self.parent.depth() if self.parent else 0)

    @property
    def prompt(self):
        return "(%s)> " % self.name if self.parent else "top> "

    def where(self):
        return (self.kind, self.obj)


class Fallback(Exception):
    pass


class Done(Exception):
    pass


class Model:

    def __init__(self, rng, obs, n, world):
        self.rng, self.obs, self.n = rng, obs, n
        self.world = World()
        self.world.objs = {k: set(v) for k, v in world.objs.items()}
        self.ev = []
        self.steps = []         # (kind, keys, expectation, ...)
        self.macros, self.files = {}, {}
        self.frames = []        # the files being read: [lines, how many are to come]
        self.rejected = []
        self.other = Ctx("Top", None, False, None)

    # -- what a token can be -------------------------------------------------------
    def options(self, term, ctx, vals):
        o = self.world.objs
        if term in ("obj", "exact"):
            return set(o)
        if term == "tag":
            return set(o.get(vals[-1], ()))
        if term == "owntag":
            return set(o.get(ctx.obj, ()))
        if term == "anytag":
            return set(t for x in o.values() for t in x)
        return None

    def value(self, term, tok, ctx, vals):
        """the value of a token, or None"""
        if term[0] == "=":
            return term[1:] if term[1:].startswith(tok) else None
        if term == "free":
            return tok
        if term == "num":
            return int(tok) if tok.isdigit() and int(tok) < 1000 else None
        opts = self.options(term, ctx, vals)
        if tok in opts:
            return tok
        fits = [x for x in opts if x.startswith(tok)]
        return fits[0] if len(fits) == 1 and term != "exact" else None

    def parse(self, ctx, toks, part=False):
        """(command, values) of the line; with part: whether it could become one"""
        found = []
        for cmd, terms in FORMS[ctx.kind]:
            if not toks or cmd != toks[0] or not (len(terms) == len(toks) - 1 or part and len(terms) >= len(toks) - 1):
                continue
            vals = [cmd]
            for term, tok in zip(terms, toks[1:]):
                v = self.value(term, tok, ctx, vals)
                if v is None:
                    break
                vals.append(v)
            else:
                if part:
                    return True
                found.append((cmd, [v for v, t in zip(vals[1:], terms) if t[0] != "="], terms))
        if part:
            return False
        check(len(found) < 2, "harness: two readings", toks=toks)
        return found[0] if found else None

    # -- lines ----------------------------------------------------------------------
    def word(self, term, ctx, vals):
        rng = self.rng
        if term[0] == "=":
            return term[1:]
        if term == "num":
            return "0"
        if term == "free":
            return rng.choice(TAGS if rng.random() < 0.5 else NAMES)
        opts = sorted(self.options(term, ctx, vals))
        x = rng.random()
        if not opts or x < 0.12:
            # what is no longer, not yet or elsewhere there
            return rng.choice(NAMES if term in ("obj", "exact") else TAGS)
        w = rng.choice(opts)
        if x < 0.25 and term != "exact":
            w = w[:rng.randint(1, len(w))]
        return w

    def make(self, ctx, plain=False):
        rng = self.rng
        if rng.random() < 0.06:
            return rng.choice([["zzz"], ["create"], ["tag"], ["zzz", "a"], ["untag", "zz", "zz"], ["copy", "a"], ["drop"], ["done", "x"], ["show", "a"]])
        # forms differ in number only to say how often something repeats
        cmds = sorted(set(c for c, _ in FORMS[ctx.kind]) - ({"macro", "remote", "load", "edit", "only", "begin", "sub", "done", "discard"} if plain else set()))
        weights = [0.35 if c in ("macro", "remote", "load", "show", "done", "discard", "delete") else 2 if c == "create" and not self.world.objs else 1 for c in cmds]
        cmd = rng.choices(cmds, weights)[0]
        terms = rng.choice([t for c, t in FORMS[ctx.kind] if c == cmd])
        toks, vals = [cmd], [cmd]
        for t in terms:
            w = self.word(t, ctx, vals)
            toks.append(w)
            v = self.value(t, w, ctx, vals)
            vals.append(v if v is not None else w)
        return toks

    def reach(self, ctx):
        out = [ctx]
        while out[-1].mp and out[-1].parent:
            out.append(out[-1].parent)
        return out

    def pick(self, ctx):
        """a line whose treatment is specified"""
        for _ in range(60):
            toks = self.make(ctx if self.rng.random() < 0.6 else self.rng.choice(self.reach(ctx)))
            if self.specified(ctx, toks):
                return toks
        return ["show"]

    def specified(self, ctx, toks):
        above = self.reach(ctx)
        ok = [self.parse(c, toks) for c in above]
        if not any(ok) and any(self.parse(c, toks, True) for c in above[1:]):
            return False
        run = next((o for o in ok if o), None)
        if run and run[0] in ("edit", "only", "begin", "sub") and ctx.depth() > 5:
            return False
        return not (run and run[0] == "load" and len(self.frames) > 3)

    def happens(self):
        rng, o = self.rng, self.world.objs
        if not o or rng.random() < 0.4:
            what = ("add", rng.choice(NAMES), tuple(rng.sample(TAGS, rng.randint(0, 2))))
        elif rng.random() < 0.4:
            what = ("del", rng.choice(sorted(o)), ())
        else:
            what = ("tags", rng.choice(sorted(o)), tuple(rng.sample(TAGS, rng.randint(1, 3))))
        before = {k: set(v) for k, v in o.items()}
        change(self.world, what)
        return what, before

    # -- running -----------------------------------------------------------------------
    def session(self, top):
        try:
            self.loop(top)
        except Done:
            return

    def loop(self, ctx):
        try:
            while not ctx.exit:
                toks = self.next(ctx)
                child = self.line(ctx, toks) if toks else None
                while child:
                    try:
                        self.loop(child)
                        child = None
                    except Fallback as f:
                        child = self.line(ctx, f.args[0])
        finally:
            if ctx.parent:
                self.ev.append((ctx.where(), "exit"))
                if not ctx.discarded and ctx.obj in self.world.objs:
                    self.world.objs[ctx.obj].update(ctx.pending)

    def next(self, ctx):
        rng, obs = self.rng, self.obs
        while self.frames and self.frames[-1][1] <= 0:
            self.frames.pop()
        if self.frames:
            # the line comes from a file
            self.frames[-1][1] -= 1
            toks = self.fill(self.pick(ctx), ctx) if rng.random() < 0.9 else []
            obs.count["file_lines"] += 1
            self.frames[-1][0].append(" ".join(toks))
            if not toks:
                self.frames[-1][0][-1] = rng.choice(["", "# show"])
            return toks
        if self.n <= 0:
            self.steps.append(("end", [], ctx.prompt, self.world.image(), None, len(self.ev)))
            raise Done()
        self.n -= 1
        x = rng.random()
        if x < 0.05:
            self.typed(ctx, [rng.choice(["", " ", "# delete a", "#"])])
            return None
        if x < 0.3:
            self.tab(ctx)
            return None
        toks = self.fill(self.pick(ctx), ctx)
        if x < 0.4 and len(toks) > 1 and len(toks[-1]) > 1:
            # the last word is completed with TAB where that is certain
            got = self.parse(ctx, toks)
            if got and got[2][-1] in ("obj", "tag", "owntag", "anytag", "exact"):
                opts = self.options(got[2][-1], ctx, [toks[0]] + got[1])if got[2][-1] != "tag" else self.options("tag", ctx, got[1][:-1])
                for k in range(1, len(toks[-1])):
                    fits = [o for o in opts if o.startswith(toks[-1][:k])]
                    if fits == [toks[-1]] and not any(self.parse(c, toks[:-1] + [toks[-1][:k]], True) for c in self.reach(ctx)[1:]):
                        self.steps.append(("tabrun", list(" ".join(toks[:-1] + [toks[-1][:k]])), ctx.prompt, self.world.image(),
                                           " ".join(toks), len(self.ev)))
                        obs.count["completed_and_run"] += 1
                        return toks
        what, image = None, self.world.image()
        if rng.random() < 0.25:
            # while the line is being typed, the application changes
            what, before = self.happens()
            if not self.specified(ctx, toks):
                self.world.objs = before
                what = None
            else:
                obs.count["changed_while_typed"] += 1
        self.typed(ctx, toks, what, image)
        return toks

    def typed(self, ctx, toks, what=None, image=None):
        self.steps.append(("line", list(" ".join(toks)), ctx.prompt, self.world.image() if image is None else image, what, len(self.ev)))

    def fill(self, toks, ctx):
        """numbers of macros and files"""
        if len(toks) == 2 and toks[0] in ("macro", "remote"):
            k = len(self.macros)
            self.macros[k] = None
            return [toks[0], str(k)]
        if len(toks) == 3 and toks[0] == "begin":
            k = len(self.macros)
            self.macros[k] = None
            return toks[:2] + [str(k)]
        if len(toks) == 2 and toks[0] == "load":
            k = len(self.files)
            self.files[k] = []
            return [toks[0], str(k)]
        return toks

    def tab(self, ctx):
        """an unfinished line, TAB, and what is offered"""
        rng, obs = self.rng, self.obs
        if self.reach(ctx)[1:]:
            return self.typed(ctx, [])
        for _ in range(20):
            toks = self.make(ctx)
            if len(toks) < 2:
                continue
            n = rng.randint(1, len(toks) - 1)
            if not self.parse(ctx, toks[:n], True):
                continue
            terms = set(t[n - 1] for c, t in FORMS[ctx.kind] if c == toks[0] and len(t) >= n)
            vals = [toks[0]]
            form = next((t for c, t in FORMS[ctx.kind] if c == toks[0] and len(t) >= n and
                         all(x[0] != "=" or x[1:] == y for x, y in zip(t, toks[1:n]))), None)
            if form is None:
                continue
            terms = set(t[n - 1] for c, t in FORMS[ctx.kind] if c == toks[0] and len(t) >= n and t[:n - 1] == form[:n - 1])
            if len(terms) != 1 or form[n - 1][0] == "=" or form[n - 1] in ("free", "num"):
                continue
            for t, w in zip(form, toks[1:n]):
                v = self.value(t, w, ctx, vals)
                vals.append(v)
            if None in vals:
                continue
            if toks[0] == "drop" and n > 2 and form[n - 1] == "obj":
                continue        # may end there as well
            opts = self.options(form[n - 1], ctx, vals)
            part = toks[n][:rng.randint(0, len(toks[n]))]
            fits = set(o for o in opts if o.startswith(part))
            if part in fits:
                continue        # finished or not: see C08
            obs.count["tab_dozens"] += len(fits) > 20
            head = " ".join(toks[:n]) + " "
            everything = NAMES + ITEMS if form[n - 1] in ("obj", "exact") else TAGS + MARKS
            helps = {o: help_of(self.world, o) for o in fits} if form[n - 1] in ("obj", "exact") else {}
            image, what = self.world.image(), None
            if len(fits) != 1 and rng.random() < 0.5:
                # TAB again on the same line, when the application has changed
                what = self.happens()[0]
                vals = [toks[0]]
                for t, w in zip(form, toks[1:n]):
                    vals.append(self.value(t, w, ctx, vals))
                # what came before may be gone
                later = set() if None in vals else self.options(form[n - 1], ctx, vals)
                what = (what, later, {o: help_of(self.world, o) for o in later} if helps else {})
            self.steps.append(("tab", list(head + part), ctx.prompt, image, (head, part, fits, everything, helps), len(self.ev), what))
            obs.count["tab_none" if not fits else "tab_one" if len(fits) == 1 else "tab_many"] += 1
            return
        self.typed(ctx, [])

    def line(self, ctx, toks):
        got = self.parse(ctx, toks)
        self.obs.count["lines"] += 1
        if not got:
            above = self.reach(ctx)[1:]
            if any(self.parse(c, toks) for c in above):
                self.obs.count["fallback"] += 1
                raise Fallback(toks)
            self.rejected.append(" ".join(toks))
            self.obs.count["rejected"] += 1
            return None
        return self.execute(ctx, *got)

    def execute(self, ctx, cmd, vals, terms):
        o, obs = self.world.objs, self.obs
        w = ctx.where()
        obs.count["run_" + cmd] += 1
        if cmd in ("macro", "remote", "begin"):
            self.ev.append((w, cmd) + tuple(vals))
            at = self.other if cmd == "remote" else ctx
            lines = []
            child = Ctx("Edit", vals[0], True, ctx) if cmd == "begin" else None
            # a handler may enter a context and then run other lines: the last one entered reads the next line
            enter = at is ctx and ctx.depth() < 5 and self.rng.random() < 0.4
            for _ in range(self.rng.randint(1, 3)):
                for _ in range(30):
                    toks = self.make(at, plain=True)
                    if enter and self.rng.random() < 0.5:
                        cmd = self.rng.choice(["edit", "only"] if at.kind == "Top" else ["sub"])
                        toks = [cmd, self.word("obj", at, [cmd])]
                    if self.parse(at, toks) or not any(self.parse(c, toks, True) for c in self.reach(at)[1:]):
                        break
                else:
                    toks = ["show"]
                lines.append(" ".join(toks))
                got = self.parse(at, toks)
                obs.count["by_handlers"] += 1
                if got:
                    entered = self.execute(at, *got)
                    obs.count["entered_by_handlers"] += entered is not None
                    obs.count["lines_after_entering"] += child is not None
                    child = entered or child
                elif at is ctx:
                    obs.count["rejected_after_entering"] += child is not None
                    self.rejected.append(" ".join(toks))
                self.ev.append((ctx.where(), "rc", bool(got)))
            self.macros[vals[-1]] = lines
            return child
        if cmd == "load":
            self.ev.append((w, "load", vals[0]))
            self.frames.append([self.files[vals[0]], self.rng.randint(0, 5)])
            return None
        if cmd == "show":
            self.ev.append((w, "show", self.world.image()))
            return None
        if ctx.kind == "Top":
            if cmd == "create":
                self.ev.append((w, "create", vals[0], tuple(vals[1:])))
                o.setdefault(vals[0], set()).update(vals[1:])
            elif cmd == "pair":
                one, two = vals if terms[0] == "=from" else vals[::-1]
                self.ev.append((w, "pair", one, two))
                o[two] |= o[one]
            elif cmd == "find":
                self.ev.append((w, "find", vals[0], tuple(sorted(n for n, t in o.items() if vals[0] in t))))
            else:
                self.ev.append((w, cmd) + tuple(vals))
                if cmd == "delete":
                    del o[vals[0]]
                elif cmd == "rename":
                    o[vals[1]] = o.pop(vals[0])
                elif cmd == "tag":
                    o[vals[0]].add(vals[1])
                elif cmd == "untag":
                    o[vals[0]].remove(vals[1])
                elif cmd == "copy":
                    o[vals[2]].add(vals[1])
                elif cmd == "drop":
                    for n, t in zip(vals[::2], vals[1::2]):
                        o[n].discard(t)
                elif cmd in ("edit", "only"):
                    return Ctx("Edit", vals[0], cmd == "edit", ctx)
            return None
        self.ev.append((w, cmd) + tuple(vals))
        if cmd == "tag":
            if ctx.obj in o:
                o[ctx.obj].add(vals[0])
        elif cmd == "untag":
            o[ctx.obj].remove(vals[0])
        elif cmd == "rename":
            if ctx.obj in o:
                o[vals[0]] = o.pop(ctx.obj)
                ctx.obj = vals[0]
        elif cmd == "later":
            ctx.pending.append(vals[0])
        elif cmd == "sub":
            return Ctx("Edit", vals[0], True, ctx)
        elif cmd == "done":
            ctx.exit = True
        elif cmd == "discard":
            ctx.exit = ctx.discarded = True
        return None


class Shared:
    pass


def run_case(rng, idx, obs):
    world = World()
    if rng.random() < 0.3:
        # more than fit on a screen
        for i in range(rng.choice([22, 40, 60])):
            world.objs[ITEMS[i]] = set(rng.sample(TAGS, rng.randint(0, 2)))
        world.objs[rng.choice(["a", "b", "item_00"])] = set(MARKS[:rng.choice([21, 35, 60])])
    sh = Shared()
    other = None
    for sess in range(rng.choice([1, 1, 2, 3])):
        model = Model(rng, obs, rng.randint(20, 60), world)
        top = Ctx("Top", None, False, None)
        model.session(top)
        sh.log, sh.macros = [], model.macros
        tmp = tempfile.TemporaryDirectory()
        sh.dir = tmp.name
        for k, lines in model.files.items():
            with open(os.path.join(sh.dir, "f%d" % k), "w") as f:
                f.write("".join(l + "\n" for l in lines))
        kw = lambda: dict(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=io.StringIO(), disable_default_hooks=True, str_cache_size=rng.choice([0, 1, 128]))
        if other is None or rng.random() < 0.5:
            other = Top(prompt="other> ", **kw())
            other.world, other.sh = world, sh
        c = Top(prompt="top> ", **kw())
        c.world, c.sh, sh.other = world, sh, other
        brief = [(k, "".join(keys)) for k, keys, *_ in model.steps]
        feed = c.stdin

        def at(i):
            kind, keys, prompt, image, more, n, *again = model.steps[i]

            def f(fd, rl):
                obs.ev()
                here = dict(script=brief[max(0, i - 8):i], err=c.stderr.getvalue()[-300:])
                if sh.log[:n] != model.ev[:n] or len(sh.log) != n:
                    k = next((j for j, (a, b) in enumerate(zip(sh.log, model.ev)) if a != b), min(len(sh.log), n))
                    check(False, "other commands ran", got=sh.log[k:k + 3], want=model.ev[k:min(n, k + 3)], **here)
                check(world.image() == image, "the application is in another state", got=world.image(), want=image, **here)
                shown = c.stdout.getvalue()[-200:].rstrip("\a")
                check(shown.endswith(prompt), "another context reads the line", prompt=prompt, shown=shown[-60:], **here)
                if kind == "end":
                    return None
                c.stdout.seek(0), c.stdout.truncate()
                if kind == "line":
                    return keys[:len(keys) // 2] if more else keys + ["\r"]
                return keys + [rlkey.TAB] * 3
            out = [f]
            if kind == "line" and more:
                def g(fd, rl):
                    change(world, more)
                    return keys[len(keys) // 2:] + ["\r"]
                out.append(g)
            if kind == "tabrun":
                def g(fd, rl):
                    b = rl.get_line_buffer()
                    check(b.rstrip() == more, "TAB completed something else", buffer=b, want=more, typed="".join(keys), image=image,
                          script=brief[max(0, i - 8):i])
                    return ["\r"]
                out.append(g)
            elif kind == "tab":
                def g(fd, rl):
                    offered(rl.get_line_buffer(), c.stdout.getvalue(), more, obs, dict(image=image, script=brief[max(0, i - 8):i]))
                    if not again[0]:
                        return [rlkey.CTRL_C]
                    change(world, again[0][0])
                    c.stdout.seek(0), c.stdout.truncate()
                    out.append(rl.get_line_buffer())
                    return [rlkey.TAB] * 3

                def h(fd, rl):
                    what, later, helps = again[0]
                    part = out[-1][len(more[0]):]
                    if part not in later and out[-1].startswith(more[0]):
                        fits = set(o for o in later if o.startswith(part))
                        offered(rl.get_line_buffer(), c.stdout.getvalue(), (more[0], part, fits, more[3], {o: helps[o] for o in fits if o in helps}), obs,
                                dict(image=world.image(), before=image, change=what, script=brief[max(0, i - 8):i]))
                        obs.count["tab_again"] += 1
                    return [rlkey.CTRL_C]
                out.append(g)
                if again[0]:
                    out.append(h)
            return out
        for i in range(len(model.steps)):
            feed.steps.extend(at(i))
        tries = []

        def on_end(fd, rl):
            tries.append(1)
            check(len(tries) < 3, "the contexts are not left")
            for x in vlib.stack(c):
                x.exit_loop()
            return ["\r"]
        feed.on_end = on_end
        vlib.run(c.cmdloop())
        check(not feed.steps, "the session ended before its script", left=len(feed.steps), script=brief[-8:])
        check(sh.log == model.ev, "other commands ran at the end", got=sh.log[-6:], want=model.ev[-6:], script=brief[-8:])
        check(world.image() == model.world.image(), "the application ends in another state", got=world.image(), want=model.world.image(), script=brief[-8:])
        check(c.stderr.getvalue().count("Result:") == len(model.rejected), "other lines were rejected", got=c.stderr.getvalue()[-400:],
              want=model.rejected, files=model.files, macros=model.macros, script=brief)
        obs.seen(tuple(brief))
        tmp.cleanup()
        obs.count["sessions"] += 1
        obs.count["objects"] += len(world.objs)
    obs.sample({"script": brief[:12], "log": [str(e) for e in sh.log[:8]]})


def offered(buf, txt, more, obs, here):
    head, part, fits, everything, helps = more
    here = dict(here, typed=head + part, buffer=buf)
    if len(fits) == 0:
        check(buf == head + part, "TAB changed the line although nothing fits", **here)
    elif len(fits) == 1:
        check((buf + " ").startswith(head + list(fits)[0] + " "), "TAB did not complete the only possible name", fits=fits, **here)
        return
    else:
        check(buf in (head + prefix_of(fits), head + part if not part else None), "TAB did not complete the common part", fits=fits, **here)
    rows = {}
    for row in txt.replace("\r\n", "\n").split("\n"):
        left, sep, right = row.partition(" :    ")
        if sep:
            rows[left.strip()] = right.strip()
    for o in everything:
        if o in fits:
            check(o in rows, "a possible name is not shown", name=o, rows=rows, **here)
            if o in helps:
                check(rows[o] == helps[o], "another help text is shown", name=o, row=rows[o], want=helps[o], **here)
                obs.count["helps"] += 1
        else:
            check(o not in rows, "a name is shown which cannot be there", name=o, rows=rows, **here)
    obs.count["shown"] += 1
