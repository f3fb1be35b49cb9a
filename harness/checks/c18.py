"""C18: nested contexts stack up, fall back once, and are left exactly once."""
import asyncio
import io

import vlib
from vlib import check, NessaidCmd
from vlib import rlkey
import c16

PID = "C18"
CASES = {"quick": 900, "thorough": 25000}
RULE = ("random families of three to five command classes with overlapping, longer, shorter and ambiguous commands which enter each other "
        "(own commands only, or with the parent's), from lines, from fallback lines, after the intro, and while leaving; typed sessions of "
        "15-45 inputs with good, wrong, incomplete, blank and illegal lines, TABs, Ctrl-C, Ctrl-D, hooks that fail, several levels left at "
        "once, sessions cancelled at a prompt or in a handler, handlers which run lines before and after entering, and second sessions; one event log of handlers, hooks, prompts and reports against a context stack model; non-trivial = "
        "distinct scripts")
REQUIRED = {"real_run": 63, "signals": 79, "given_up": 40, "given_up_inside": 35, "lines": 5300, "entered": 1900,
            "deep": 820, "fallback": 180, "fallback_far": 29, "fallback_partial": 32, "stayed": 1100, "rejected": 1100,
            "hook_failed": 330, "left_many": 110, "jump": 120, "after_intro": 410, "completed": 670,
            "again_entered": 1100, "by_handlers": 940, "rejected_by_handlers": 340, "rejected_after_entering": 160,
            "second_session": 40, "bell": 310, "ambiguous": 220, "ambiguous_below": 48, "kept_incomplete": 98,
            "looked_up": 410}
ASSUMPTIONS = ["lines no context can run but which are incomplete in an enclosing one are not entered",
               "of several contexts entered by a command the last one counts", "contexts are entered with enter_context, each time with a new object"]


class ETap(c16.ErrTap):
    KINDS = c16.ErrTap.KINDS + (("Exception parsing input line:", "broken"), ("Exception running context:", "broken"))

    def write(self, s):
        n = len(self.log)
        r = super().write(s)
        self.log[n:] = [e for e in self.log[n:] if not (e[0] == "err" and e[1] == "other" and e[2].startswith("  "))]
        return r


class OTap(io.StringIO):
    """the output stream; the bell for a rejected line is an event"""

    log = None
    armed = False

    def write(self, s):
        if self.armed and "\a" in s:
            self.log.append(("bell",))
        return super().write(s)


class Shared:
    """what all the contexts of a session have in common"""

    def __init__(self):
        self.log = []
        self.ids = 0


class Base(NessaidCmd):

    spec = None
    sh = None

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)

    def add(self, *ev):
        self.sh.log.append((self.id,) + ev)

    async def go(self, target, flags):
        cls = self.sh.classes[target]
        self.sh.ids += 1
        ident = self.sh.ids
        await self.enter_context(cls, prompt="%s#%d> " % (target, ident), match_parent_grammar=flags[0], **flags[1])
        child = self.child_cli
        child.sh, child.id, child.n = self.sh, ident, 0

    async def preloop(self):
        self.add("pre")
        if self.spec["crash"] == "pre":
            raise RuntimeError("preloop")

    async def postintro(self):
        if self.spec["post"]:
            self.add("post")
            await self.go(*self.spec["post"])

    async def on_exit(self):
        self.add("exit")
        await asyncio.sleep(0)
        if self.spec["crash"] == "exit":
            raise RuntimeError("on_exit")

    async def handle_keyboard_interrupt(self):
        self.add("int")
        if self.spec["int"] == "leave":
            self.exit_loop()

    async def handle_eof(self):
        self.add("eof")
        if self.spec["crash"] == "eof":
            raise RuntimeError("eof")
        if self.spec["eof"] == "leave":
            self.exit_loop()

    async def do_hang(self):
        """
        "hang"
        """
        self.n += 1
        self.add("hang", self.n)
        if self.sh.hang == "input":
            await self.input("? ")
        else:
            self.sh.give_up()
            await asyncio.sleep(1000)
        self.add("went on")

    async def act(self, cmd, v):
        kind = cmd["kind"]
        self.n += 1
        self.add(cmd["name"], v, self.n)
        if kind in ("enter", "jump"):
            if kind == "jump":
                self.exit_loop()
            await self.go(*cmd["to"])
        elif kind == "bye":
            self.exit_loop()
        elif kind == "up2":
            self.exit_loop()
            if self.parent:
                self.parent.exit_loop()
        elif kind == "out":
            for c in vlib.stack(self):
                c.exit_loop()
        elif kind == "boom":
            raise ValueError("boom")
        elif kind == "macro":
            to, lines = self.sh.macros[v]
            if to:
                await self.go(*to)
            for l in lines:
                self.add("rc", await self.exec_line(l) == 0)


def handler(cmd):
    words = " ".join("S << $v = $%d; >>" % (i + 1) if w is None else '"%s"' % w for i, w in enumerate(cmd["form"]))

    async def h(self, v):
        await self.act(cmd, v)
    h.__doc__ = words
    h.__name__ = "do_" + cmd["name"]
    return h


POOL = [("top",), ("top", "tail"), ("top", "tail", "end"), ("mid",), ("mid", "one"), ("mid", "two"), ("get", None), ("get", None, "now"),
        ("put", None), ("list", "all"), ("list",), ("solo", "run", "fast")]


def gen_classes(rng, obs):
    names = ["k%d" % i for i in range(rng.randint(3, 5))]
    specs = {}
    for n in names:
        crash = rng.choice(["", "", "", "", "pre", "exit", "eof"]) if n != names[0] else ""
        specs[n] = {"name": n, "crash": crash, "post": None, "int": rng.choice(["", "", "leave"]) if n != names[0] else "",
                    "eof": rng.choice(["", "leave", "leave"]), "cmds": []}
    for n in names:
        cmds = specs[n]["cmds"]
        cmds.append({"name": "only_" + n, "form": ("only_" + n,), "kind": "ev"})
        cmds.append({"name": "bye", "form": ("bye",), "kind": "bye"})
        for f in rng.sample(POOL, rng.randint(2, 6)):
            cmds.append({"name": "ev" + "_".join(w or "S" for w in f), "form": f, "kind": rng.choice(["ev", "ev", "ev", "boom"])})
        if rng.random() < 0.3:
            # the same command twice
            f = rng.choice([c for c in cmds[1:] if c["kind"] in ("ev", "boom")])
            cmds.append(dict(f, name=f["name"] + "_again"))
        for t in names:
            if rng.random() < 0.6:
                # a context which fails when it is left keeps its lines
                mp = rng.random() < 0.65 and specs[t]["crash"] != "exit"
                extra = rng.choice([{}, {}, {"enable_bell": True}, {"use_base_grammar": False}])
                kind = "enter" if rng.random() < 0.8 or n == names[0] else "jump"
                cmds.append({"name": "to_" + t, "form": ("enter", t), "kind": kind, "to": (t, (mp, extra))})
        cmds.append({"name": "macro", "form": ("macro", None), "kind": "macro"})
        if rng.random() < 0.3:
            cmds.append({"name": "up2", "form": ("up2",), "kind": "up2"})
        if rng.random() < 0.3:
            cmds.append({"name": "out", "form": ("out",), "kind": "out"})
    # contexts entered right after the intro, without cycles
    for i, n in enumerate(names):
        ts = names[i + 1:]
        if ts and rng.random() < 0.25:
            t = rng.choice(ts)
            specs[n]["post"] = (t, (rng.random() < 0.7 and specs[t]["crash"] != "exit", {}))
    return names, specs


class Fallback(Exception):
    pass


class Crash(Exception):
    pass


class Done(Exception):
    pass


class Ctx:

    def __init__(self, spec, ident, mp, parent, bell=False):
        self.spec, self.id, self.mp, self.parent = spec, ident, mp, parent
        self.bell = bell
        self.exit = False
        self.n = 0

    def depth(self):
        return 1 + (self.parent.depth() if self.parent else 0)

    @property
    def prompt(self):
        return "%s#%d> " % (self.spec["name"], self.id)

    def full(self, toks):
        return [c for c in self.spec["cmds"] if len(c["form"]) == len(toks) and all(w is None or w == t for w, t in zip(c["form"], toks))]

    def viable(self, toks):
        return any(len(c["form"]) >= len(toks) and all(w is None or w == t for w, t in zip(c["form"], toks)) for c in self.spec["cmds"])


class Sim:

    def __init__(self, rng, obs, names, specs, nsteps):
        self.rng, self.obs, self.names, self.specs = rng, obs, names, specs
        self.ids = 0
        self.ev = []
        self.steps = []         # (keys, prompt, kind)
        self.nsteps = nsteps
        self.seen = set()
        self.given_up = None
        self.macros = {}
        self.nmacros = 0

    # -- generation ------------------------------------------------------------
    def gen(self, ctx):
        rng = self.rng
        for _ in range(50):
            x = rng.random()
            stack = []
            c = ctx
            while c:
                stack.append(c)
                c = c.parent
            if x < 0.08:
                return "blank", rng.choice(["", "  ", "# get x", " #"])
            if x < 0.12:
                return "illegal", "get \\z"
            if x < 0.17:
                return "int", ""
            if x < 0.21:
                return "eof", ""
            if x < 0.29:
                return "tab", "only_"
            if x < 0.34:
                return "look", self.line(rng.choice(stack))
            if x < 0.42:
                return "line", rng.choice(["zz1", "zz1 top", "top zz1", "enter", "get", "top tail end zz1", "enter zz1"])
            if x < 0.75:
                return "line", self.line(ctx)
            if x < 0.96:
                return "line", self.line(rng.choice(stack))
            return "line", self.line(Ctx(self.specs[rng.choice(self.names)], 0, False, None))
        raise vlib.Inconclusive("no line")

    def line(self, ctx):
        cmds = ctx.spec["cmds"]
        c = self.rng.choice(cmds)
        if c["kind"] in ("bye", "out", "up2") and self.rng.random() < 0.5:
            c = self.rng.choice(cmds)
        if c["kind"] == "macro":
            self.nmacros += 1
            return "macro m%d" % self.nmacros
        return " ".join(w if w else self.rng.choice(["x", "y2", "zed", "41"]) for w in c["form"])

    def unspecified(self, ctx, toks):
        """nobody in reach runs it, but it is incomplete somewhere above"""
        c, above = ctx, []
        while c.mp and c.parent:
            c = c.parent
            above.append(c)
        if ctx.full(toks) or any(len(a.full(toks)) for a in above):
            # ambiguous above: not run either
            for a in [ctx] + above:
                f = a.full(toks)
                if len(f) == 1:
                    return False
            return any(a.full(toks) for a in above)
        return not ctx.viable(toks) and any(a.viable(toks) for a in above)

    # -- the model ------------------------------------------------------------
    def session(self, top):
        try:
            self.loop(top)
        except Crash:
            return "crash"

    def next(self, ctx):
        if self.nsteps <= 0:
            if self.rng.random() < 0.25:
                c = ctx
                while c.parent and c.spec["crash"] != "exit":
                    c = c.parent
                if c.spec["crash"] != "exit":
                    self.given_up = self.rng.choice(["prompt", "typing", "handler", "input"])
                    if self.given_up in ("handler", "input"):
                        self.ev.append((ctx.id, "hang", self.bump(ctx)))
                    self.obs.count["given_up"] += 1
                    self.obs.count["given_up_inside"] += ctx.parent is not None
            raise Done()
        self.nsteps -= 1
        rng = self.rng
        while True:
            kind, text = self.gen(ctx)
            if kind in ("line", "look"):
                toks = text.split()
                if kind == "line":
                    if self.unspecified(ctx, toks):
                        continue
                    if ctx.depth() > 9 and toks[0] == "enter":
                        continue
            if kind in ("int", "eof") and ctx.parent is None and ctx.spec[kind] == "leave":
                if rng.random() < 0.8:
                    continue
            if kind == "eof" and ctx.parent is None and ctx.spec["crash"] == "eof":
                continue
            break
        self.steps.append((kind, text, ctx.prompt, ctx.spec["name"]))
        return kind, text

    def loop(self, ctx):
        e = self.ev
        e.append((ctx.id, "pre"))
        obs = self.obs
        if ctx.spec["name"] in self.seen and ctx.parent:
            obs.count["again_entered"] += 1
        self.seen.add(ctx.spec["name"])
        if ctx.depth() > 3:
            obs.count["deep"] += 1
        try:
            if ctx.spec["crash"] == "pre":
                obs.count["hook_failed"] += 1
                raise Crash()
            if ctx.spec["post"]:
                e.append((ctx.id, "post"))
                obs.count["after_intro"] += 1
                child = self.enter(ctx, ctx.spec["post"])
                self.children(ctx, child)
            while not ctx.exit:
                kind, text = self.next(ctx)
                try:
                    if kind == "int":
                        e.append((ctx.id, "int"))
                        if ctx.spec["int"] == "leave":
                            ctx.exit = True
                    elif kind == "eof":
                        e.append((ctx.id, "eof"))
                        if ctx.spec["crash"] == "eof":
                            obs.count["hook_failed"] += 1
                            raise Crash()
                        if ctx.spec["eof"] == "leave":
                            ctx.exit = True
                    elif kind == "illegal":
                        e.append(("err", "illegal"))
                    elif kind == "tab":
                        e.append((ctx.id, "only_" + ctx.spec["name"], "", self.bump(ctx)))
                        obs.count["completed"] += 1
                    elif kind == "look":
                        # given up with Ctrl-C
                        obs.count["looked_up"] += 1
                        e.append((ctx.id, "int"))
                        if ctx.spec["int"] == "leave":
                            ctx.exit = True
                    elif kind == "line":
                        obs.count["lines"] += 1
                        child = self.run_line(ctx, text.split())
                        self.children(ctx, child)
                except Done:
                    raise
        except Done:
            # everything is left
            ctx.exit = True
            e.append((ctx.id, "exit"))
            if ctx.spec["crash"] == "exit":
                e.append(("err", "broken"))
            raise
        except (Fallback, Crash):
            e.append((ctx.id, "exit"))
            raise
        else:
            e.append((ctx.id, "exit"))
            if ctx.spec["crash"] == "exit":
                obs.count["hook_failed"] += 1
                raise Crash()

    def macro(self, ctx, key):
        """lines run by a handler, which may enter a context before"""
        rng, obs = self.rng, self.obs
        targets = [c["to"] for c in ctx.spec["cmds"] if c["kind"] == "enter"] if ctx.depth() < 8 else []
        to = rng.choice(targets) if targets and rng.random() < 0.5 else None
        child = self.enter(ctx, to) if to else None
        lines = []
        above = []
        while (above[-1] if above else ctx).mp:
            above.append((above[-1] if above else ctx).parent)
        for _ in range(rng.randint(1, 3)):
            for _ in range(20):
                line = self.line(ctx) if rng.random() < 0.6 else rng.choice(["zz1", "zz1 top", "top zz1", "get", "top tail end zz1", "list", "mid"])
                toks = line.split()
                full = ctx.full(toks)
                # what the line would mean in an enclosing context is left open
                if toks[0] != "macro" and (len(full) == 1 or not full and not any(a.viable(toks) for a in above)) and \
                        not (toks[0] == "enter" and not targets):
                    break
            else:
                continue
            lines.append(line)
            obs.count["by_handlers"] += 1
            if len(full) == 1:
                child = self.run_line(ctx, toks) or child
            else:
                obs.count["rejected_by_handlers"] += 1
                obs.count["rejected_after_entering"] += child is not None
                self.ev.append(("err", "result"))
                if ctx.bell:
                    self.ev.append(("bell",))
            self.ev.append((ctx.id, "rc", len(full) == 1))
        self.macros[key] = (to, lines)
        return child

    def bump(self, ctx):
        ctx.n += 1
        return ctx.n

    def enter(self, ctx, to):
        self.ids += 1
        self.obs.count["entered"] += 1
        return Ctx(self.specs[to[0]], self.ids, to[1][0], ctx, to[1][1].get("enable_bell", False))

    def children(self, ctx, child):
        while child:
            try:
                self.loop(child)
                child = None
            except Crash:
                self.ev.append(("err", "broken"))
                child = None
            except Fallback as f:
                child = self.run_line(ctx, f.args[0])

    def run_line(self, ctx, toks):
        """returns the context entered, if any"""
        full = ctx.full(toks)
        obs = self.obs
        if len(full) == 1:
            c = full[0]
            if ctx.mp:
                p = ctx.parent
                if p.full(toks):
                    obs.count["stayed"] += 1
            ctx.n += 1
            self.ev.append((ctx.id, c["name"], "".join(t for w, t in zip(c["form"], toks) if w is None), ctx.n))
            k = c["kind"]
            if k == "macro":
                return self.macro(ctx, toks[1])
            if k == "boom":
                self.ev.append(("err", "raised"))
            elif k == "bye":
                ctx.exit = True
            elif k == "up2":
                ctx.exit = True
                if ctx.parent:
                    ctx.parent.exit = True
                    obs.count["left_many"] += 1
            elif k == "out":
                obs.count["left_many"] += 1
                p = ctx
                while p:
                    p.exit = True
                    p = p.parent
            elif k in ("enter", "jump"):
                if k == "jump":
                    obs.count["jump"] += 1
                    ctx.exit = True
                return self.enter(ctx, c["to"])
            return None
        if len(full) > 1:
            obs.count["ambiguous"] += 1
            obs.count["ambiguous_below"] += ctx.mp
        c, n = ctx, 0
        while c.mp and c.parent:
            c = c.parent
            n += 1
            if len(c.full(toks)) == 1:
                obs.count["fallback"] += 1
                if n > 1:
                    obs.count["fallback_far"] += 1
                if ctx.viable(toks):
                    obs.count["fallback_partial"] += 1
                raise Fallback(toks)
        obs.count["rejected"] += 1
        if ctx.mp and ctx.viable(toks):
            obs.count["kept_incomplete"] += 1
        self.ev.append(("err", "result"))
        if ctx.bell:
            obs.count["bell"] += 1
            self.ev.append(("bell",))
        return None


def run_case(rng, idx, obs):
    names, specs = gen_classes(rng, obs)
    sh = Shared()
    sh.classes = {}
    for n in names:
        d = {"spec": specs[n], "__doc__": "\n    token S StringToken();\n"}
        for c in specs[n]["cmds"]:
            d["do_" + c["name"]] = handler(c)
        sh.classes[n] = type("C" + n, (Base,), d)
    log = sh.log
    out = OTap()
    out.log = log
    bell = rng.random() < 0.5
    top = sh.classes[names[0]](loop=vlib.loop(), prompt=names[0] + "#0> ", stdin=vlib.KeyFeed(), stdout=out, stderr=ETap(log),
                               enable_bell=bell, disable_default_hooks=True)
    top.readline._bell_silence_time = -1e18     # every bell is heard
    top.sh, top.id, top.n = sh, 0, 0
    n0 = 0
    for sess in range(rng.choice([1, 1, 1, 2])):
        del log[:]
        obs.ev()
        sim = Sim(rng, obs, names, specs, rng.randint(15, 45))
        sim.ids = sh.ids
        t = Ctx(specs[names[0]], 0, False, None, bell)
        t.n = top.n
        ended = True
        try:
            sim.session(t)
        except Done:
            ended = False
        want = sim.ev
        sh.macros = sim.macros
        feed = top.stdin
        feed.steps.clear()

        real = not sim.given_up and rng.random() < 0.15
        sh.hang = sim.given_up
        sh.give_up = lambda: top.loop.call_soon(task.cancel)

        def interrupt():
            obs.count["signals"] += 1
            raise KeyboardInterrupt

        def step(kind, text, prompt, cname):
            def at_prompt(feed, rl):
                shown = out.getvalue()[-200:].rstrip("\a")
                if real and rng.random() < 0.08:
                    # an interrupt from outside
                    top.loop.call_soon(interrupt)
                out.armed = kind == "line"
                check(shown.endswith(prompt), "another context reads the line", prompt=prompt, shown=shown[-60:], script=brief(sim.steps))
                if kind == "int":
                    return [rlkey.CTRL_C]
                if kind == "eof":
                    return [rlkey.CTRL_D]
                if kind == "tab":
                    return list(text) + [rlkey.TAB] * 3
                if kind == "look":
                    return list(text) + [rlkey.TAB, rlkey.TAB, rlkey.CTRL_C]
                return list(text) + ["\r"]
            res = [at_prompt]
            if kind == "tab":
                def completed(feed, rl):
                    b = rl.get_line_buffer()
                    check(b.strip() == "only_" + cname, "TAB completed the commands of another context", buffer=b, context=cname)
                    return ["\r"]
                res.append(completed)
            return res
        for s in sim.steps:
            feed.steps.extend(step(*s))
        tries = []

        def on_end(fd, rl):
            tries.append(1)
            check(len(tries) < 3, "the contexts are not left")
            if sim.given_up:
                if sim.given_up == "handler":
                    return list("hang") + ["\r"]
                if sim.given_up == "input" and len(tries) == 1:
                    return list("hang") + ["\r"]
                sh.give_up()
                return list("only_") if sim.given_up == "typing" else [rlkey.BACKSPACE]
            for c in vlib.stack(top):
                c.exit_loop()
            return ["\r"]
        feed.on_end = on_end
        if real:
            obs.count["real_run"] += 1
            top.run()
            vlib.run(asyncio.sleep(0))
        else:
            task = top.loop.create_task(top.cmdloop())
            try:
                vlib.run(task)
            except asyncio.CancelledError:
                check(sim.given_up, "the session was cancelled")
            else:
                check(not sim.given_up, "the session went on although it was cancelled", at=sim.given_up, script=brief(sim.steps))
        check(not vlib.stack(top) and not top.running, "contexts are left over", stack=[type(c).__name__ for c in vlib.stack(top)])
        obs.seen(tuple(sim.steps))
        if log != want:
            k = next((i for i, (a, b) in enumerate(zip(log, want)) if a != b), min(len(log), len(want)))
            check(False, "the contexts behaved otherwise", at=k, before=want[max(0, k - 4):k], got=log[k:k + 4], want=want[k:k + 4],
                  script=brief(sim.steps), err=top.stderr.getvalue()[-400:])
        check(len(tries) == (0 if ended else 2 if sim.given_up == "input" else 1), "the session ended at another place", script=brief(sim.steps))
        check(not feed.steps, "lines are left over", left=len(feed.steps))
        if sess:
            obs.count["second_session"] += 1
        if ended:
            break
    obs.sample({"script": brief(sim.steps)[:12], "log": [str(e) for e in log[:12]]})


def brief(steps):
    return ["%s %s%s" % (p, "" if k == "line" else k + ":", t) for k, t, p, _ in steps]
