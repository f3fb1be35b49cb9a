"""C25: nothing accumulates while a session goes on."""
import asyncio
import fnmatch
import gc
import io
import os
import re
import shutil
import sys
import tempfile
import warnings

import vlib
from vlib import check, NessaidCmd, NessaidCli, CliToken, rlkey

PID = "C25"
CASES = {"quick": 130, "thorough": 2500}
RULE = ("hundreds to thousands of rounds of one to three randomly chosen operations with ever new values in one object (lines executed, matched, "
        "looked up, given as arguments, typed with TABs, corrections, interrupts, script files, input requests, contexts entered and left, "
        "failing handlers and token classes), and series of objects made, used and dropped; the memory blocks in use after a warm-up are "
        "compared along the series, and tasks, open descriptors, warnings and unretrieved exceptions are watched; non-trivial = distinct "
        "sets of operations")
REQUIRED = {"rounds": 35000, "samples": 830, "lines": 48000, "typed": 15000, "objects": 170, "contexts": 400,
            "files": 600, "tabs": 8000, "failing": 3000}
ASSUMPTIONS = ["caches of the standard library (re, fnmatch) are emptied before each measurement",
               "growth below the size of the documented caches is not told from their filling"]


class Sink(io.TextIOBase):
    """An output stream which keeps nothing"""

    def write(self, s):
        return len(s)

    def flush(self):
        pass


class Vol(CliToken):
    """A token class of the user: any word starting with v, its value a new list"""

    async def match(self, token_input, cli):
        if token_input[:1] == "v":
            return vlib.toks.MATCH_SUCCESS
        if token_input[:1] == "e":
            raise ValueError(token_input)
        return vlib.toks.MATCH_FAILURE

    async def get_value(self, match_string=None, cli=None):
        await asyncio.sleep(0)
        return [match_string, len(match_string)]


DECL = r"""
token S StringToken();
token I RangedIntToken(0, 1000000000);
token D RangedDecimalToken(0, 1000000000);
token P PathToken();
token K AlternativeStringsToken("aa", "ab", "bc");
"""

TEXT = DECL + r"""
sub[$x]: S << $x = $1; >>;
top: "one" S << call _one($2); >>
   | "num" I << call _one($2); >>
   | "dec" D << call _aone($2); >>
   | "sub" sub[$p] << call _one($p); >>
   | << $l = list(); >> "many" ((S << append($l, $1); >>) * (1:4)) << call _one($l); >>
   | "both" S S << call _one($2); >>
   | "both" S I << call _one($3); >>
   | {"opt" | "opt2" S} "set" ((K) * (1:2))
   | "boom" S << call _boom($2); >>
   | "crash" S << call _crash($2); >>
   | "path" P S
   | "run" S << call _run($2); >>
   | "ask" << call _ask(); >>
   | "bye" << call _bye(); >>
   | "pick" S K << call _one($2); >>
   | "amb" S ("xa" | "xb") << call _one($2); >>
   | "twin" S S << call _one($2); >>
   | "twin" S S << call _one($3); >>
   ;
"""


class Acts:

    def init(self, d, rng):
        self.dir, self.kept = d, 0

    def _one(self, v):
        self.kept += 1

    async def _aone(self, v):
        await asyncio.sleep(1)
        self.kept += 1

    def _boom(self, v):
        raise ValueError(v)

    async def _crash(self, v):
        await asyncio.sleep(0)
        raise KeyError(v)

    def _run(self, name):
        self.add_file_to_execute(os.path.join(self.dir, name))

    async def _ask(self):
        self.kept += len(await self.input("? ", bool(self.kept % 2)))

    def _bye(self):
        self.exit_loop()

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)


class LCli(Acts, NessaidCli):
    pass


class LCmd(Acts, NessaidCmd):
    __doc__ = DECL.replace("token K", "token V Vol();\n    token K").replace("\n", "\n    ")

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS) + [Vol]

    def do_one(self, v):
        r""" "one" S << $v = $2; >> """
        return self._one(v)

    def do_num(self, v):
        r""" "num" I << $v = $2; >> """
        return self._one(v)

    async def do_dec(self, v):
        r""" "dec" D << $v = $2; >> """
        await self._aone(v)

    def do_vol(self, v):
        r""" "vol" V << $v = $2; >> """
        return self._one(v)

    def do_many(self, l):
        r""" << $l = list(); >> "many" ((S << append($l, $1); >>) * (1:4)) """
        return self._one(l)

    def do_both(self, v):
        r""" "both" S (S << $v = $1; >> | I << $v = $1; >>) """
        return self._one(v)

    def do_boom(self, v):
        r""" "boom" S << $v = $2; >> """
        return self._boom(v)

    async def do_crash(self, v):
        r""" "crash" S << $v = $2; >> """
        await self._crash(v)

    def do_path(self, p):
        r""" "path" P << $p = $2; >> S """
        return self._one(p)

    def do_run(self, v):
        r""" "run" S << $v = $2; >> """
        return self._run(v)

    async def do_ask(self):
        r""" "ask" """
        await self._ask()

    async def do_enter(self, v):
        r""" "enter" S << $v = $2; >> """
        await self.enter_context(LCmd, prompt=v, match_parent_grammar=self.through)
        self.child_cli.init(self.dir, None)
        self.child_cli.through = self.through

    def do_pick(self, v):
        r""" "pick" S << $v = $2; >> K """
        return self._one(v)

    def do_amb(self, v):
        r""" "amb" S << $v = $2; >> ("xa" | "xb") """
        return self._one(v)

    def do_twin(self, v):
        r""" "twin" S S << $v = $2; >> """
        return self._one(v)

    def do_twin2(self, v):
        r""" "twin" S S << $v = $3; >> """
        return self._one(v)

    def do_bye(self):
        r""" "bye" """
        return self._bye()

    through = False


# operations on one line, %d is a new number every time
LINES = ["one v%d", 'one "v%d \\" w"', "one v7", "num %d", "num x%d", "dec %d.5", "sub z%d", "many a%d b c%d", "both a%d 5", "both a%d b%d",
         "opt set aa ab", "opt2 z%d set bc", "boom q%d", "crash q%d", "path /nope%d x", 'path "/no pe%d" x', "path / x%d", "bogus%d", "o v%d", "b",
         "one", "one a%d b%d c", "", "one \\x%d", '"open%d', "# comment %d", "vol v%d", "vol e%d", "vol z%d", "num %d5 extra", "amb v%d x", "amb v%d xb", "twin a%d b%d", "pick v%d a", "pick v%d ab"]


def blocks():
    re.purge()
    for name in ("_compile_pattern", "translate"):
        f = getattr(fnmatch, name, None)
        if hasattr(f, "cache_clear"):
            f.cache_clear()
    gc.collect()
    return sys.getallocatedblocks()


class Watch:
    """Warnings, exceptions nobody looks at, tasks and descriptors left behind"""

    def __init__(self):
        self.seen = []
        self.loop = vlib.loop()
        self.loop.set_exception_handler(lambda l, ctx: self.note("loop: %s %r" % (ctx.get("message"), ctx.get("exception"))))
        self.fds = self.open_fds()

    def note(self, s):
        if len(self.seen) < 5:
            self.seen.append(s)

    @staticmethod
    def open_fds():
        return sorted(os.listdir("/proc/self/fd"))

    def __enter__(self):
        self.cm = warnings.catch_warnings()
        self.cm.__enter__()
        warnings.simplefilter("always")

        def show(message, category, filename, lineno, file=None, line=None):
            if issubclass(category, (ResourceWarning, RuntimeWarning)):
                self.note("%s: %s" % (category.__name__, message))
        warnings.showwarning = show
        self.hook = sys.unraisablehook
        sys.unraisablehook = lambda u: self.note("unraisable: %r" % (u.exc_value,))
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        sys.unraisablehook = self.hook
        return False

    def judge(self, what):
        gc.collect()
        check(not self.seen, "left behind or lost", what=what, seen=self.seen)
        tasks = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
        check(not tasks, "tasks left running", what=what, tasks=[str(t)[:150] for t in tasks])
        check(len(self.open_fds()) <= len(self.fds), "descriptors left open", what=what, before=len(self.fds), after=len(self.open_fds()))


def plateau(vals, tol, what, per):
    """no growth from the first half of the samples to the second"""
    h = len(vals) // 2
    a, b = max(vals[:h]), max(vals[h:])
    lo, hi = min(vals[:h]), min(vals[h:])
    check(b - a <= tol or hi - lo <= tol // 2, "memory grows from round to round", ops=what, rounds_per_sample=per, growth=b - a, samples=vals)


def make(rng, obs, d, asCmd, feed=None):
    kw = dict(loop=vlib.loop(), prompt="> ", stdin=feed or vlib.KeyFeed(), stdout=Sink(), stderr=Sink(),
              str_cache_size=rng.choice([0, 4, 128]), history_size=rng.choice([1, 10]) if feed is not None else 100) if not asCmd else \
        dict(loop=vlib.loop(), prompt="> ", stdin=feed or vlib.KeyFeed(), stdout=Sink(), stderr=Sink(), str_cache_size=rng.choice([0, 4, 128]))
    c = LCmd(disable_default_hooks=rng.random() < 0.5, **kw) if asCmd else LCli(vlib.compile_grammar(TEXT), **kw)
    c.init(d, rng)
    return c


def case_lines(rng, obs, d, idx):
    asCmd = rng.random() < 0.5
    c = make(rng, obs, d, asCmd)
    c.enter_grammar(c.generate_root_grammar_name() if asCmd else "top")
    ops = [(rng.choice(["exec", "exec", "dry", "part", "args", "tab", "execs"]), rng.choice(LINES)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    ops[0] = (rng.choice(["exec", "exec", "exec", "tab", ops[0][0]]), LINES[idx // 2 % len(LINES)])
    n = [10 ** 6]

    def one(op):
        how, l = op
        while "%d" in l:
            n[0] += 1
            l = l.replace("%d", str(n[0]), 1)
        obs.count["lines"] += 1
        if l.startswith(("boom", "crash", "vol e")):
            obs.count["failing"] += 1
        if how == "exec":
            vlib.run(c.exec_line(l))
        elif how == "execs":
            async def main():
                for k in range(3):
                    await c.exec_line(l + " " * k)
            vlib.run(main())
        elif how == "args":
            c.exec_args(*l.split())
        elif how == "tab":
            obs.count["tabs"] += 1
            rl = c.readline
            rl._line_buffer = l
            vlib.run(c.complete(l, 0))
            rl._line_buffer = ""
        else:
            vlib.run(c.match(l.split(), dry_run=True, last_token_complete=how == "dry"))

    series(rng, obs, lambda: [one(op) for op in ops], [" ".join(op) for op in ops], 300, 60, 16)
    obs.seen(("lines", asCmd, tuple(sorted(ops))))


def series(rng, obs, rnd, what, warm, per, count, tol=260):
    with Watch() as w:
        for _ in range(warm):
            rnd()
        vals = []
        for _ in range(count):
            for _ in range(per):
                rnd()
            obs.count["rounds"] += per
            vals.append(blocks())
            obs.count["samples"] += 1
        w.judge(what)
    plateau(vals, tol, what, per)
    obs.ev()
    obs.sample({"ops": what, "blocks": vals[:6]})


SESSION = [["one v%d\r"], ['one "v%d x"\r'], ["num %d\r"], ["boom v%d\r"], ["crash v%d\r"], ["bogus%d\r"], ["on", "\t", " v%d\r"],
           ["one v%d", rlkey.CTRL_C], ["a%d\\\r", "b", rlkey.CTRL_C], ["one \\\r", "v%d\r"], [rlkey.CTRL_D], ["run f%d\r"], ["run f1\r"],
           ["ask\r", "answer%d\r"], ["# c%d\r"], ["amb v%d x\r"], ["pick v%d a\r"], ["twin a%d b%d\r"], ["one v%d" + rlkey.BACKSPACE * 3 + "\r"], ["\t", "\t", "b", "\t", "y%d", "\t", "\r"]]
CONTEXT = [["enter p%d\r", "one v%d\r", "bye\r"], ["enter p%d\r", "enter q%d\r", "bye\r", "num %d\r", "bye\r"], ["enter p%d\r", "bogus%d\r", "bye\r"],
           ["enter p%d\r", "o", "\t", " v%d\r", "bye\r"], ["enter p%d\r", "run f1\r", "crash v%d\r", "bye\r"], ["enter p%d\r", "one v%d", rlkey.CTRL_C, "bye\r"]]


def case_session(rng, obs, d):
    contexts = rng.random() < 0.35
    asCmd = contexts or rng.random() < 0.5
    with open(os.path.join(d, "f1"), "w") as fd:
        fd.write("one a\nboom x\n# c\none b\\\nc\n\nnope\n")
    ops = [rng.choice(SESSION) for _ in range(rng.choice([1, 1, 2, 3]))]
    if contexts:
        ops[0] = rng.choice(CONTEXT)
    what = ["|".join(x.replace("\r", "<cr>") for x in op) for op in ops]
    warm, per, count = (12, 6, 10) if contexts else (160, 30, 16)
    n = [10 ** 6]
    st = {"round": 0, "todo": []}
    vals = []
    feed = vlib.KeyFeed()
    c = make(rng, obs, d, asCmd, feed)
    if asCmd:
        c.through = rng.random() < 0.5
        c.readline.set_history_size(5)

    def on_end(fd, rl):
        if not st["todo"]:
            r = st["round"]
            if r > warm and (r - warm) % per == 0:
                vals.append(blocks())
                obs.count["samples"] += 1
            if len(vals) == count:
                c.exit_loop()
                return ["\r"]
            st["round"] += 1
            for op in ops:
                for x in op:
                    while "%d" in x:
                        n[0] += 1
                        x = x.replace("%d", str(n[0]), 1)
                    st["todo"].append(x)
                    if x == "\t":
                        obs.count["tabs"] += 1
                    if x.startswith("enter"):
                        obs.count["contexts"] += 1
                    if x.startswith("run"):
                        obs.count["files"] += 1
                    if x.startswith(("boom", "crash")):
                        obs.count["failing"] += 1
            obs.count["typed"] += len(ops)
        return list(st["todo"].pop(0)) if st["todo"] else ["\r"]

    feed.on_end = on_end
    with Watch() as w:
        vlib.run(c.cmdloop() if asCmd else c.cmdloop("top"))
        w.judge(what)
    check(len(vals) == count, "the session ended before its script", samples=len(vals))
    obs.count["rounds"] += per * count
    plateau(vals, 260, what, per)
    obs.ev()
    obs.seen(("session", asCmd, tuple(sorted(what))))
    obs.sample({"session": what, "blocks": vals[:6]})


class Tiny(NessaidCmd):
    r"""
    token S StringToken();
    """

    def do_one(self, v):
        r""" "one" S << $v = $2; >> """

    def do_fail(self):
        r""" "fail" """
        raise ValueError()

    async def do_enter(self):
        r""" "enter" """
        await self.enter_context(Tiny, prompt="t")

    def do_bye(self):
        r""" "bye" """
        self.exit_loop()

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)


def case_objects(rng, obs, d):
    kind = rng.choice(["execute_args", "execute_line", "cmd", "cli", "compile", "session"])
    arg = rng.choice([["one", "x%d"], ["fail"], ["bogus"], ["one"]])
    g = vlib.compile_grammar(TEXT)
    n = [0]

    def rnd():
        n[0] += 1
        a = [x.replace("%d", str(n[0])) for x in arg]
        obs.count["objects"] += 1
        kw = dict(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=Sink(), stderr=Sink())
        if kind == "execute_args":
            Tiny.execute_args(*a)
        elif kind == "execute_line":
            vlib.run(Tiny.execute_line(" ".join(a)))
        elif kind == "cmd":
            c = Tiny(prompt="> ", disable_default_hooks=True, **kw)
            c.exec_args(*a)
        elif kind == "cli":
            c = LCli(g, **kw)
            c.init(d, rng)
            c.enter_grammar("top")
            c.exec_args(*a)
        elif kind == "compile":
            vlib.compile_grammar("top: \"one\" ; sub%d: top \"x\";" % n[0])
        else:
            c = Tiny(prompt="> ", disable_default_hooks=True, **kw)
            vlib.session(c, ["enter", " ".join(a), "bye", " ".join(a), "bye"])

    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Sink(), Sink()
    try:
        series(rng, obs, rnd, [kind] + arg, 8, 3, 8, tol=400)
    finally:
        sys.stdout, sys.stderr = old
    obs.seen((kind, tuple(arg)))


def run_case(rng, idx, obs):
    d = tempfile.mkdtemp()
    try:
        if idx % 2:
            case_lines(rng, obs, d, idx)
        elif rng.random() < 0.8:
            case_session(rng, obs, d)
        else:
            case_objects(rng, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
