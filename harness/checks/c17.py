"""C17: script files run completely, in order, nested where they are invoked."""
import asyncio
import io
import os
import shutil
import tempfile

import vlib
from vlib import check, snap, NessaidCmd, NessaidCli
from gram import quote
import c16
from c16 import ErrTap, Hooks, ACmd, interpret, VALUES
import reftok

PID = "C17"
CASES = {"quick": 1100, "thorough": 30000}
RULE = ("random trees of one to six command files (good, wrong, incomplete, untokenizable, failing, blank, comment and continued lines, "
        "different line ends, empty files, missing, unreadable and undecodable ones) run at start, from typed lines, from other files, "
        "from nested contexts and from the start of a context, mixed with commands asking for input from the file, the keyboard, twice, "
        "masked, or by the grammar's input(); one event log against a file-stack model; non-trivial = distinct scripts")
REQUIRED = {"odd_characters": 440, "file_lines": 3000, "typed_lines": 5500, "nested_runs": 540, "start_files": 350,
            "unreadable": 840, "empty_files": 100, "inputs_from_file": 350, "inputs_from_keyboard": 570,
            "echoed": 3300, "masked_from_file": 110, "forced_keyboard": 140, "continued": 150, "contexts": 190,
            "context_files": 79, "reports": 1900, "crlf": 590}
ASSUMPTIONS = ["the last line of a file does not end in a backslash", "lines of files have no trailing blanks inside quotes",
               "a handler starts at most one file"]


class FErrTap(ErrTap):
    KINDS = ErrTap.KINDS + (("Exception processing input file:", "file"),)


class FileHooks(Hooks):

    def _run(self, name):
        self.add("run", name)
        self.add_file_to_execute(os.path.join(self.dir, name))

    async def _arun(self, name):
        await asyncio.sleep(0)
        self.add("run", name)
        self.add_file_to_execute(os.path.join(self.dir, name))
        await asyncio.sleep(1)

    async def _ask(self):
        self.add("ask", await self.input("in: ", self.shown, show_prompt_for_file_lines=self.prompted))

    async def _twice(self):
        a = await self.input("one: ")
        self.add("twice", a, await self.input("other: ", show_char=False))

    async def _key(self):
        self.add("key", await self.input("kb: ", from_stdin=True))

    def _got(self, v):
        self.add("gask", v)


class FCmd(FileHooks, ACmd):
    r""" """

    def do_run(self, v):
        r""" "run" S << $v = $2; >> """
        return self._run(v)

    async def do_arun(self, v):
        r""" "start" S << $v = $2; >> """
        await self._arun(v)

    async def do_ask(self):
        r""" "ask" """
        await self._ask()

    async def do_both(self):
        r""" "both" """
        await self._twice()

    async def do_key(self):
        r""" "key" """
        await self._key()

    def do_gask(self, v):
        r""" "gask" << $v = input("g: "); >> """
        return self._got(v)

    async def do_deeper(self, v):
        r""" "deeper" { S << $v = $1; >> } """
        self.add("deeper", v)
        kw = {"filename": os.path.join(self.dir, v)} if v else {}
        await self.enter_context(FCmd, prompt="sub> ", **kw)
        for a in ("log", "dir", "leave_on", "shown", "prompted"):
            setattr(self.child_cli, a, getattr(self, a))


FCmd.__doc__ = None


class FCli(FileHooks, NessaidCli):

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)


FTEXT = c16.TEXT.replace('   ;\n', r'''
   | "run" S << call _run($2); >>
   | "start" S << call _arun($2); >>
   | "ask" << call _ask(); >>
   | "both" << call _twice(); >>
   | "key" << call _key(); >>
   | "gask" << call _got(input("g: ")); >>
   ;
''')


class Sim:
    """the expected events"""

    def __init__(self, files, typed, contexts, obs):
        self.files, self.typed, self.obs = files, list(typed), obs
        self.stack = []
        self.depth = 0
        self.contexts = contexts
        self.ev = []
        self.echo = []      # what the lines of files show
        self.shown = self.prompted = True
        self.reads = 0
        self.steps = 0

    def push(self, name):
        lines = self.files.get(name)
        if lines is None:
            self.ev.append(("err", "file"))
            self.obs.count["unreadable"] += 1
        elif lines:
            self.stack.append(list(lines))
        else:
            self.obs.count["empty_files"] += 1

    def next(self, keyboard=False):
        self.steps += 1
        if self.steps > 4000:
            raise vlib.Inconclusive("script too long")
        if self.stack and not keyboard:
            s = self.stack[-1]
            l = s.pop(0)
            if not s:
                self.stack.pop()
            return l, True
        if not self.typed:
            raise EOFError
        return self.typed.pop(0), False

    def ask(self, prompt, keyboard=False, shown=True):
        l, f = self.next(keyboard)
        if f:
            self.echo.append(prompt + (l if shown else "*" * len(l)) + "\n")
            if not shown:
                self.obs.count["masked_from_file"] += 1
        self.obs.count["inputs_from_file" if f else "inputs_from_keyboard"] += 1
        if keyboard:
            self.obs.count["forced_keyboard"] += 1
        return l

    def run(self, start=None):
        if start:
            self.push(start)
            self.obs.count["start_files"] += 1
        try:
            while True:
                eff, more = "", False
                while True:
                    l, f = self.next()
                    if f:
                        self.echo.append(("" if more else "sub> " if self.depth else "> ") + l + "\n")
                    self.obs.count["file_lines" if f else "typed_lines"] += 1
                    eff += l
                    if eff.rstrip().endswith("\\"):
                        eff, more = eff.rstrip()[:-1], True
                        self.obs.count["continued"] += 1
                        continue
                    break
                if not self.line(eff):
                    return True
        except EOFError:
            return False

    def line(self, line):
        if line.lstrip().startswith("#"):
            return True
        try:
            t = [c16.value(x[0]) for x in reftok.split(line)]
        except reftok.Illegal:
            t = ["?"]
        if len(t) == 2 and t[0] in ("run", "start"):
            self.ev.append(("run", t[1]))
            if self.stack:
                self.obs.count["nested_runs"] += 1
            self.push(t[1])
        elif t == ["ask"]:
            self.ev.append(("ask", self.ask("in: " if self.prompted else "", shown=self.shown)))
        elif t == ["gask"]:
            self.ev.append(("gask", self.ask("g: ")))
        elif t == ["both"]:
            a = self.ask("one: ")
            self.ev.append(("twice", a, self.ask("other: ", shown=False)))
        elif t == ["key"]:
            self.ev.append(("key", self.ask("kb: ", True)))
        elif t and t[0] == "deeper" and len(t) < 3 and self.contexts:
            self.ev.append(("deeper", t[1] if len(t) > 1 else ""))
            self.depth += 1
            self.obs.count["contexts"] += 1
            if len(t) > 1:
                self.obs.count["context_files"] += 1
                self.push(t[1])
        else:
            kind, ev = interpret(line)
            if kind == "again":
                ev = [("again", "CliAlreadyRunning")]
            self.ev += ev
            if kind == "bye":
                if not self.depth:
                    return False
                self.depth -= 1
        return True


WORDS = ["alpha", "num", "two", "boom", "crash", "slow", "many", "again", "bye", "run", "start", "ask", "both", "key", "gask", "deeper"]


# what a line of a file may hold, but a keyboard does not give
ODD = ["\t# alpha x", " \t #bye", "\t", "\talpha x", "two\tx\ty1", 'alpha "a\x0bb"', 'alpha "a\x0cb\x1cd"', "alpha a\x85b", "alpha \u2028", 'alpha "p\u2028q\u2029r"',
       "alpha x\x1dy", "\x0c# alpha x", "alpha \x0c", 'many "\t" "a\tb"', "alpha \ufeff", "alpha \u00a0x"]


def gen_line(rng, later, contexts, file=True):
    x = rng.random()
    if file and rng.random() < 0.06:
        return rng.choice(ODD)
    if x < 0.22:
        n = rng.choice(later + ["missing", "adir", "binary"]) if rng.random() < 0.85 or not later else rng.choice(later)
        return rng.choice(["run ", "start "]) + (quote(n) if rng.random() < 0.2 else n)
    if x < 0.28:
        return "ask"
    if x < 0.31:
        return "both"
    if x < 0.35:
        return "gask"
    if x < 0.38:
        return "key"
    if x < 0.45 and contexts:
        return "deeper" + (" " + rng.choice(later + ["missing"]) if rng.random() < 0.4 else "")
    if x < 0.50 and contexts:
        return "bye"
    while True:
        l = c16.a_line(rng)
        if l.strip() == "again":
            continue
        if rng.random() < 0.12 and len(l) > 3 and "\\" not in l and '"' not in l:
            # continued on the next line
            k = rng.randint(1, len(l) - 1)
            rest = l[k:].split()
            # the parts may be read one by one as well: no abbreviations
            if not l[:k].isspace() and not any(w.startswith(r) and w != r for r in (rest[:1] or [""]) for w in WORDS):
                return l[:k] + "\\\n" + l[k:]
        return l


def run_case(rng, idx, obs):
    d = tempfile.mkdtemp(prefix="c17-")
    try:
        _case(rng, idx, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _case(rng, idx, obs, d):
    contexts = rng.random() < 0.6
    n = rng.randint(1, 6)
    names = ["f%d" % i for i in range(n)]
    if rng.random() < 0.3:
        names[0] = "with blank"
    files = {}
    os.mkdir(os.path.join(d, "adir"))
    with open(os.path.join(d, "binary"), "wb") as fd:
        fd.write(b"alpha x\n\xff\xfe\x00\x80\nalpha y\n")
    for i in range(n - 1, -1, -1):
        later = names[i + 1:]
        lines = []
        for _ in range(rng.choice([0, 1, 2, 4, 6, 9, 12])):
            lines += gen_line(rng, later, contexts).split("\n")
        while lines and lines[-1].rstrip().endswith("\\"):
            lines.pop()
        if rng.random() < 0.3 and lines:
            # blanks at the end of a line, invisible in a file
            k = rng.randrange(len(lines))
            if not lines[k].rstrip().endswith("\\"):
                lines[k] += "  "
        eol = rng.choice(["\n", "\n", "\r\n"])
        if eol == "\r\n":
            obs.count["crlf"] += 1
        data = eol.join(lines) + (eol if lines and rng.random() < 0.7 else "")
        with open(os.path.join(d, names[i]), "wb") as fd:
            fd.write(data.encode())
        content = data.replace("\r\n", "\n")
        ls = content.split("\n")
        if ls and ls[-1] == "":
            ls.pop()
        files[names[i]] = [l.rstrip() for l in ls]
        obs.count["odd_characters"] += sum(1 for l in ls if l.strip() and l in ODD)
    typed = []
    for _ in range(rng.randint(3, 10)):
        typed += gen_line(rng, names, contexts, False).split("\n")
    while typed[-1].rstrip().endswith("\\"):
        typed.pop()
    spare = ["num 7"] * 8
    start = rng.choice(names + ["missing", "binary", None, None])
    asCmd = contexts or rng.random() < 0.5
    sim = Sim(files, typed + spare, contexts and asCmd, obs)
    sim.shown, sim.prompted = rng.random() < 0.6, rng.random() < 0.6
    ended = sim.run(start)
    obs.ev()
    log = []
    kw = dict(loop=vlib.loop(), prompt="> ", stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=FErrTap(log),
              filename=os.path.join(d, start) if start else None)
    c = FCmd(disable_default_hooks=True, **kw) if asCmd else FCli(vlib.compile_grammar(FTEXT), **kw)
    c.log, c.dir, c.leave_on = log, d, "end"
    c.shown, c.prompted = sim.shown, sim.prompted
    feed = c.stdin
    feed.steps.extend(typed + spare)
    tries = []

    def on_end(fd, rl):
        # all of the typed lines are read: leave every context
        tries.append(1)
        check(len(tries) < 60, "the loop does not end")
        for cli in vlib.stack(c):
            cli.exit_loop()
        return ["\r"]
    feed.on_end = on_end
    vlib.run(c.cmdloop() if asCmd else c.cmdloop("top"))
    obs.seen((repr(files), tuple(typed), start))
    obs.count["reports"] += sum(1 for e in log if e[0] == "err")
    want = sim.ev
    got = log[:len(want)] if not ended else log
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        check(False, "the files and lines ran otherwise", at=k, before=want[max(0, k - 3):k], got=got[k:k + 4], want=want[k:k + 4], files=files,
              typed=typed, start=start, err=c.stderr.getvalue()[-300:])
    out = c.stdout.getvalue().replace("\r\n", "\n")
    pos = 0
    for k, e in enumerate(sim.echo):
        i = out.find(e, pos)
        check(i >= 0, "a line of a file was not shown as it was read", line=e, before=sim.echo[max(0, k - 2):k], out=out[pos:pos + 200],
              files=files, typed=typed, start=start)
        pos = i + len(e)
        obs.count["echoed"] += 1
    if ended:
        check(not tries, "the session read on after it was told to exit")
        check(len(feed.steps) == len(sim.typed), "lines were read from the wrong source", left=len(feed.steps), want=len(sim.typed), files=files, typed=typed, start=start)
    else:
        # only an input() waiting at the very end may add something
        check(len(log) - len(want) <= 1, "more ran than was entered", extra=log[len(want):], files=files, typed=typed, start=start)
    obs.sample({"files": files, "typed": typed, "log": [str(e) for e in log[:10]]})
