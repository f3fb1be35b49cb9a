"""C24: answers to input requests are only answers; recalled lines are entered lines."""
import asyncio
import io
import os
import shutil
import tempfile

import vlib
from vlib import check, snap, NessaidCmd, NessaidCli, rlkey
import c16
from c16 import ACmd, ErrTap, Hooks

PID = "C24"
CASES = {"quick": 900, "thorough": 25000}
RULE = ("random typed sessions in a CLI or command class, with contexts, of lines (typed, completed, continued, corrected, given up, run from "
        "a file) and input requests (shown, masked, twice, by the grammar's input(), answered by anything printable, looking like commands, "
        "comments, continued lines, with TAB, UP, PAGE UP and corrections in between, given up or ended), recalling with UP, DOWN, PAGE UP "
        "and PAGE DOWN; the line buffer, the output and one event log are compared with a model of history and requests; non-trivial = "
        "distinct sessions")
REQUIRED = {"answers": 3400, "masked": 1300, "special_keys": 4100, "given_up": 230, "recalled": 1500,
            "recalled_run": 390, "recalled_edited": 120, "in_context": 1500, "trimmed": 1700, "by_grammar": 1300,
            "completed": 470, "lines": 1100, "file_lines": 1500, "backups": 430, "beyond": 620}
ASSUMPTIONS = ["equal successive lines are one history entry, and continued lines one per part, as the line editor does it",
               "the incremental history search (CTRL-R) is not used"]


class AskHooks(Hooks):

    async def _ask(self):
        self.add("ask", await self.input("in: "))

    async def _secret(self):
        self.add("secret", await self.input("password: ", show_char=False))

    async def _both(self):
        a = await self.input("name: ")
        await asyncio.sleep(0)
        self.add("both", a, await self.input("password: ", False))

    async def _key(self):
        self.add("key", await self.input("", from_stdin=True))

    def _gask(self, v):
        self.add("gask", v)

    def _gshown(self, v):
        self.add("gshown", v)

    def _gmasked(self, v):
        self.add("gmasked", v)

    def _gtwo(self, a, b):
        self.add("gtwo", a, b)

    def _run(self):
        self.add_file_to_execute(self.file)


class HCli(AskHooks, NessaidCli):

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)


TEXT = c16.TEXT.rstrip().rstrip(";") + r"""
   | "ask" << call _ask(); >>
   | "secret" << call _secret(); >>
   | "both" << call _both(); >>
   | "key" << call _key(); >>
   | "run" << call _run(); >>
   | "gask" << $x = input("g: "); call _gask($x); >>
   | "gshown" << $m = True; $x = input("g: ", $m); call _gshown($x); >>
   | "gmasked" << $x = input("password: ", False); call _gmasked($x); >>
   | "gtwo" << $m = 0; call _gtwo(input("g: "), input("password: ", $m)); >>
   ;
"""


class HCmd(AskHooks, ACmd):
    r""" """

    async def do_ask(self):
        r""" "ask" """
        await self._ask()

    async def do_secret(self):
        r""" "secret" """
        await self._secret()

    async def do_both(self):
        r""" "both" """
        await self._both()

    async def do_key(self):
        r""" "key" """
        await self._key()

    def do_gask(self, x):
        r""" "gask" << $x = input("g: "); >> """
        self._gask(x)

    def do_gshown(self, x, m):
        r""" "gshown" << $m = True; $x = input("g: ", $m); >> """
        self._gshown(x)

    def do_gmasked(self, x):
        r""" "gmasked" << $x = input("password: ", False); >> """
        self._gmasked(x)

    def do_gtwo(self, x, y, m):
        r""" "gtwo" << $m = 0; $x = input("g: "); $y = input("password: ", $m); >> """
        self._gtwo(x, y)

    def do_run(self):
        r""" "run" """
        self._run()

    async def do_enter(self, v):
        r""" "enter" S << $v = $2; >> """
        self.add("enter", v)
        await self.enter_context(HCmd, prompt=v)
        self.child_cli.log, self.child_cli.file, self.child_cli.leave_on = self.log, self.file, None


ANSWERS = ["", "yes", " two words ", "alpha x", "bye", "# no", "end\\", "\\", '"open', "enter q", "12", "o", "a\\n", "secret", "  ", "%s", "one 1"]
LINES = ["alpha %s", "num %d", "two %s b", "boom %s", "zzz %s", "alpha", "  alpha %s ", "# c %s", "many a %s", 'alpha "q %s"', "alpha \\x%s", "  ", "slow %s"]


REQUESTS = {"ask": [False], "secret": [True], "both": [False, True], "key": [False], "gask": [False], "gshown": [False], "gmasked": [True],
            "gtwo": [False, True]}
COMMANDS = tuple(REQUESTS) + ("alpha", "num", "two", "boom", "crash", "slow", "many", "again", "bye", "ask", "secret", "both", "key", "gask", "run", "enter",
            "exit", "quit", "end", "timing", "profile")


def run_case(rng, idx, obs):
    d = tempfile.mkdtemp()
    try:
        session(rng, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def session(rng, obs, d):
    log = []
    asCmd = rng.random() < 0.55
    size = 100 if asCmd else rng.choice([0, 1, 2, 3, 5, 100])
    out = io.StringIO()
    kw = dict(loop=vlib.loop(), prompt="> ", stdin=vlib.KeyFeed(), stdout=out, stderr=ErrTap(log))
    c = HCmd(disable_default_hooks=True, **kw) if asCmd else HCli(vlib.compile_grammar(TEXT), history_size=size, **kw)
    c.log, c.leave_on = log, None
    c.file = os.path.join(d, "f")
    with open(c.file, "w") as fd:
        fd.write("alpha fromfile\nnope fromfile\n")
    hist = []           # what UP should show
    depth = [0]
    n = [0]
    trace = []

    def fresh(t):
        while "%" in t:
            n[0] += 1
            t = t.replace("%s", "w%d" % n[0], 1) if "%s" in t else t.replace("%d", str(n[0] % 101), 1)
        return t

    def entered(text):
        if text:
            e = text.strip()
            if not hist or hist[-1] != e:
                hist.append(e)
                while len(hist) > size:
                    hist.pop(0)
                    obs.count["trimmed"] += 1

    def answer(rl, masked):
        """keys answering one request -> (generator of key lists, expected text)"""
        text = fresh(rng.choice(ANSWERS))
        if masked:
            text = "pw" + text + "".join(rng.choice("0123456789") for _ in range(6))
        mark = len(out.getvalue())
        keys, special = list(text), 0
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            at = rng.randint(0, len(keys))
            x = rng.choice(["\t", rlkey.UP, rlkey.PAGE_UP, "junk", rlkey.DOWN, "\t", rlkey.UP])
            # a correction is not torn apart by what comes after
            ins = list("#j") + [rlkey.BACKSPACE] * 2 if x == "junk" else [x]
            keys[at:at] = [ins]
            special += 1
        keys = [k for x in keys for k in (x if isinstance(x, list) else [x])]
        obs.count["special_keys"] += special
        obs.count["answers"] += 1
        if masked:
            obs.count["masked"] += 1
        end = rng.random()
        if end < 0.07:
            obs.count["given_up"] += 1
            return keys, [rlkey.CTRL_C], text, "", mark
        return keys, ["\r"], text, text, mark

    def script(rl):
        for _ in range(rng.randint(8, 30)):
            cli = vlib.stack(c)[-1]
            del log[:]
            trace.append(None)
            obs.ev()
            if depth[0]:
                obs.count["in_context"] += 1
            x = rng.random()
            if x < 0.36:
                # a request
                kind = rng.choice(list(REQUESTS))
                if kind[0] == "g":
                    obs.count["by_grammar"] += 1
                yield list(kind) + ["\r"]
                entered(kind)
                got = []
                for masked in REQUESTS[kind]:
                    keys, end, text, value, mark = answer(rl, masked)
                    trace[-1] = (kind, keys, end)
                    yield keys
                    check(rl.get_line_buffer() == text, "something else than what was typed stands in the answer", kind=kind, keys=keys,
                          got=rl.get_line_buffer(), want=text)
                    yield end
                    got.append(value)
                    shown = out.getvalue()[mark:]
                    if masked:
                        check(text not in shown, "a masked answer was shown", text=text, shown=shown)
                    for h in hist[:-1]:
                        if len(h) > 4 and h not in text:
                            check(h not in shown, "a command line was shown at an input request", line=h, shown=shown)
                want = [(kind,) + tuple(got)]
                check(log == want, "the answer did not arrive as it was typed, or did something else", kind=kind, got=log, want=want)
                continue
            if x < 0.42 and asCmd and depth[0] < 3:
                l = "enter " + fresh("p%s")
                yield list(l) + ["\r"]
                entered(l)
                depth[0] += 1
                check(log == [("enter", l.split()[1])], "entering a context", got=log, want=l)
                continue
            if x < 0.46 and depth[0]:
                yield list("bye\r")
                entered("bye")
                depth[0] -= 1
                check(log == [("bye",)], "leaving a context", got=log)
                continue
            if x < 0.5:
                yield list("run\r")
                entered("run")
                obs.count["file_lines"] += 2
                want = [("alpha", "fromfile"), ("err", "result")]
                check(log == want, "the lines of the file did something else", got=log, want=want)
                continue
            if x < 0.74 and hist:
                # recall
                pre = rng.choice(["", "", "zq", "zz"])
                keys = list(pre)
                pos, backup = len(hist), True       # the line being typed
                for _ in range(rng.randint(1, 4)):
                    k = rng.choice([rlkey.UP, rlkey.UP, rlkey.UP, rlkey.DOWN, rlkey.PAGE_UP, rlkey.PAGE_DOWN])
                    many = rng.choice([1, 1, 2, 3]) if k == rlkey.UP else 1
                    keys += [k] * many
                    if k == rlkey.UP:
                        if pos - many < 0:
                            obs.count["beyond"] += 1
                        pos = max(0, pos - many)
                    elif k == rlkey.DOWN:
                        pos = min(len(hist), pos + 1)
                    elif k == rlkey.PAGE_UP:
                        pos = 0
                    elif pos != len(hist):
                        pos = len(hist)
                yield keys
                want = hist[pos] if pos < len(hist) else pre
                if pos == len(hist):
                    obs.count["backups"] += 1
                trace[-1] = ("recall", keys)
                check(rl.get_line_buffer() == want, "recalling lines showed something else than the lines entered", keys=keys, got=rl.get_line_buffer(),
                      want=want, history=hist[-6:], size=size)
                obs.count["recalled"] += 1
                first = want.split(" ")[0]
                # parts of continued lines may abbreviate commands
                part = first not in COMMANDS and any(k.startswith(first) for k in COMMANDS)
                if part or first in REQUESTS or first in ("run", "enter", "bye", "again") or want.endswith("\\") or rng.random() < 0.3:
                    yield [rlkey.CTRL_C]
                    check(log == [("int",)], "giving up a recalled line did something", got=log)
                    continue
                line = want
                if rng.random() < 0.3:
                    obs.count["recalled_edited"] += 1
                    yield list(" more")
                    line += " more"
                del log[:]
                yield ["\r"]
                obs.count["recalled_run"] += 1
                judge(line)
                entered(line)
                continue
            if x < 0.8:
                l = fresh(rng.choice(LINES))
                yield list(l) + [rlkey.CTRL_C]
                check(log == [("int",)], "a line given up did something", got=log, line=l)
                continue
            if x < 0.86:
                w = fresh("w%s")
                yield list("alp") + ["\t"]
                if rl.get_line_buffer().rstrip() == "alpha" or rl.get_line_buffer() == "alp":
                    yield ["\t"] if rl.get_line_buffer() == "alp" else []
                b = rl.get_line_buffer()
                check(b.rstrip() == "alpha", "TAB did not complete the word at a prompt", got=b)
                yield list(("" if b.endswith(" ") else " ") + w) + ["\r"]
                obs.count["completed"] += 1
                line = "alpha " + w
                judge(line)
                entered(line)
                continue
            l = fresh(rng.choice(LINES))
            if rng.random() < 0.2 and len(l) > 3 and not l.lstrip().startswith("#") and "\\" not in l:
                k = rng.randint(1, len(l) - 1)
                yield list(l[:k]) + ["\\", "\r"]
                entered(l[:k] + "\\")
                yield list(l[k:]) + ["\r"]
                entered(l[k:])
            else:
                yield list(l) + ["\r"]
                entered(l)
            obs.count["lines"] += 1
            judge(l)
        for _ in range(depth[0]):
            yield list("bye\r")
        depth[0] = 0

    def judge(line):
        if line.lstrip().startswith("#"):
            want = []
        else:
            kind, want = c16.interpret(line)
            if kind is None:
                return
        check(log == want, "the line did something else than what it says", line=line, got=log, want=want)

    vlib.play(c, script, root="top")
    obs.seen((asCmd, size, repr(trace)[:2000], n[0]))
    obs.sample({"history": hist[-6:], "size": size, "requests": [str(t)[:80] for t in trace if t][:5]})
