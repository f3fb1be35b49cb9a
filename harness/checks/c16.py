"""C16: the command loop runs every entered line once, in order, and survives errors."""
import asyncio
import io

import vlib
from vlib import check, snap, NessaidCmd, NessaidCli, VCli
from vlib import rlkey
from gram import quote
import reftok

PID = "C16"
CASES = {"quick": 1500, "thorough": 40000}
RULE = ("random typed sessions of 10-40 inputs in a CLI class or a command class: good lines of ten commands (sync, waiting and failing "
        "handlers), wrong, incomplete and untokenizable lines, blank lines and comments, lines split by backslashes at random places, TAB in a continued line, "
        "pasted blocks of several lines, corrections, Ctrl-C at random points, Ctrl-D, leaving in the middle, signals while waiting, several sessions of one "
        "object and real run() calls; one event log of handler calls, hooks and error reports is compared with the expected one; "
        "non-trivial = distinct sessions")
REQUIRED = {"joined_after_backslash": 170, "lines": 18000, "good": 8900, "failed": 2800, "illegal": 1000,
            "raising": 2100, "comments": 1200, "blank": 1000, "joined": 4700, "ctrl_c": 1800, "ctrl_c_continued": 930,
            "ctrl_d": 1000, "pasted": 4200, "left_early": 380, "second_session": 220, "real_run": 170,
            "already_running": 400, "corrected": 1800, "tab_joined": 3400, "signals": 36, "reports": 4300}
ASSUMPTIONS = ["Ctrl-D with text in the line and blanks after a joining backslash are not tried",
               "keys come from a scripted source in place of the terminal"]


class ErrTap(io.StringIO):
    """stderr which puts every report into the event log"""

    KINDS = (("Result:", "result"), ("Failure tokenizing input line:", "illegal"), ("Exception executing binding call:", "raised"),
             ("Error:", None))

    def __init__(self, log):
        super().__init__()
        self.log = log
        self.part = ""

    def write(self, s):
        super().write(s)
        self.part += s
        while "\n" in self.part:
            line, self.part = self.part.split("\n", 1)
            for k, name in self.KINDS:
                if line.startswith(k):
                    if name:
                        self.log.append(("err", name))
                    break
            else:
                if line.strip():
                    self.log.append(("err", "other", line))
        return len(s)


class Hooks:

    def add(self, *ev):
        self.log.append(tuple(snap(x) for x in ev))

    def _alpha(self, v):
        self.add("alpha", v)

    def _num(self, v):
        self.add("num", v)

    async def _two(self, a, b):
        await asyncio.sleep(0)
        self.add("two", a, b)

    def _boom(self, v):
        self.add("boom", v)
        raise ValueError("x")

    async def _crash(self, v):
        self.add("crash", v)
        await asyncio.sleep(0)
        raise KeyError("y")

    async def _slow(self, v):
        self.add("slow", v)
        await asyncio.sleep(3)
        self.add("slow-end", v)

    def _many(self, l):
        self.add("many", l)

    def _again(self):
        try:
            self.run() if isinstance(self, NessaidCmd) else self.run("top")
        except Exception as e:
            self.add("again", type(e).__name__)
        else:
            self.add("again", "started")

    def _bye(self):
        self.add("bye")
        self.exit_loop()

    async def handle_keyboard_interrupt(self):
        self.add("int")
        if self.leave_on == "int":
            self.exit_loop()

    async def handle_eof(self):
        self.add("eof")
        if self.leave_on == "eof":
            self.exit_loop()


class ACmd(Hooks, NessaidCmd):
    r"""
    token S StringToken();
    token I RangedIntToken(0, 100);
    """

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)

    def do_alpha(self, v):
        r""" "alpha" S << $v = $2; >> """
        return self._alpha(v)

    def do_num(self, v):
        r""" "num" I << $v = $2; >> """
        return self._num(v)

    async def do_two(self, a, b):
        r""" "two" S << $a = $2; >> S << $b = $3; >> """
        await self._two(a, b)

    def do_boom(self, v):
        r""" "boom" S << $v = $2; >> """
        return self._boom(v)

    async def do_crash(self, v):
        r""" "crash" S << $v = $2; >> """
        await self._crash(v)

    async def do_slow(self, v):
        r""" "slow" S << $v = $2; >> """
        await self._slow(v)

    def do_many(self, l):
        r""" << $l = list(); >> "many" ((S << append($l, $1); >>) * (1:4)) """
        return self._many(l)

    def do_again(self):
        r""" "again" """
        return self._again()

    def do_bye(self):
        r""" "bye" """
        return self._bye()


class ACli(Hooks, NessaidCli):

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)


TEXT = r"""
token S StringToken();
token I RangedIntToken(0, 100);
top: "alpha" S << call _alpha($2); >>
   | "num" I << call _num($2); >>
   | "two" S S << call _two($2, $3); >>
   | "boom" S << call _boom($2); >>
   | "crash" S << call _crash($2); >>
   | "slow" S << call _slow($2); >>
   | << $l = list(); >> "many" ((S << append($l, $1); >>) * (1:4)) << call _many($l); >>
   | "again" << call _again(); >>
   | "bye" << call _bye(); >>
   ;
"""


def value(tok):
    return vlib.convert_to_python_string(tok) if False else (tok[1:-1].replace('\\"', '"').replace("\\\\", "\\") if tok.startswith('"') else tok)


def interpret(line):
    """expected events of a complete line"""
    try:
        toks = reftok.split(line)
    except reftok.Illegal:
        return "illegal", [("err", "illegal")]
    if not toks:
        return "blank", []
    if any(t[2] for t in toks):
        return None, None
    t = [x[0] for x in toks]
    fail = ("failed", [("err", "result")])
    k, a = t[0], t[1:]
    v = [value(x) for x in a]
    if k in ("alpha", "boom", "crash", "slow") and len(a) == 1:
        if k == "alpha":
            return "good", [("alpha", v[0])]
        if k == "slow":
            return "good", [("slow", v[0]), ("slow-end", v[0])]
        return "raising", [(k, v[0]), ("err", "raised")]
    if k == "num" and len(a) == 1 and a[0].isdigit() and str(int(a[0])) == a[0] and 0 <= int(a[0]) <= 100:
        return "good", [("num", ("int", int(a[0])))]
    if k == "two" and len(a) == 2:
        return "good", [("two", v[0], v[1])]
    if k == "many" and 1 <= len(a) <= 4:
        return "good", [("many", ("list",) + tuple(v))]
    if k == "again" and not a:
        return "again", [("again", "CliAlreadyRunning")]
    if k == "bye" and not a:
        return "bye", [("bye",)]
    return fail


VALUES = ["x", "y1", "12", '"q w"', '"a # b"', "#v", '"say \\"hi\\""', "alpha", "bye", '"back\\\\slash"', "-", "a/b"]


def a_line(rng):
    v = lambda: rng.choice(VALUES)
    x = rng.random()
    if x < 0.5:
        return rng.choice(["alpha " + v(), "num %d" % rng.choice([0, 5, 99, 100]), "two %s %s" % (v(), v()), "slow " + v(),
                           "many " + " ".join(v() for _ in range(rng.randint(1, 4))), "  alpha   " + v() + "  "])
    if x < 0.62:
        return rng.choice(["boom ", "crash "]) + v()
    if x < 0.78:
        return rng.choice(["zzz", "alpha", "num 101", "num x", "two a", "alpha a b", "many", "many 1 2 3 4 5", "two", "bye now", "12", '"alpha" x y', "Z z z"])
    if x < 0.84:
        return rng.choice(["alpha \\ x", "\\x", "alpha \\n", "num 5 \\ ", "two a \\b c"]).rstrip() + "y"
    if x < 0.9:
        return rng.choice(["", " ", "    "])
    if x < 0.97:
        return rng.choice(["# alpha 1", "  # num 5", "#", "#bye", " #\"", "# \\ x"])
    return "again"


def joining(rng, obs):
    """TAB in a continued line writes the parts so far into one line; it may be pressed with the caret anywhere"""
    if rng.random() < 0.6:
        return []
    obs.count["tab_joined"] += 1
    return rng.choice([[], [], [rlkey.LEFT], [rlkey.LEFT] * 3, [rlkey.HOME]]) + [rlkey.TAB]


def script(rng, obs, nlines, leaving):
    """-> ([keys per input], expected events, consumed inputs)"""
    steps, want = [], []
    eff = ""
    i = 0
    while i < nlines:
        i += 1
        x = rng.random()
        if x < 0.08:
            # Ctrl-C, possibly in the middle of something
            keys = list(rng.choice(["", "alpha x", "bye", "two a", "# c", '"'])) + [rlkey.CTRL_C]
            steps.append((keys, [("int",)]))
            obs.count["ctrl_c"] += 1
            continue
        if x < 0.13:
            steps.append(([rlkey.CTRL_D], [("eof",)]))
            obs.count["ctrl_d"] += 1
            continue
        line = a_line(rng)
        if leaving == "bye" and rng.random() < 0.06:
            line = "bye"
        pieces = [line]
        if rng.random() < 0.25 and line and not line.rstrip().endswith("\\"):
            cuts = sorted(rng.sample(range(len(line) + 1), min(len(line) + 1, rng.randint(1, 3))))
            pieces = [line[a:b] for a, b in zip([0] + cuts, cuts + [len(line)])]
            # the backslash which joins is the last one; those in front of it are of the line
            if pieces[-1].rstrip().endswith("\\"):
                pieces = [line]
            obs.count["joined_after_backslash"] += sum(p.endswith("\\") for p in pieces[:-1])
        if len(pieces) > 1:
            obs.count["joined"] += 1
            if rng.random() < 0.2:
                # given up in the middle
                k = rng.randint(1, len(pieces) - 1)
                keys = []
                for p in pieces[:k]:
                    keys += list(p) + ["\\", "\r"]
                keys += list(rng.choice(["", pieces[k], "junk"])) + joining(rng, obs) + [rlkey.CTRL_C]
                steps.append((keys, [("int",)]))
                obs.count["ctrl_c_continued"] += 1
                continue
        keys = []
        for n, p in enumerate(pieces[:-1]):
            at = rng.randint(0, len(p)) if n else 0
            keys += list(p[:at]) + (joining(rng, obs) if n else []) + list(p[at:]) + ["\\", "\r"]
        last = list(pieces[-1])
        if len(pieces) > 1:
            at = rng.randint(0, len(last))
            last[at:at] = joining(rng, obs)
        if rng.random() < 0.1:
            junk = list(rng.choice(["q", "zz z", "#"]))
            at = rng.randint(0, len(last))
            last = last[:at] + junk + [rlkey.BACKSPACE] * len(junk) + last[at:]
            obs.count["corrected"] += 1
        keys += last + ["\r"]
        # blanks in front of a joining backslash stay, as the backslash alone is taken off
        full = "".join(pieces)
        obs.count["lines"] += 1
        if full.lstrip().startswith("#"):
            obs.count["comments"] += 1
            steps.append((keys, []))
            continue
        kind, ev = interpret(full)
        if kind is None:
            continue
        obs.count[kind] += 1
        steps.append((keys, ev))
    return steps


def run_case(rng, idx, obs):
    log = []
    asCmd = rng.random() < 0.5
    leaving = rng.choice(["end", "end", "bye", "bye", "int", "eof"])
    kw = dict(loop=vlib.loop(), prompt="> ", stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=ErrTap(log))
    if rng.random() < 0.3:
        kw["loop"].executor_delay = lambda: rng.choice([0, 0.01, 2])
    if asCmd:
        c = ACmd(disable_default_hooks=True, **kw)
    else:
        c = ACli(vlib.compile_grammar(TEXT), **kw)
    c.log = log
    c.leave_on = leaving
    for sess in range(rng.choice([1, 1, 2, 3])):
        del log[:]
        obs.ev()
        steps = script(rng, obs, rng.randint(10, 40), leaving)
        # inputs may arrive in one block
        blocks = []
        for keys, ev in steps:
            if blocks and rng.random() < 0.2:
                blocks[-1][0].extend(keys)
                blocks[-1][1].append(ev)
                obs.count["pasted"] += 1
            else:
                blocks.append([list(keys), [ev]])
        want, reads, left = [], 0, False
        for keys, evs in blocks:
            reads += 1
            for ev in evs:
                want += ev
                if (leaving == "bye" and ev == [("bye",)]) or (leaving in ("int", "eof") and ev == [(leaving,)]):
                    left = True
                    break
                if ev == [("bye",)]:
                    left = True
                    break
            if left:
                break
        feed = c.stdin
        feed.steps.clear()
        feed.steps.extend(k for k, _ in blocks)
        feed.reads = 0
        ended = []

        def on_end(fd, rl):
            ended.append(1)
            check(len(ended) < 3, "the loop goes on after it was told to exit")
            c.exit_loop()
            return ["\r"]
        feed.on_end = on_end
        mode = rng.random()
        intro = rng.choice([None, "Hello"])
        if mode < 0.8:
            vlib.run(c.cmdloop(intro=intro) if asCmd else c.cmdloop("top", intro=intro))
        elif mode < 0.9:
            obs.count["real_run"] += 1
            # interrupts from outside (signals) while the session waits

            def interrupt():
                obs.count["signals"] += 1
                raise KeyboardInterrupt
            now = c.loop.time()
            sigs = [c.loop.call_at(now + t, interrupt) for t in sorted(rng.uniform(0, 20) for _ in range(rng.choice([0, 1, 2, 5])))]
            c.run(intro=intro) if asCmd else c.run("top", intro=intro)
            for h in sigs:
                h.cancel()
        else:
            obs.count["real_run"] += 1

            async def main():
                c.run(intro=intro) if asCmd else c.run("top", intro=intro)
                for _ in range(100000):
                    if not c.running:
                        return
                    await asyncio.sleep(1)
                check(False, "the session never ended")
            vlib.run(main())
        check(not c.running, "still running after its end")
        obs.seen(tuple(map(str, blocks)))
        obs.count["reports"] += sum(1 for e in log if e[0] == "err")
        obs.count["already_running"] += sum(1 for e in log if e[0] == "again")
        if log != want:
            k = next((i for i, (a, b) in enumerate(zip(log, want)) if a != b), min(len(log), len(want)))
            check(False, "the session did something else than what was entered", at=k, got=log[k:k + 4], want=want[k:k + 4],
                  inputs=["".join(b[0]) for b in blocks], cls="cmd" if asCmd else "cli", err=c.stderr.getvalue()[-300:])
        if left:
            obs.count["left_early"] += 1
            check(not ended and feed.reads == reads, "the session read on after it was told to exit", reads=feed.reads, want=reads)
        else:
            check(len(ended) == 1, "the session ended by itself", ended=len(ended))
        if sess:
            obs.count["second_session"] += 1
        if left:
            break       # typed-ahead input may be left in the reader
    obs.sample({"inputs": ["".join(b[0]) for b in blocks][:8], "log": [str(e) for e in log[:8]]})
