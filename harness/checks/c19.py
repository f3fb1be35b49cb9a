"""C19: command line interfaces running side by side do not affect each other."""
import asyncio
import io
import os
import random
import re
import shutil
import tempfile

import vlib
from vlib import check, make_cli, snap, NessaidCmd, CliToken
import gram
from gram import Gen, Model
import c01
import c05
import c12
import c16
import c17

PID = "C19"
CASES = {"quick": 260, "thorough": 9000}
RULE = ("two to five CLI objects of four kinds (grammar CLIs entering lines programmatically with waiting token classes and actions, often "
        "sharing one compiled grammar; typed sessions of a CLI and a command class; sessions with files, input and nested contexts; "
        "sessions switching timing and profiling) play fixed scripts alone, and then three times together in one event loop with random "
        "delays of keys, actions and token methods, created all before or when they start; every event, result and output of each one is "
        "compared with its run alone; non-trivial = distinct interleavings of the events of the objects")
REQUIRED = {"interleavings": 320, "switches": 13000, "same_class": 170, "shared_grammar": 41,
            "in_match_switches": 11000, "files": 70, "profiled": 31, "classes_of_one_grammar": 18, "events": 4200,
            "late_created": 140}
ASSUMPTIONS = ["times in reports and profile tables are not compared", "handlers and token classes keep their state in their CLI object"]


class Bench:
    """one scheduled run: who did what when"""

    def __init__(self, rng):
        self.rng = rng          # None: alone
        self.order = []
        self.inside = 0

    async def pause(self, who, inside=False):
        self.order.append(who)
        if inside:
            self.inside += 1
        if self.rng:
            await asyncio.sleep(self.rng.choice([0, 0, 0.01, 0.5, 1, 2]))


class SlowToken(CliToken):

    def __init__(self, name, helpstring="", cli=None, **kw):
        super().__init__(name, helpstring, cli, **kw)

    async def match(self, s, cli):
        await cli.bench.pause(cli.who, True)
        seen = cli.memory.setdefault("m" + s, len(cli.memory))
        if s.startswith("w") and len(s) > 1:
            return vlib.toks.MATCH_SUCCESS
        return vlib.toks.MATCH_PARTIAL if s == "w" else vlib.toks.MATCH_FAILURE

    async def complete(self, s, cli):
        await cli.bench.pause(cli.who, True)
        words = [w for w in ["wait", "well", "wx"] if w.startswith(s)]
        return len(words), words

    async def get_value(self, match_string=None, cli=None):
        await cli.bench.pause(cli.who, True)
        cli.memory[match_string] = cli.memory.get(match_string, 0) + 1
        return [match_string, cli.who_value, cli.memory[match_string]]

    @property
    def cacheable(self):
        return False


class OtherToken(SlowToken):
    """another class of the same name, in another CLI class"""

    async def match(self, s, cli):
        await cli.bench.pause(cli.who, True)
        if s == "wx":
            return vlib.toks.MATCH_FAILURE
        return await super().match(s, cli)

    async def complete(self, s, cli):
        await cli.bench.pause(cli.who, True)
        words = [w for w in ["wander", "wake"] if w.startswith(s)]
        return len(words), words

    async def get_value(self, match_string=None, cli=None):
        return ["other"] + await super().get_value(match_string, cli)


OtherToken.__name__ = "SlowToken"


class LCli(c12.HCli):

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS) + [SlowToken]

    async def aev(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        await self.bench.pause(self.who)
        self.log.append(("end", ident))
        return "R%s" % (ident,)


class MCli(LCli):
    """a class of its own with other token classes and commands"""

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS) + [OtherToken]

    def get_cli_hook(self, func_name):
        return "m_" + func_name if hasattr(self, "m_" + func_name) else func_name

    def m_ev(self, ident, *args):
        self.log.append(("mcli",))
        return self.ev(ident, *args)


SLOW = '''
token W SlowToken();
wtop[$pa, $pb = 3]: top[$pa, $pb] | "wa" W << call aev(9000, $2); >> | "ww" W W << $w = $2; call aev(9001, $w, $3); call ev(9002, $w); >>
 | << $wl = list(); >> "wl" ((W << append($wl, $1); call aev(9003, $wl); >>) * (1:3)) << call ev(9004, $wl); >>
 | "wo" {W << $q = $1; >>, "opt" << call aev(9005, $q); >>} << call ev(9006, $q); >>;
'''


class Lines:
    """programmatic use of one grammar CLI"""

    def __init__(self, rng, text, spec, steps, label):
        self.text, self.spec, self.steps, self.label = text, spec, steps, label
        self.cls = rng.choice([LCli, LCli, MCli])

    def make(self, bench, who, d):
        # alone means with a grammar of its own too
        c = make_cli(self.spec if bench.rng else vlib.compile_grammar(self.text), "wtop", cls=self.cls)
        c.bench, c.who, c.who_value, c.memory = bench, who, self.label, {}
        return c

    async def play(self, c, bench, who, res):
        for what, line, toks in self.steps:
            await bench.pause(who)
            del c.log[:]
            for s in (c.vout, c.verr):
                s.seek(0), s.truncate()
            if what == "run":
                r = (await c.exec_line(line), tuple(c.log))
            elif what == "args":
                a = [1, "x"]
                r = c12.picture(c, await c.match(list(toks), dry_run=False, last_token_complete=True, arglist=a), False) + (snap(a),)
            elif what in ("dry", "dryc"):
                r = c12.picture(c, await c.match(list(toks), dry_run=True, last_token_complete=what == "dryc"), True)
            elif what == "match":
                r = c12.picture(c, await c.match(list(toks), dry_run=False, last_token_complete=True), False)
            else:
                ok, err, t = c.tokenize(line)
                r = (ok, err, tuple(str(x) for x in t))
            res.append((what, line, r, c.vout.getvalue(), c.verr.getvalue()))


class Waits:
    """handlers of the session classes wait as the schedule says"""

    async def _slow(self, v):
        self.add("slow", v)
        await self.bench.pause(self.who)
        self.add("slow-end", v)

    def add(self, *ev):
        self.bench.order.append(self.who)
        super().add(*ev)


class SCli(Waits, c16.ACli):
    pass


class SCmd(Waits, c16.ACmd):
    pass


class TCmd(Waits, c16.ACmd):
    """
    """


SCmd.__doc__ = TCmd.__doc__ = None


class GCmd(Waits, c17.FCmd):

    async def do_deeper(self, v):
        r""" "deeper" { S << $v = $1; >> } """
        self.add("deeper", v)
        kw = {"filename": os.path.join(self.dir, v)} if v else {}
        await self.enter_context(GCmd, prompt="sub> ", **kw)
        for a in ("log", "dir", "leave_on", "shown", "prompted", "bench", "who"):
            setattr(self.child_cli, a, getattr(self, a))


GCmd.__doc__ = None

MASK = [(re.compile(r"^(start|end|Time taken): .*$", re.M), r"\1"),
        (re.compile(r"^ +\d+ function calls.*?^ncalls.*?(?=^Token Hit)|^ +\d+ function calls.*?(?=^Token Hit)", re.M | re.S), "PROFILE\n"),
        (re.compile(r"^Another profiler is active$", re.M), "PROFILE\n"),
        (re.compile(r" object at 0x[0-9a-f]+"), "")]


def mask(s):
    for r, t in MASK:
        s = r.sub(t, s)
    return re.sub(r"\n\n+PROFILE|PROFILE\n+", "PROFILE\n", s)


class Typed:
    """a typed session"""

    def __init__(self, cls, steps, files=None, start=None, hooks=False, cmdrun=False):
        self.cls, self.steps, self.files, self.start, self.hooks, self.cmdrun = cls, steps, files, start, hooks, cmdrun
        self.spec = None

    def make(self, bench, who, d):
        kw = dict(loop=vlib.loop(), prompt="%s> " % self.cls.__name__, stdin=vlib.KeyFeed(list(self.steps)), stdout=io.StringIO())
        log = []
        kw["stderr"] = c16.ErrTap(log) if self.files is None else c17.FErrTap(log)
        if self.start:
            kw["filename"] = os.path.join(d, self.start)
        if issubclass(self.cls, NessaidCmd):
            c = self.cls(disable_default_hooks=not self.hooks, **kw)
        else:
            self.spec = self.spec or vlib.compile_grammar(c16.TEXT)
            c = self.cls(self.spec, **kw)
        c.log, c.bench, c.who, c.leave_on, c.dir, c.shown, c.prompted = log, bench, who, "end", d, True, True

        def on_end(fd, rl):
            for x in vlib.stack(c):
                x.exit_loop()
            return ["\r"]
        c.stdin.on_end = on_end
        return c

    async def play(self, c, bench, who, res):
        a = () if issubclass(self.cls, NessaidCmd) else ("top",)
        if self.cmdrun:
            c.run(*a)
            for _ in range(10 ** 6):
                if not c.running:
                    break
                await asyncio.sleep(0.3)
        else:
            await c.cmdloop(*a)
        res.append((tuple(c.log), mask(c.stdout.getvalue()), mask(c.stderr.getvalue()), len(c.stdin.steps)))


def typed_lines(rng, n, hooks):
    steps = []
    for _ in range(n):
        x = rng.random()
        if x < 0.06:
            steps.append(list(rng.choice(["", "alpha x", "two a"])) + [vlib.rlkey.CTRL_C])
        elif x < 0.14:
            steps.append(list(rng.choice(["al", "num", "", "two a ", "ma", "s"])) + [vlib.rlkey.TAB] * rng.randint(1, 3) + [vlib.rlkey.CTRL_C])
        elif x < 0.2 and hooks:
            steps.append(rng.choice(["cmd-timing on", "cmd-timing off", "cmd-profiling on", "cmd-profiling off"]))
        elif x < 0.24:
            steps.append("alpha a\\")
            steps.append(" ")
        else:
            l = c16.a_line(rng)
            if l.strip() not in ("again",):
                steps.append(l)
    return steps


def gen_lines_world(rng):
    while True:
        gen = Gen(rng, c01.configs(rng, rng.randrange(10 ** 6)))
        if rng.random() < 0.25:
            g = c05.program(rng)
        else:
            g = gen.build()
            gen.add_actions(0.5)
        if not set(g.tokens) & {"Vs", "Vr", "Vi", "Vj", "Vd", "Vb", "Va", "W", "par", "top", "wtop"}:
            break
    text = gram.render(g) + c12.EXTRA + SLOW
    lines = c12.lines_of(rng, Model(g))
    wlines = []
    for f in ("wa wait", "wa wx", "wa zz", "wa w", "ww well wait", "ww w", "wl wx wx", "wl wait well wx", "wl", "wo wait opt", "wo opt wx", "wo opt",
              "wa we", "ww wx wx wx"):
        wlines.append((f, f.split()))

    def steps():
        out = []
        for line, toks in rng.sample(lines, min(len(lines), 8)) + rng.sample(wlines, 6):
            k = rng.choice(["run", "run", "match", "args", "dry", "dryc"])
            if not toks:
                k = rng.choice(["run", "split"])
            if k == "dry" and toks[-1].endswith("\\"):
                k = "dryc"
            out.append((k, line, toks))
        rng.shuffle(out)
        return out
    return text, steps


def gen_sessions(rng, obs, d):
    n = rng.choice([2, 2, 3, 4, 5])
    res = []
    worlds = [gen_lines_world(rng)]
    if rng.random() < 0.4:
        worlds.append(gen_lines_world(rng))
    specs = {}
    kinds = rng.choice([["lines"], ["lines"], ["cli", "cmd"], ["timed"], ["files"], ["lines", "lines", "cli", "cmd", "timed", "files"]])
    for i in range(n):
        k = rng.choice(kinds)
        if k == "lines":
            w = rng.randrange(len(worlds))
            text, steps = worlds[w]
            if rng.random() < 0.6:
                if w in specs:
                    # several objects made from one compiled grammar
                    obs.count["shared_grammar"] += 1
                spec = specs.setdefault(w, vlib.compile_grammar(text))
            else:
                spec = vlib.compile_grammar(text)
            res.append(Lines(rng, text, spec, steps(), rng.choice(["A", "B", "C"])))
        elif k == "cli":
            res.append(Typed(SCli, typed_lines(rng, rng.randint(5, 15), False), cmdrun=rng.random() < 0.3))
        elif k == "cmd":
            res.append(Typed(SCmd, typed_lines(rng, rng.randint(5, 15), False), cmdrun=rng.random() < 0.3))
        elif k == "timed":
            st = typed_lines(rng, rng.randint(5, 12), True)
            if rng.random() < 0.7:
                st[0:0] = [rng.choice(["cmd-timing on", "cmd-profiling on", "cmd-profiling on"])]
            if "cmd-profiling on" in st:
                obs.count["profiled"] += 1
            res.append(Typed(TCmd, st, hooks=True))
        else:
            obs.count["files"] += 1
            names = ["s%d_f%d" % (i, j) for j in range(rng.randint(1, 4))]
            files = {}
            for j in range(len(names) - 1, -1, -1):
                ls = []
                for _ in range(rng.choice([1, 3, 6])):
                    ls += c17.gen_line(rng, names[j + 1:], True).split("\n")
                while ls and ls[-1].rstrip().endswith("\\"):
                    ls.pop()
                ls = [l for l in ls if l.strip() != "again"]
                files[names[j]] = ls
                with open(os.path.join(d, names[j]), "w") as fd:
                    fd.write("\n".join(ls) + "\n")
            st = []
            for _ in range(rng.randint(3, 9)):
                st += c17.gen_line(rng, names, True).split("\n")
            res.append(Typed(GCmd, st, files=files, start=rng.choice(names + [None])))
    return res


def run_alone(s, d, who):
    vlib.loop().executor_delay = None
    b = Bench(None)
    c = s.make(b, who, d)
    res = []
    vlib.run(s.play(c, b, who, res))
    return res


def run_case(rng, idx, obs):
    d = tempfile.mkdtemp(prefix="c19-")
    try:
        _case(rng, idx, obs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        vlib.loop().executor_delay = None


def _case(rng, idx, obs, d):
    sessions = gen_sessions(rng, obs, d)
    kinds = [s.cls for s in sessions]
    by_spec = {}
    for s in sessions:
        if s.spec is not None:
            by_spec.setdefault(id(s.spec), set()).add(s.cls)
    obs.count["classes_of_one_grammar"] += sum(1 for v in by_spec.values() if len(v) > 1)
    obs.count["same_class"] += len(kinds) - len(set(kinds))
    want = [run_alone(s, d, i) for i, s in enumerate(sessions)]
    for r in want:
        obs.count["events"] += sum(len(x[0]) if isinstance(x[0], tuple) else 1 for x in r)
    for rep in range(3):
        sched = random.Random(rng.randrange(2 ** 48))
        b = Bench(sched)
        vlib.loop().executor_delay = lambda: sched.choice([0, 0, 0.01, 1, 3])
        late = sched.random() < 0.4
        clis = None if late else [s.make(b, i, d) for i, s in enumerate(sessions)]
        res = [[] for _ in sessions]

        async def one(i):
            await asyncio.sleep(sched.choice([0, 0, 0.01, 2, 5]))
            c = sessions[i].make(b, i, d) if late else clis[i]
            await sessions[i].play(c, b, i, res[i])

        async def main():
            ts = [asyncio.ensure_future(one(i)) for i in range(len(sessions))]
            try:
                await asyncio.gather(*ts)
            finally:
                for t in ts:
                    t.cancel()
        if late:
            obs.count["late_created"] += 1
        vlib.run(main())
        obs.ev()
        sw = sum(1 for x, y in zip(b.order, b.order[1:]) if x != y)
        obs.count["switches"] += sw
        obs.count["in_match_switches"] += min(sw, b.inside)
        if sw > 2:
            obs.count["interleavings"] += 1
            obs.seen((idx, tuple(b.order)))
        for i, s in enumerate(sessions):
            if res[i] != want[i]:
                diff = []
                for k, (x, y) in enumerate(zip(res[i], want[i])):
                    for a, w in zip(x, y):
                        if a != w:
                            if isinstance(a, str) and isinstance(w, str):
                                p = next((j for j, (u, v) in enumerate(zip(a, w)) if u != v), min(len(a), len(w)))
                                a, w = a[max(0, p - 60):p + 100], w[max(0, p - 60):p + 100]
                            elif isinstance(a, tuple) and isinstance(w, tuple):
                                p = next((j for j, (u, v) in enumerate(zip(a, w)) if u != v), min(len(a), len(w)))
                                a, w = a[p:p + 3], w[p:p + 3]
                            diff.append((k, "together", a, "alone", w))
                check(False, "an object behaved otherwise next to others than alone", who=i, kinds=[x.__name__ for x in kinds],
                      diff=diff[:3], lengths=(len(res[i]), len(want[i])), script=str(s.steps)[:600])
    obs.sample({"kinds": [k.__name__ for k in kinds], "order": b.order[:60]})
