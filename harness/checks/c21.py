"""C21: all output goes to the configured streams and nowhere else."""
import asyncio
import collections
import io
import os
import re
import shutil
import sys
import tempfile
import tracemalloc

import vlib
from vlib import check, NessaidCmd, NessaidCli, CliToken
from vlib import rlkey
import c16

PID = "C21"
CASES = {"quick": 1600, "thorough": 30000}
RULE = ("CLI classes and command classes with both streams configured, one, or none run random sessions and direct calls of everything that "
        "writes: printing and failing handlers, the grammar's print and input, wrong, illegal and incomplete lines, TAB, masked input, "
        "files and missing files, contexts (with a broken grammar, a failing start), timing, profiling, memory and system reports, mixed "
        "or failing token classes, unreadable directories; the process's streams and file descriptors are recorded; non-trivial = distinct "
        "(kind, stream, configuration) of a piece of output that was followed to its stream")
REQUIRED = {"pieces": 2900, "lines": 3900, "do_ask": 220, "do_badctx": 82, "do_context": 100, "do_pin": 260,
            "do_tab": 360, "do_locked": 120, "do_memory": 37, "do_switch": 99, "do_lostctx": 31, "do_file": 58,
            "err_creating": 230, "err_file": 270, "err_illegal": 180, "err_mixed": 85, "err_parsing": 31,
            "err_raised": 660, "err_result": 450, "profiled": 14, "timed": 31, "real_run": 49, "call_args": 130,
            "call_exec": 340, "call_dry": 190}
ASSUMPTIONS = ["stream objects are true in a boolean context, as nessaid_readline demands",
               "a command class is created, not a bare grammar compiled, when errors of a grammar are looked at"]

REPORTS = [
    ("Result:", "result"), ("Error: ", None), ("Error:", None), ("Failure tokenizing input line:", "illegal"),
    ("Exception tokenizing input line:", "illegal"),
    ("Exception executing binding call:", "raised"), ("Exception processing input file:", "file"),
    ("Exception running context:", "context"), ("Exception parsing input line:", "parsing"),
    ("Exception creating token object from token def:", "creating"),
    ("WARNING: A mix of async and non async functions", "mixed"), ("This will most probably end up in failures", None),
    ("  File ", None), ("    ", None), ("Failed to parse binding code", "binding"), ("Line: ", "syntax"), ("Code:", None),
]
REPORT_RE = re.compile(r"^(Result:|Error:|Failure tokenizing|Exception |WARNING: A mix|  File \"|Failed to parse binding|Line: \d+ Postion|"
                       r"Syntax error|Traceback)", re.M)


class Tap(io.StringIO):
    """a stream which remembers who wrote first, for the report"""

    def __init__(self, name):
        super().__init__()
        self.label = name

    def __bool__(self):
        return True


class EmptyTap(Tap):
    """a stream whose truth says nothing, like one which counts its lines"""

    def __bool__(self):
        return False


class Env:

    def __init__(self, d):
        self.dir = d
        self.n = 0
        self.out = []       # pieces which must appear on the output stream, in order
        self.err = []
        self.secret = []
        self.kinds = collections.Counter()

    def mark(self, what):
        self.n += 1
        return "<%s%d>" % (what, self.n)


class FailToken(CliToken):

    def __init__(self, name, helpstring=None, cli=None):
        raise ValueError("no such thing")


class MixToken(CliToken):

    def complete(self, s, cli=None):
        return 0, []

    def get_value(self, s=None, cli=None):
        return s

    async def match(self, s, cli=None):
        return vlib.toks.MATCH_SUCCESS


class Work:
    """the handlers of both kinds of classes"""

    def _say(self, v):
        m = self.env.mark("say")
        self.env.out.append(m + " " + v)
        self.print(m, v)

    async def _asay(self, v):
        self._say(v)
        await asyncio.sleep(1)
        m = self.env.mark("late")
        self.env.out.append(m)
        self.print(m)

    def _grumble(self, v):
        m = self.env.mark("grumble")
        self.env.err.append(m + " " + v)
        self.error(m, v)

    def _direct(self, v):
        m = self.env.mark("direct")
        self.env.out.append(m)
        self.env.err.append(m)
        self.stdout.write(m + "\n")
        self.stderr.write(m + "\n")

    def _boom(self, v):
        raise ValueError("boom " + v)

    async def _crash(self, v):
        await asyncio.sleep(0)
        raise KeyError("crash " + v)

    async def _ask(self):
        await self.input("in: ")

    async def _pin(self):
        await self.input("pin: ", show_char=False)

    def _run(self, name):
        self.add_file_to_execute(os.path.join(self.env.dir, name))

    def _note(self, v):
        self.env.out.append("P: " + str(v))


class Deep:

    async def do_deeper(self):
        r""" "deeper" """
        await self.enter_context(OCmd, prompt="sub> ", disable_default_hooks=False)
        self.child_cli.env = self.env

    async def do_badctx(self, v):
        r""" "badctx" ("syntax" | "binding" | "refs") << $v = $2; >> """
        await self.enter_context({"syntax": SyntaxCmd, "binding": BindCmd, "refs": RefCmd}[v], prompt="bad> ")

    async def do_lostctx(self):
        r""" "lostctx" """
        await self.enter_context(LostCmd, prompt="lost> ")


class OCmd(Deep, Work, NessaidCmd):
    r"""
    token S StringToken();
    token U NoSuchClass();
    token F FailToken();
    token P PathToken();
    """

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS) + [FailToken]

    def do_say(self, v):
        r""" "say" S << $v = $2; >> """
        self._say(v)

    async def do_asay(self, v):
        r""" "slow" S << $v = $2; >> """
        await self._asay(v)

    def do_prt(self, v):
        r""" "prt" S << $v = $2; call _note($v); print("P:", $v); >> """

    def do_grumble(self, v):
        r""" "grumble" S << $v = $2; >> """
        self._grumble(v)

    def do_direct(self, v):
        r""" "direct" S << $v = $2; >> """
        self._direct(v)

    def do_boom(self, v):
        r""" "boom" S << $v = $2; >> """
        self._boom(v)

    async def do_crash(self, v):
        r""" "crash" S << $v = $2; >> """
        await self._crash(v)

    async def do_ask(self):
        r""" "ask" """
        await self._ask()

    def do_gask(self, v):
        r""" "gask" << $v = input("in: "); >> """

    async def do_pin(self):
        r""" "pin" """
        await self._pin()

    def do_run(self, v):
        r""" "run" S << $v = $2; >> """
        self._run(v)

    def do_unk(self):
        r""" "unk" U """

    def do_fail(self):
        r""" "fail" F """

    def do_path(self):
        r""" "path" P """


class SyntaxCmd(OCmd):
    r"""
    """

    def do_x(self, v):
        r""" "x" ( """


class BindCmd(OCmd):
    r"""
    """

    def do_x(self, v):
        r""" "x" << $v = ; >> """


class RefCmd(OCmd):
    r"""
    """

    def do_x(self, v):
        r""" "x" & """


class LostCmd(OCmd):
    r"""
    """

    async def preloop(self):
        raise OSError("cannot start")


class MixCmd(OCmd):
    r"""
    """

    def get_token_classes(self):
        return super().get_token_classes() + [MixToken]


for _c in (SyntaxCmd, BindCmd, RefCmd, LostCmd, MixCmd):
    _c.__doc__ = None

OTEXT = r"""
token S StringToken(); token U NoSuchClass(); token F FailToken(); token P PathToken();
top: "say" S << call _say($2); >>
   | "slow" S << call _asay($2); >>
   | "prt" S << $v = $2; call _note($v); print("P:", $v); >>
   | "grumble" S << call _grumble($2); >>
   | "direct" S << call _direct($2); >>
   | "boom" S << call _boom($2); >>
   | "crash" S << call _crash($2); >>
   | "ask" << call _ask(); >>
   | "gask" << $v = input("in: "); >>
   | "pin" << call _pin(); >>
   | "run" S << call _run($2); >>
   | "unk" U | "fail" F | "path" P
   ;
"""


class OCli(Work, NessaidCli):

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS) + [FailToken]


class MixCli(OCli):

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS) + [FailToken, MixToken]


class Watch:
    """the process's streams and file descriptors"""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__
        self.out, self.err = Tap("process stdout"), Tap("process stderr")
        self.fd = tempfile.TemporaryFile()
        self.keep = os.dup(1), os.dup(2)
        for n in (1, 2):
            os.dup2(self.fd.fileno(), n)
        sys.stdout, sys.stderr = self.out, self.err
        sys.__stdout__, sys.__stderr__ = Tap("x"), Tap("x")
        return self

    def __exit__(self, *a):
        self.under = sys.__stdout__.getvalue() + sys.__stderr__.getvalue()
        sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__ = self.saved
        for n in (1, 2):
            os.dup2(self.keep[n - 1], n)
            os.close(self.keep[n - 1])
        self.fd.seek(0)
        self.raw = self.fd.read()
        self.fd.close()


GOOD = ["say", "slow", "prt", "grumble", "direct"]
WORDS = ["x", "y1", "12", '"q w"', "alpha"]


def a_line(rng, files, asCmd, deep):
    """-> (line, kinds of reports, tags)"""
    x = rng.random()
    w = rng.choice(WORDS)
    if x < 0.4:
        return rng.choice(GOOD) + " " + w, [], "good"
    if x < 0.5:
        return rng.choice(["boom ", "crash "]) + w, ["raised"], "raising"
    if x < 0.6:
        return rng.choice(["zzz", "say", "say a b", "unk 5", "boom", "run", "deeper 1", "ask now"]), ["result"], "failed"
    if x < 0.66:
        return rng.choice(["say \\x", "\\", "boom a \\ b"]) + "y", ["illegal"], "illegal"
    if x < 0.7:
        return rng.choice(["", "# say x", "   "]), [], "empty"
    if x < 0.75 and files:
        f = rng.choice(sorted(files) + ["missing"])
        return "run " + f, ["file"] if f == "missing" else [], "file"
    if x < 0.78:
        return "unk U", [], "unknown-class"
    if asCmd and x < 0.84:
        return rng.choice(["cmd-timing on", "cmd-timing on", "cmd-timing off", "cmd-profiling on", "cmd-profiling off"]), [], "switch"
    if asCmd and x < 0.87:
        return "system-info", [], "system"
    if asCmd and x < 0.92 and deep:
        return "badctx " + rng.choice(["syntax", "binding", "refs"]), ["raised"], "badctx"
    if asCmd and x < 0.94 and deep:
        return "lostctx", ["parsing"], "lostctx"
    return "say " + w, [], "good"


def err_kinds(text, env, broken):
    """kinds of reports on the error stream, and what is none of them"""
    kinds, other = collections.Counter(), []
    marks = list(env.err)
    tracebacks = broken or "Exception parsing input line:" in text or "Exception running context:" in text
    for line in text.split("\n")[:-1]:
        if not line.strip():
            if not tracebacks:
                other.append(line)
            continue
        if marks and line == marks[0]:
            marks.pop(0)
            continue
        for k, name in REPORTS:
            if line.startswith(k):
                if name:
                    kinds[name] += 1
                break
        else:
            other.append(line)
    if broken:
        # the text of the broken grammar is quoted
        other = [l for l in other if "<" in l and ">" in l and re.search(r"(say|late|grumble|direct)\d", l)]
    return kinds, other, marks


def in_order(text, pieces):
    at = 0
    for p in pieces:
        k = text.find(p, at)
        if k < 0:
            return p
        at = k + len(p)
    return None


def judge(w, env, conf, c, obs, want, strict=True):
    """looks at every stream once the work is done"""
    out = w.out if c.tap_out is None else c.tap_out
    err = w.err if c.tap_err is None else c.tap_err
    check(not w.raw and not w.under, "something was written to the process's file descriptors", raw=w.raw[:300], under=w.under[:300])
    if c.tap_out is not None:
        check(not w.out.getvalue(), "something was written to the process's standard output", text=w.out.getvalue()[:400], conf=conf)
    if c.tap_err is not None:
        check(not w.err.getvalue(), "something was written to the process's standard error", text=w.err.getvalue()[:400], conf=conf)
    o, e = out.getvalue(), err.getvalue()
    miss = in_order(o, env.out)
    check(miss is None, "output is missing on the output stream", missing=miss, out=o[-500:], in_err=bool(miss) and miss in e)
    m = REPORT_RE.search(o)
    check(m is None, "an error report is on the output stream", text=o[m.start():m.start() + 200] if m else "")
    for t in re.findall(r"<(?:say|late)\d+>", e):
        check(False, "output of a handler is on the error stream", text=t)
    for t in re.findall(r"<grumble\d+>", o):
        check(False, "an error of a handler is on the output stream", text=t)
    for s in env.secret:
        check(s not in o and s not in e, "masked input was shown", secret=s)
    broken = any(want[k] for k in ("binding", "syntax"))
    check(e.endswith("\n") or not e, "an unfinished line is on the error stream", text=e[-100:])
    kinds, other, marks = err_kinds(e, env, broken or want["mixed"])
    check(not marks, "an error of a handler is missing on the error stream", missing=marks[:1], err=e[-300:])
    for k in ("binding", "syntax"):
        # how a broken grammar is described is left open
        kinds.pop(k, None), want.pop(k, None)
    check(not other, "something else was written to the error stream", text=other[:2])
    if strict:
        check(kinds == +want, "the reports on the error stream are not those of the lines", got=dict(kinds), want=dict(+want), err=e[-600:])
    else:
        for k in want:
            check(kinds[k] == want[k] or (want[k] and kinds[k]), "the reports on the error stream are not those of the lines",
                  got=dict(kinds), want=dict(+want), err=e[-600:])
    for k, n in kinds.items():
        obs.count["err_" + k] += n
        obs.seen(("err", k, conf))
    obs.count["pieces"] += len(env.out) + len(env.err)
    for p in env.out:
        obs.seen(("out", re.sub(r"\d+>.*", "", p), conf))
    obs.ev()
    return o, e


def make(rng, conf, env, **kw):
    asCmd = rng.random() < 0.6
    to, te = Tap("output"), rng.choice([Tap, EmptyTap])("errors")
    kw.update(loop=vlib.loop(), prompt="pr> ", stdin=vlib.KeyFeed())
    if conf in ("both", "out"):
        kw["stdout"] = to
    if conf in ("both", "err"):
        kw["stderr"] = te
    mixed = rng.random() < 0.12
    if asCmd:
        mem = rng.random() < 0.05
        c = (MixCmd if mixed else OCmd)(do_tracemalloc=mem, show_grammar=rng.random() < 0.1, enable_bell=rng.random() < 0.3, **kw)
        c.mem = mem
    else:
        c = (MixCli if mixed else OCli)(vlib.compile_grammar(OTEXT), enable_bell=rng.random() < 0.3, **kw)
        c.mem = False
    c.env, c.asCmd, c.mixed = env, asCmd, mixed
    c.tap_out = to if conf in ("both", "out") else None
    c.tap_err = te if conf in ("both", "err") else None
    return c


def run_case(rng, idx, obs):
    d = tempfile.mkdtemp(prefix="c21-")
    listdir = os.listdir
    try:
        os.mkdir(os.path.join(d, "locked"))

        def guarded(p="."):
            if os.path.basename(os.path.normpath(str(p))) == "locked":
                raise PermissionError(13, "Permission denied", str(p))
            return listdir(p)
        os.listdir = guarded
        x = rng.random()
        conf = rng.choice(["both"] * 7 + ["out", "err", "none"])
        if x < 0.65:
            session(rng, obs, d, conf)
        else:
            direct(rng, obs, d, conf)
    finally:
        os.listdir = listdir
        if tracemalloc.is_tracing():
            tracemalloc.stop()
        shutil.rmtree(d, ignore_errors=True)


def session(rng, obs, d, conf):
    env = Env(d)
    want = collections.Counter()
    files, order = {}, []
    for j in range(rng.choice([0, 0, 1, 2])):
        ls = [a_line(rng, {}, False, False) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.3:
            v = "secret%dz" % rng.randrange(10 ** 6)
            env.secret.append(v)
            at = rng.randint(0, len(ls))
            ls[at:at] = [("pin", [], "pin"), (v, [], "file-secret")]
        files["f%d" % j] = ls
        with open(os.path.join(d, "f%d" % j), "w") as fd:
            fd.write("\n".join(l[0] for l in ls) + "\n")
    start = rng.choice(sorted(files) + [None, "missing"]) if rng.random() < 0.3 else None
    with Watch() as w:
        c = make(rng, conf, env, **({"filename": os.path.join(d, start)} if start else {}))
        feed = c.stdin
        if c.mixed:
            want["mixed"] += 1
        depth = 0
        tags = []

        def account(lines):
            for l, k, tag in lines:
                want.update(k)
                tags.append(tag)
                if tag == "badctx":
                    want["binding" if l.endswith("binding") else "syntax"] += 1
                if tag == "file" and l[4:] in files:
                    account(files[l[4:]])
        if start == "missing":
            want["file"] += 1
        elif start:
            account(files[start])
        steps = []
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if c.mem and not depth and rng.random() < 0.3:
                steps.append(rng.choice(["tracemalloc", "tracemalloc 3", "tracemalloc delta 2"]))
                tags.append("memory")
            elif x < 0.08:
                steps.append(list("s") + [rlkey.TAB] * 2 + [rlkey.CTRL_C])
                tags.append("tab")
            elif x < 0.11:
                steps.append(list('path "%s/locked/' % d) + [rlkey.TAB] * 2 + [rlkey.CTRL_C])
                tags.append("locked")
            elif x < 0.17:
                s = "secret%dz" % rng.randrange(10 ** 6)
                steps += ["pin", s]
                env.secret.append(s)
                tags.append("pin")
            elif x < 0.22:
                steps += [rng.choice(["ask", "gask"]), "answer"]
                tags.append("ask")
            elif x < 0.26 and c.asCmd and depth < 3:
                steps.append("deeper")
                depth += 1
                tags.append("context")
            elif x < 0.29 and c.asCmd and depth:
                steps.append(rng.choice(["exit", "quit"]))
                depth -= 1
            elif x < 0.31:
                steps.append(list("say zzqq") + [rlkey.CTRL_C])
            elif x < 0.36 and c.asCmd:
                # the class of a token cannot be made: reported once per object
                steps.append("fail nothing")
                tags.append("fail")
            else:
                l = a_line(rng, files, c.asCmd, True)
                account([l])
                steps.append(l[0])
        feed.steps.extend(steps)
        ends = []

        def on_end(fd, rl):
            ends.append(1)
            check(len(ends) < 3, "the loop does not end")
            for x in vlib.stack(c):
                x.exit_loop()
            return ["\r"]
        feed.on_end = on_end
        a = () if c.asCmd else ("top",)
        if rng.random() < 0.1:
            obs.count["real_run"] += 1
            c.run(*a, intro="INTRO")
        else:
            vlib.run(c.cmdloop(*a, intro="INTRO"))
    env.out.insert(0, "INTRO")
    want["result"] += tags.count("fail")
    if "fail" in tags:
        # once for each object it was entered in
        e = (w.err if c.tap_err is None else c.tap_err).getvalue()
        n = e.count("Exception creating token object")
        check(1 <= n <= 2 * tags.count("fail"), "a token class that cannot be created is not reported", n=n)
        want["creating"] = n
    o, e = judge(w, env, conf, c, obs, want)
    for s in steps:
        if isinstance(s, str):
            obs.count["lines"] += 1
    echo(o, steps, env, c)
    if "tab" in tags:
        check(re.search(r"say", o) and re.search(r"^slow\b", o, re.M), "no suggestions on the output stream")
    if "locked" in tags:
        check("PermissionError on" in o, "the unreadable directory is not reported on the output stream", out=o[-300:])
    if "system" in tags:
        check("need psutil" in o or "Boot Time" in o, "no system report on the output stream")
    if "memory" in tags:
        check("Total allocated size" in o, "no memory report on the output stream")
    for t in tags:
        obs.count["do_" + t] += 1
        obs.seen((t, conf, c.asCmd))
    if "Time taken:" in o:
        obs.count["timed"] += 1
    if "function calls" in o:
        obs.count["profiled"] += 1
    if depth:
        obs.count["left_open"] += 1


def echo(o, steps, env, c):
    """prompts and what was typed are on the output stream, in order"""
    pieces = []
    masked = False
    for s in steps:
        if not isinstance(s, str):
            continue
        if s in env.secret:
            pieces.append("pin: " + "*" * len(s))
            continue
        if s == "answer":
            pieces.append("in: answer")
            continue
        if s:
            pieces.append("> " + s)
    miss = in_order(o, pieces)
    check(miss is None, "prompt or typed line is missing on the output stream", missing=miss, out=o[-400:])


def direct(rng, obs, d, conf):
    """calls without a session"""
    env = Env(d)
    want = collections.Counter()
    with Watch() as w:
        c = make(rng, conf, env)
        if c.mixed:
            want["mixed"] += 1
        if not c.asCmd:
            c.enter_grammar("top")
        for _ in range(rng.randint(3, 12)):
            l, k, tag = a_line(rng, {}, c.asCmd, False)
            if tag in ("switch",) and rng.random() < 0.5:
                continue
            how = rng.choice(["exec", "exec", "match", "dry", "args", "split", "file", "complete", "hook", "fail"])
            if how == "exec":
                if l.startswith("#") or l.rstrip() == "\\":
                    continue
                r = vlib.run(c.exec_line(l))
                want.update(k)
                if tag in ("raising", "good", "unknown-class", "switch", "system"):
                    check(r == 0, "a good line was not run", line=l, rc=r)
            elif how == "match":
                if tag in ("illegal", "empty"):
                    continue
                vlib.run(in_grammar(c, lambda: c.match([str(t) for t in c.tokenize(l)[2]], dry_run=False, last_token_complete=True)))
                want.update(x for x in k if x != "result")
            elif how == "dry":
                vlib.run(in_grammar(c, lambda: c.match(l.split(), dry_run=True, last_token_complete=rng.random() < 0.5)))
            elif how == "args":
                if tag in ("empty", "illegal") or l.startswith("#"):
                    continue
                a = l.split() if '"' not in l else None
                if a is None:
                    continue
                c.exec_args(*a)
                want.update(k)
            elif how == "split":
                c.tokenize(l)
            elif how == "file":
                c.add_file_to_execute(os.path.join(d, "none"))
                want["file"] += 1
            elif how == "complete":
                vlib.run(in_grammar(c, lambda: c.match(["path", '"%s/locked/' % d], dry_run=True)))
                obs.count["locked_lookups"] += 1
            elif how == "hook":
                vlib.run(c.execute_binding_call("nothing", False))
                want["raised"] += 1
            else:
                n = (w.err if c.tap_err is None else c.tap_err).getvalue().count("creating token object")
                vlib.run(in_grammar(c, lambda: c.match(["fail", "x"], dry_run=rng.random() < 0.5)))
                want["creating"] += (w.err if c.tap_err is None else c.tap_err).getvalue().count("creating token object") - n
                check(want["creating"], "a token class that cannot be created is not reported")
            obs.count["call_" + how] += 1
            obs.seen((how, tag, conf, c.asCmd))
    o, e = judge(w, env, conf, c, obs, want)


async def in_grammar(c, f):
    if c.asCmd:
        c.enter_grammar(c.generate_root_grammar_name())
        try:
            return await f()
        finally:
            c.exit_grammar()
    return await f()
