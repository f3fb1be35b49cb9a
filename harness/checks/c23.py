"""C23: timing and profiling reports change nothing but the report."""
import asyncio
import io
import re
import sys
import tracemalloc

import vlib
from vlib import check, snap, NessaidCmd, rlkey

PID = "C23"
CASES = {"quick": 780, "thorough": 20000}
RULE = ("random histories of lines (working, failing, waiting, ambiguous, wrong, incomplete, blank, unsplittable, continued, looked up, asking "
        "for input, running other lines, entering contexts with own or no switches) with timing and profiling switched on and off at any "
        "points, typed, run with exec_line and with exec_args; each history runs twice, once with every 'on' replaced by 'off', and all events, "
        "results and output per line must be equal once reports are taken out, which must be there exactly for the lines executed while the "
        "switch was on; the profiler must be free again after each line; non-trivial = distinct scripts with a report")
REQUIRED = {"switched_on": 480, "switched_off": 490, "timing_reports": 1100, "profile_reports": 1300, "silent": 4100,
            "looked_up": 480, "asked": 240, "nested": 170, "nested_switch": 53, "failed_on": 88, "rejected": 1100,
            "not_executed": 210, "contexts": 140, "by_parent": 50, "exec_line": 920, "args": 500, "aborted": 150,
            "traces": 11, "trace_deltas": 3}
ASSUMPTIONS = ["reports keep the form they have", "whether rejected lines, switching lines and lines left to the parent are reported is left open",
               "handlers do not use a profiler themselves"]

TREP = re.compile(r"^start: [-+.e\d]+\nend: [-+.e\d]+\nTime taken: [-+.e\d]+\n", re.M)
PREP = re.compile(r"(?:^ +\d+ function calls (?:(?!function calls|Token Hit).)*?|^Another profiler is active\n)"
                  r"Token Hit: (\d+)\nToken Miss: (\d+)\nToken Value Hit: (\d+)\nToken Value Miss: (\d+)\n", re.M | re.S)
SWITCH = re.compile(r"(cmd-\w*) o\w*")


class Abort(BaseException):
    pass


class Common:

    def note(self, *ev):
        self.sh["log"].append((self.id,) + ev)

    def share(self, sh):
        sh["ids"] += 1
        self.sh, self.id = sh, sh["ids"]
        return self

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)

    async def do_say(self, v):
        r""" "say" S << $v = $2; >> """
        self.print("said", v)
        self.note("say", v)

    async def do_wait(self, n):
        r""" "wait" N << $n = $2; >> """
        self.note("wait", n)
        await asyncio.sleep(n)
        self.error("waited", n)
        self.note("waited", n)


class Sub(Common, NessaidCmd):
    r"""
    token S StringToken();
    token N RangedIntToken(0, 9);
    """

    def do_hey(self, v):
        r""" "hey" S << $v = $2; >> """
        self.print("hey", v, "", "")
        self.note("hey", v)

    def do_leave(self):
        r""" "leave" """
        self.note("leave")
        self.exit_loop()

    async def on_exit(self):
        self.note("exit")


class Top(Common, NessaidCmd):
    r"""
    token S StringToken();
    token N RangedIntToken(0, 9);
    """

    def do_fail(self, v):
        r""" "fail" S << $v = $2; >> """
        self.print("failing", v)
        self.note("fail", v)
        raise RuntimeError(v)

    def do_abort(self):
        r""" "abort" """
        self.note("abort")
        raise Abort()

    async def do_ask(self):
        r""" "ask" """
        v = await self.input("value? ", True)
        self.note("got", v)
        self.print("got", v)

    def do_sum(self, v):
        r""" << $v = list(); >> "sum" ((N << $v = append($v, $1); >>) * (1:4)) << print($v); >> """
        self.note("sum", snap(v))
        v.append(7)

    def do_long(self, v):
        r""" << $v = list(); >> "long" ((S << append($v, $1); >>) * 14) """
        self.print(*v)
        self.note("long", snap(v))

    def do_one(self):
        r""" "same" """
        self.note("one")

    def do_two(self):
        r""" "same" | "two" """
        self.note("two")

    async def do_nest(self, v):
        r""" "nest" S << $v = $2; >> """
        self.note("nest", same_switch(v))
        self.note("rc", await self.exec_line(v))

    async def do_sub(self, hooks, parent):
        r""" "sub" << $hooks = False; $parent = False; >> { {"hooks" << $hooks = True; >>}, {"parent" << $parent = True; >>} } """
        self.note("sub", hooks, parent)
        await self.enter_context(Sub, prompt="sub%d> " % self.sh["ids"], disable_default_hooks=not hooks, match_parent_grammar=parent)
        self.child_cli.share(self.sh)


COMMANDS = {Top: {"say", "wait", "fail", "abort", "ask", "sum", "long", "two", "nest", "sub"}, Sub: {"say", "wait", "hey", "leave"}}
HOOKS = {"cmd-timing", "cmd-profiling", "exit", "quit", "system-info"}


class Level:

    def __init__(self, cls, hooks, parent):
        self.cls, self.hooks, self.parent = cls, hooks, parent
        self.on = {"cmd-timing": False, "cmd-profiling": False}

    def knows(self, cmd):
        return cmd in COMMANDS[self.cls] or (self.hooks and cmd in HOOKS)


def free_profiler():
    return sys.monitoring.get_tool(sys.monitoring.PROFILER_ID) is None


def a_line(rng, level):
    """-> (kind, command, text); kind ok: one command of this name runs it"""
    x = rng.random()
    w = rng.choice(["x", "yy", '"a b"', "z9", '"start: 1"', "ok"])
    if x < 0.27:
        cmd = rng.choice(["cmd-timing", "cmd-profiling"])
        return "switch", cmd, cmd[:rng.choice([5, 6, len(cmd), len(cmd), len(cmd)])] + rng.choice([" on", " on", " off", " of"])
    if x < 0.42:
        return "ok", "say", "say " + w
    if x < 0.435:
        return "ok", "long", "long " + " ".join([w] * 14)
    if x < 0.47:
        return "ok", "wait", "wait %d" % rng.randint(0, 9)
    if x < 0.53:
        return "ok", "fail", "fail " + w
    if x < 0.57:
        return "ok", "sum", "sum " + " ".join(str(rng.randint(0, 9)) for _ in range(rng.randint(1, 4)))
    if x < 0.60:
        return "ok", "two", "two"
    if x < 0.64:
        if rng.random() < 0.3:
            return "nest", "nest", 'nest "cmd-%s %s"' % (rng.choice(["timing", "profiling"]), rng.choice(["on", "off"]))
        return "nest", "nest", 'nest "%s"' % rng.choice(["say q", "fail q", "wrong", "say", "wait 3", "nest \\\"say r\\\"", ""])
    if x < 0.70:
        return "ok", "hey", "hey " + w
    if x < 0.75:
        return "ok", "leave", "leave"
    if x < 0.77:
        return "ok", rng.choice(["exit", "quit"]), None
    if x < 0.79:
        return "ok", "system-info", "system-info"
    if x < 0.83:
        return "ok", "sub", "sub" + rng.choice(["", " hooks", " hooks", " parent", " hooks parent", " parent hooks"])
    return "bad", None, rng.choice(["same", "wrong", "say", "sum", "fail", "say x y", "wait 77", "cmd-", "cmd-timing maybe", "c", "", " ", "   ", "\t"[:0],
                                    "# cmd-timing on", "cmd-timing", "nothing at all", "sub hooks hooks"])


SURELY_WRONG = ["wrong", "say x y", "wait 77", "nothing at all", "# cmd-timing on"]


def run_typed(script, hooks, **kw):
    """-> (segments of stdout and stderr and events per step, problems)"""
    sh = {"log": [], "ids": 0}
    out, err = io.StringIO(), io.StringIO()
    marks = []
    busy = []

    def mark(feed, rl):
        marks.append((len(out.getvalue()), len(err.getvalue()), len(sh["log"])))
        if not free_profiler():
            busy.append(len(marks))
        return None
    steps = []
    for keys in script:
        steps.append(mark)
        steps += keys
    steps.append(mark)
    feed = vlib.KeyFeed(steps)
    c = Top(loop=vlib.loop(), prompt="top> ", stdin=feed, stdout=out, stderr=err, disable_default_hooks=not hooks, **kw).share(sh)

    def on_end(fd, rl):
        for x in vlib.stack(c):
            x.exit_loop()
        return ["\r"]
    feed.on_end = on_end
    vlib.run(c.cmdloop())
    check(not feed.steps, "the session ended before its script", left=len(feed.steps))
    marks.append((len(out.getvalue()), len(err.getvalue()), len(sh["log"])))
    o, e = out.getvalue(), err.getvalue()
    segs = [(o[a[0]:b[0]], e[a[1]:b[1]], sh["log"][a[2]:b[2]]) for a, b in zip(marks, marks[1:])]
    return segs[:-1], busy


def run_calls(lines, hooks, args):
    """exec_line or exec_args, one line after the other"""
    sh = {"log": [], "ids": 0}
    out, err = io.StringIO(), io.StringIO()
    c = Top(loop=vlib.loop(), prompt="top> ", stdin=vlib.KeyFeed(), stdout=out, stderr=err, disable_default_hooks=not hooks).share(sh)
    segs, busy = [], []
    for i, l in enumerate(lines):
        o, e, n = len(out.getvalue()), len(err.getvalue()), len(sh["log"])
        try:
            rc = c.exec_args(*l.split()) if args else vlib.run(c.exec_line(l))
        except Abort:
            rc = "aborted"
        segs.append((out.getvalue()[o:], err.getvalue()[e:], sh["log"][n:] + [("rc", rc)]))
        if not free_profiler():
            busy.append(i)
            sys.monitoring.free_tool_id(sys.monitoring.PROFILER_ID)
    return segs, busy


def off(x):
    return SWITCH.sub(r"\1 off", x) if isinstance(x, str) else x


def same_switch(s):
    return SWITCH.sub("SWITCH", s)


def compare(shown, real, base, expect, obs, **where):
    check(len(real) == len(base), "a different number of lines was read", **where)
    for i, (step, (ro, re_, rl), (bo, be, bl), (tmin, tmax, pmin, pmax)) in enumerate(zip(shown, real, base, expect)):
        t, p = len(TREP.findall(ro)), len(PREP.findall(ro))
        plain = TREP.sub("", PREP.sub("", ro))
        info = dict(step=i, line=step, before=shown[:i][-12:], **where)
        check(tmin <= t <= tmax, "wrong number of timing reports", reports=t, want=(tmin, tmax), out=ro[-300:], **info)
        check(pmin <= p <= pmax, "wrong number of profile reports", reports=p, want=(pmin, pmax), out=ro[-300:], **info)
        check(not TREP.search(bo) and not PREP.search(bo), "a report although nothing is switched on", out=bo[-300:], **info)
        check(same_switch(plain) == same_switch(bo), "output other than the report differs", got=plain[-300:], want=bo[-300:], **info)
        check(re_ == be, "what is reported differs", got=re_, want=be, **info)
        check(rl == bl, "what happened differs", got=rl, want=bl, **info)
        for m in TREP.findall(ro):
            a, b, d = (float(x.split(": ")[1]) for x in m.strip().split("\n"))
            check(d >= 0 and abs(b - a - d) < 1e-3, "a timing report which does not add up", report=m)
        obs.count["timing_reports"] += t
        obs.count["profile_reports"] += p
        obs.count["silent"] += not t and not p
        obs.ev()


def nested(lv, text, obs):
    """a line run by the handler of a line"""
    t, p = lv.on["cmd-timing"], lv.on["cmd-profiling"]
    ex = [t, 9 if t else 0, p, 9 if p else 0]
    if "cmd-" in text:
        for i, cmd in ((0, "cmd-timing"), (2, "cmd-profiling")):
            if cmd in text and lv.hooks:
                # the enclosing line itself was switched meanwhile
                lv.on[cmd] = '%s on"' % cmd in text
                ex[i:i + 2] = 0, 9
        obs.count["nested_switch"] += 1
    obs.count["nested"] += 1
    return ex


def typed_case(rng, obs):
    hooks = rng.random() < 0.9
    stack = [Level(Top, hooks, False)]
    script, base, expect, shown = [], [], [], []
    for _ in range(rng.randint(12, 30)):
        lv = stack[-1]
        t, p = lv.on["cmd-timing"], lv.on["cmd-profiling"]
        most = sum(l.on["cmd-timing"] for l in stack), sum(l.on["cmd-profiling"] for l in stack)
        x = rng.random()
        if x < 0.1:
            # looked up, and given up
            s = rng.choice(["", "s", "cmd-", "sum 1 ", "say ", "cmd-timing ", "wrong "])
            st = [list(s) + [rlkey.TAB] * rng.randint(1, 3) + [rlkey.CTRL_C]]
            script.append(st), base.append(st), shown.append(s + "<TAB>")
            expect.append((0, 0, 0, 0))
            obs.count["looked_up"] += 1
            continue
        if x < 0.16 and lv.cls is Top:
            st = ["ask", rng.choice(["v", "cmd-timing on", ""])] if rng.random() < 0.8 else ["ask", [rlkey.CTRL_C]]
            if st[1] == [rlkey.CTRL_C]:
                ex = (0, t, 0, p)
            else:
                ex = (t, t, p, p)
            script.append(st), base.append(st), shown.append("ask"), expect.append(ex)
            obs.count["asked"] += 1
            continue
        kind, cmd, text = a_line(rng, lv)
        if text is None:
            text = cmd
        # which level runs it
        k = len(stack) - 1
        if kind != "bad":
            while k >= 0 and not stack[k].knows(cmd):
                k = k - 1 if stack[k].parent else -1
        if cmd in ("exit", "quit", "leave") and k == 0:
            continue        # the session would be over
        if kind == "bad" and lv.parent and text.strip() and text not in SURELY_WRONG:
            # incomplete or ambiguous in the parent only: left open
            continue
        st = [text]
        if rng.random() < 0.05 and text and kind == "ok" and " " in text:
            st = [text.split(" ")[0] + " \\", text.split(" ", 1)[1]]
        script.append(st), base.append([off(x) for x in st]), shown.append(text)
        left_by = 0
        if kind == "bad" or k < 0:
            if not text.strip() or text.startswith("#"):
                expect.append((0, 0, 0, 0))
                obs.count["not_executed"] += 1
            else:
                expect.append((0, most[0], 0, most[1]))
                obs.count["rejected"] += 1
            continue
        if k < len(stack) - 1:
            obs.count["by_parent"] += 1
            left_by = len(stack) - 1 - k
            del stack[k + 1:]
        lv = stack[-1]
        t, p = lv.on["cmd-timing"], lv.on["cmd-profiling"]
        if kind == "switch":
            on = text.endswith("n")
            ex = [t, t, p, p]
            i = 0 if cmd == "cmd-timing" else 2
            ex[i:i + 2] = 0, 1
            lv.on[cmd] = on
            obs.count["switched_on" if on else "switched_off"] += 1
        elif kind == "nest":
            ex = nested(lv, text, obs)
        else:
            ex = [t, t, p, p]
        if left_by:
            ex[1], ex[3] = max(ex[1], most[0]), max(ex[3], most[1])
        expect.append(tuple(ex))
        if cmd == "fail" and (t or p):
            obs.count["failed_on"] += 1
        if cmd == "sub":
            stack.append(Level(Sub, "hooks" in text, "parent" in text))
            obs.count["contexts"] += 1
        elif cmd in ("exit", "quit", "leave"):
            stack.pop()
    vlib.new_loop()
    real, busy = run_typed(script, hooks)
    check(not busy, "the profiler is still on after a line", steps=busy, script=shown)
    vlib.new_loop()
    want, _ = run_typed(base, hooks)
    compare(shown, real, want, expect, obs, hooks=hooks)
    if any(e[0] or e[2] for e in expect):
        obs.seen(tuple(shown))
    obs.sample({"script": shown, "reports": [list(map(int, e)) for e in expect]})


def calls_case(rng, obs):
    hooks = rng.random() < 0.9
    args = rng.random() < 0.4
    lv = Level(Top, hooks, False)
    lines, expect = [], []
    for _ in range(rng.randint(8, 20)):
        kind, cmd, text = a_line(rng, lv)
        text = cmd if text is None else text
        if cmd in ("exit", "quit", "sub"):
            continue
        if args and '"' in text:
            continue
        if rng.random() < 0.1:
            kind, cmd, text = "ok", "abort", "abort"
        lines.append(text)
        t, p = lv.on["cmd-timing"], lv.on["cmd-profiling"]
        if kind == "bad" or not lv.knows(cmd):
            expect.append((0, t and bool(text.strip()), 0, p and bool(text.strip())))
        elif kind == "switch":
            on = text.endswith("n")
            ex = [t, t, p, p]
            i = 0 if cmd == "cmd-timing" else 2
            ex[i:i + 2] = 0, 1
            lv.on[cmd] = on
            expect.append(tuple(ex))
        elif kind == "nest":
            expect.append(tuple(nested(lv, text, obs)))
        elif cmd == "abort":
            expect.append((0, t, 0, p))
            obs.count["aborted"] += 1
        else:
            expect.append((t, t, p, p))
        obs.count["args" if args else "exec_line"] += 1
    vlib.new_loop()
    real, busy = run_calls(lines, hooks, args)
    check(not busy, "the profiler is still on after a line", steps=busy, script=lines)
    vlib.new_loop()
    want, _ = run_calls([off(l) for l in lines], hooks, args)
    compare(lines, real, want, expect, obs, hooks=hooks, args=args)
    if any(e[0] or e[2] for e in expect):
        obs.seen(tuple(lines))


TRACE = re.compile(r"^#(\d+): (.*): [\d.]+ KiB$", re.M)
DELTA = re.compile(r"^.*: size=.* \([-+].*$", re.M)


def trace_case(rng, obs):
    """the tracemalloc command of sessions which have it; other lines do not notice"""
    lines = [rng.choice(["say x", "fail yy", "sum 1 2", "nest \"say q\"", "wrong", "cmd-timing on"]) for _ in range(4)]
    traces = [rng.choice(["tracemalloc", "tracemalloc 3", "tracemalloc delta", "tracemalloc delta 2", "tracemalloc 5 delta", "tracemalloc 40"])
              for _ in range(2)]
    script = lines[:2] + traces[:1] + lines[2:3] + traces[1:] + lines[3:]
    try:
        vlib.new_loop()
        segs, _ = run_typed([[l] for l in script], True, do_tracemalloc=True)
    finally:
        tracemalloc.stop()
    vlib.new_loop()
    base, _ = run_typed([[off(l)] for l in script], True)
    taken = False
    for l, (o, e, log), (bo, be, bl) in zip(script, segs, base):
        obs.ev()
        if not l.startswith("tracemalloc"):
            check(same_switch(TREP.sub("", o)) == same_switch(bo) and e == be and log == bl, "another output or result in a session which traces memory",
                  line=l, got=(o, e, log), want=(bo, be, bl), script=script)
            continue
        check(be.strip(), "a command which was not asked for exists", line=l, out=bo)
        n = ([int(x) for x in l.split() if x.isdigit()] + [20])[0]
        check(not e and "Top %d lines\n" % n in o and "Total allocated size: " in o, "no memory report", line=l, out=o, err=e)
        got = [int(m.group(1)) for m in TRACE.finditer(o)]
        check(got == list(range(1, len(got) + 1)) and 0 < len(got) <= n, "wrong entries in the memory report", line=l, entries=got, out=o)
        diff = len(DELTA.findall(o))
        if "delta" in l and taken:
            check(diff <= n, "more differences than asked for", line=l, out=o)
            obs.count["trace_deltas"] += 1
        else:
            check(diff == 0, "differences which were not asked for", line=l, out=o)
        taken = True
        obs.count["traces"] += 1


def run_case(rng, idx, obs):
    if idx % 60 == 59:
        trace_case(rng, obs)
    elif idx % 3:
        typed_case(rng, obs)
    else:
        calls_case(rng, obs)
