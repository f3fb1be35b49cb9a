"""C27: a command does the same whichever way it gets in."""
import asyncio
import io
import os
import tempfile

import vlib
from vlib import check, NessaidCmd, rlkey
import gram
from gram import Gen, Model, quote
import c01
import c05

PID = "C27"
CASES = {"quick": 900, "thorough": 15000}
RULE = ("random grammars with actions as command classes, and 8-40 lines of each (accepted, wrong, unfinished, ambiguous) entered in one "
        "session on ways drawn for every line: typed, with TABs after any character, with corrections, with the cursor moved, in parts continued with a backslash, fetched back with TAB or not, "
        "after a line was given up, recalled from the history, from command files (nested ones too), by a handler of the same or another "
        "object, in a nested context, through a context which leaves it to its parent, and outside of sessions by exec_line, exec_args and "
        "execute_line; the calls with their values, the reports of rejected lines and the status are compared with the same line run alone "
        "in a fresh object; non-trivial = distinct (grammar, line, way)")
REQUIRED = {"programs": 100, "typed": 580, "tabs": 530, "corrected": 270, "moved": 270, "continued": 280,
            "given_up": 250, "recalled": 500, "file": 1500, "nested_file": 780, "handler": 250, "other": 250,
            "contexts": 220, "fallback": 280, "blanks": 180, "joined": 260, "accepted": 4300, "rejected": 2000,
            "outside_exec_line": 750, "outside_exec_args": 360, "outside_execute_line": 150,
            "outside_execute_args": 100, "outside_match": 1000, "sessions": 400}
ASSUMPTIONS = ["lines are single lines of printable characters, their first token no comment",
               "TAB is only pressed where it leaves the line as typed so far or completes it towards the line (else it is corrected)"]

PRE = """token ZZLINE StringToken();
"""


class Shared:

    def __init__(self):
        self.log = []


class Err(io.StringIO):
    """reports of rejected lines are events"""

    def __init__(self, sh):
        super().__init__()
        self.sh = sh
        self.part = ""

    def write(self, s):
        *full, self.part = (self.part + s).split("\n")
        for l in full:
            if l.startswith("Result:") or l.startswith("Error:"):
                self.sh.log.append(("err", l))
        return super().write(s)


class Base(NessaidCmd):

    sh = None

    def ev(self, *args):
        self.sh.log.append(("ev",) + tuple(vlib.snap(a) for a in args))

    async def aev(self, *args):
        await asyncio.sleep(0.01)
        self.sh.log.append(("aev",) + tuple(vlib.snap(a) for a in args))

    def mklist(self, *args):
        self.ev("mklist", *args)
        return list(args)

    def boom(self, *args):
        self.ev("boom", *args)
        raise ValueError("boom")

    async def aboom(self, *args):
        await self.aev("aboom", *args)
        raise ValueError("boom")

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)

    def do_it(self):
        "g"

    async def do_zz_run(self, line):
        """
        "zz_run" ZZLINE << $line = $2; >>
        """
        self.sh.rcs.append(await self.exec_line(line))

    async def do_zz_other(self, line):
        """
        "zz_other" ZZLINE << $line = $2; >>
        """
        self.sh.rcs.append(await self.sh.other.exec_line(line))

    def do_zz_file(self, name):
        """
        "zz_file" ZZLINE << $name = $2; >>
        """
        self.add_file_to_execute(os.path.join(self.sh.dir, name))

    async def do_zz_ctx(self):
        """
        "zz_ctx"
        """
        await self.enter_context(self.sh.cls, prompt="ctx> ")

    async def do_zz_fall(self):
        """
        "zz_fall"
        """
        await self.enter_context(Empty, prompt="fall> ", match_parent_grammar=True)

    def do_zz_out(self):
        """
        "zz_out"
        """
        self.exit_loop()

    def do_zz_say(self, a, b):
        """
        "zz_say" ZZLINE << $a = $2; >> { ZZLINE << $b = $1; >> }
        """
        self.sh.log.append(("say", a, b))


class Empty(NessaidCmd):

    def do_zz_nothing(self):
        """
        "zz_nothing"
        """

    def get_token_classes(self):
        return list(vlib.BUILTIN_TOKENS)


def make(cls, sh, feed=None, **kw):
    return cls(loop=vlib.loop(), prompt="> ", stdin=feed or vlib.KeyFeed(), stdout=io.StringIO(), stderr=Err(sh), disable_default_hooks=True, **kw)


def typeable(line):
    return all(32 <= ord(c) < 127 for c in line)


WAYS = ["typed", "typed", "tabs", "tabs", "corrected", "moved", "continued", "given_up", "recalled", "file", "file", "nested_file", "handler",
        "other", "context", "fallback", "blanks", "joined"]
OUTSIDE = ["exec_line", "exec_args", "execute_line", "execute_args", "match"]


def run_case(rng, idx, obs):
    gen = Gen(rng, c01.configs(rng, idx))
    if rng.random() < 0.25:
        g = c05.program(rng)
        obs.count["programs"] += 1
    else:
        g = gen.build()
        gen.add_actions(0.6)
    text = PRE + gram.render(g)
    model = Model(g)
    lines = []
    for l in c01.lines_for(rng, model, 10, 8, 6):
        s = " ".join(l)
        if gram.joinable(l) and typeable(s) and not "zz_".startswith(l[0][:3]) and l[0][:1] != "#" and "\\" not in s:
            lines.append(l)
    if not lines:
        return
    lines += says(rng)
    sh = Shared()
    d = dict((k, v) for k, v in Base.__dict__.items() if k not in ("__dict__", "__weakref__", "__doc__"))
    sh.cls = cls = type("App", (Base,), {"__doc__": "\n" + text, "sh": sh})
    ref = make(cls, sh)
    want = {}
    good = []
    for l in lines:
        s = " ".join(l)
        del sh.log[:]
        rc = vlib.run(ref.exec_line(s))
        want[s] = (rc, list(sh.log))
        if rc == 0:
            good.append(l)
    # what is accepted is met more often
    lines = good + rng.sample(lines, min(len(lines), 4 + len(good)))
    tmp = tempfile.TemporaryDirectory()
    sh.dir = tmp.name
    sh.other = make(cls, sh)
    outside(rng, obs, lines, want, cls, sh, text)
    session(rng, obs, lines, good, want, cls, sh, text)
    tmp.cleanup()
    obs.sample({"grammar": text[:300], "lines": [" ".join(l) for l in lines[:6]]})


PIECES = ["  ", " ", "   ", "#", "# ", "\\\\", '\\"', "\\n", "\\t", "\\a", ";", "'", "a", "zz_out", "Word", "0", "-1", "%", "*", "\\\\n", "=", "{", "}", "$1",
          "<<", ">>", "|", "!", "~", "&", "..", "/", ":", "\\\\\\\\"]


def says(rng):
    """texts of all kinds, quoted"""
    out = []
    for _ in range(rng.randint(1, 4)):
        l = ["zz_say"[:rng.choice([6, 6, 5, 4])]]
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < 0.15:
                l.append(rng.choice(["a#b", "'", "x", "#", "=", "zz_say", "{}", "1.5"]))
            else:
                l.append('"%s"' % "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 7))))
        out.append(l)
    return out


def plain(l):
    return not any(c in t for t in l for c in '"\\')


def outside(rng, obs, lines, want, cls, sh, text):
    c = make(cls, sh, str_cache_size=rng.choice([0, 1, 128]))
    for l in rng.sample(lines, min(len(lines), 6)):
        s = " ".join(l)
        way = rng.choice(OUTSIDE)
        if way in ("exec_args", "execute_args") and not plain(l):
            way = "exec_line"
        if way.startswith("execute") and rng.random() < 0.7:
            way = "match"           # a fresh class is slow
        del sh.log[:]
        err = sh.log
        if way == "exec_line":
            rc = vlib.run(c.exec_line(s))
        elif way == "exec_args":
            rc = c.exec_args(*l)
        elif way == "match":
            c.enter_grammar(c.generate_root_grammar_name())
            r = vlib.run(c.match(list(l), dry_run=False, last_token_complete=True))
            rc = 0 if r.result == "success" else 12
        else:
            class Fresh(cls):
                def __init__(self, **kw):
                    super().__init__(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=Err(sh), **dict(kw, disable_default_hooks=True))
            rc = Fresh.execute_args(*l) if way == "execute_args" else vlib.run(Fresh.execute_line(s))
        obs.count["outside_" + way] += 1
        obs.ev()
        wrc, wlog = want[s]
        if way == "match":
            if not plain(l):
                continue
            wlog = [e for e in wlog if e[0] != "err"]
        check((rc == 0) == (wrc == 0) and sh.log == wlog, "the line did something else", way=way, line=s, rc=rc, want_rc=wrc, got=sh.log, want=wlog, grammar=text)
        obs.seen((text, s, way))


def session(rng, obs, lines, good, want, cls, sh, text):
    steps = []          # (what it is, functions giving keys)
    exp = []            # the events
    rcs = []
    files = [0]
    depth = [0]

    def mark(way, s):
        n, prev = len(exp), brief(steps)

        def at(fd, rl):
            if sh.log != exp[:n] or len(sh.log) > n:
                k = next((i for i, (a, b) in enumerate(zip(sh.log, exp[:n])) if a != b), min(len(sh.log), n))
                check(False, "a line did something else", got=sh.log[k:k + 4], want=exp[k:min(n, k + 4)], after=prev[-4:], grammar=text)
            return None
        return at

    def add(way, s, *funcs):
        m = mark(way, s)
        first = funcs[0]

        def f(fd, rl):
            m(fd, rl)
            return first(fd, rl)
        steps.append((way, s, [f] + list(funcs[1:])))

    def keys(k):
        return lambda fd, rl: list(k)

    def ran(way, s):
        rc, log = want[s]
        exp.extend(log)
        obs.count[way] += 1
        obs.count["accepted" if rc == 0 else "rejected"] += 1
        obs.seen((text, s, way))
        obs.ev()

    def spread(l):
        return "".join((" " * rng.randint(1, 3) if i else "") + t for i, t in enumerate(l))

    def parts(s, most):
        """the line continued over lines, cut anywhere"""
        cuts = sorted(rng.sample(range(len(s)), min(len(s), rng.randint(1, most))))
        return [s[a:b] + "\\" + " " * rng.choice([0, 0, 1]) for a, b in zip([0] + cuts, cuts)] + [s[cuts[-1] if cuts else 0:]]

    def file_of(ls, nest=0):
        files[0] += 1
        name = "f%d" % files[0]
        out = []
        todo = list(ls)
        while todo:
            x = rng.random()
            if x < 0.15:
                out.append(rng.choice(["", "# zz_out", "   ", "#"]))
            if nest and x < 0.4:
                k = rng.randint(1, len(todo))
                out.append("zz_file " + file_of(todo[:k], nest - 1))
                todo = todo[k:]
                continue
            l = todo.pop(0)
            if x < 0.6:
                out.extend(parts(" ".join(l), 2))
            else:
                out.append(" ".join(l))
        with open(os.path.join(sh.dir, name), "w") as fd:
            fd.write("\n".join(out) + rng.choice(["", "\n", "\n\n"]))
        return name

    def tabbed(s):
        cuts = sorted(rng.sample(range(len(s) + 1), min(len(s), rng.randint(1, 4))))

        def part(cut, last):
            def f(fd, rl):
                b = rl.get_line_buffer()
                k = []
                if not s.startswith(b):
                    n = len(os.path.commonprefix([s, b]))
                    k = [rlkey.BACKSPACE] * (len(b) - n)
                    b = b[:n]
                if last:
                    return k + list(s[len(b):]) + ["\r"]
                return k + list(s[len(b):max(cut, len(b))]) + [rlkey.TAB] * rng2.randint(1, 3)
            return f
        rng2 = rng
        return [part(c, False) for c in cuts] + [part(0, True)]

    nseg = rng.randint(6, 18)
    for _ in range(nseg):
        way = rng.choice(WAYS)
        l = rng.choice(lines)
        s = " ".join(l)
        if way == "typed":
            add(way, s, keys(s + "\r"))
            ran(way, s)
        elif way == "blanks":
            if '"' in s:
                continue
            add(way, s, keys(" " * rng.randint(0, 2) + spread(l) + " " * rng.randint(0, 2) + "\r"))
            ran(way, s)
        elif way == "tabs":
            add(way, s, *tabbed(s))
            ran(way, s)
        elif way == "corrected":
            k = []
            for ch in s:
                if rng.random() < 0.2:
                    x = rng.randint(1, 3)
                    k += ["x"] * x + [rlkey.BACKSPACE] * x
                k.append(ch)
            add(way, s, keys(k + ["\r"]))
            ran(way, s)
        elif way == "moved":
            # a part in the middle is typed last
            a = rng.randint(0, len(s))
            b = rng.randint(a, len(s))
            add(way, s, keys(list(s[:a] + s[b:]) + [rlkey.LEFT] * (len(s) - b) + list(s[a:b]) + ["\r"]))
            ran(way, s)
        elif way == "continued":
            add(way, s, *[keys(p + "\r") for p in parts(s, 3)])
            ran(way, s)
        elif way == "joined":
            # TAB after a continued part fetches that part back into the line
            ks = parts(s, 3)
            last = ks.pop()
            ks = [keys(p + "\r") for p in ks]
            more = rng.randint(0, len(last))
            ks.append(keys(list(last[:more]) + [rlkey.TAB]))
            if rng.random() < 0.5:
                ks.append(keys(list(last[more:] + "\r")))
            else:
                ks.extend(tabbed(s))
            add(way, s, *ks)
            ran(way, s)
        elif way == "given_up":
            o = " ".join(rng.choice(lines))
            gone = parts(o, 2) if rng.random() < 0.5 else [o]
            add(way, s, *[keys(p + "\r") for p in gone[:-1]], keys(list(gone[-1]) + [rlkey.CTRL_C]), keys(s + "\r"))
            ran(way, s)
        elif way == "recalled":
            add(way, s, keys(s + "\r"))
            ran(way, s)
            add(way, s, keys([rlkey.UP, "\r"]))
            ran(way, s)
        elif way in ("file", "nested_file"):
            ls = [rng.choice(lines) for _ in range(rng.randint(1, 5))]
            name = file_of(ls, 2 if way == "nested_file" else 0)
            add(way, name, keys("zz_file %s\r" % name))
            for l in ls:
                ran(way, " ".join(l))
        elif way in ("handler", "other"):
            cmd = {"handler": "zz_run", "other": "zz_other"}[way]
            add(way, s, keys("%s %s\r" % (cmd, quote(s))))
            ran(way, s)
            rcs.append(want[s][0])
        elif way == "context":
            if depth[0] and rng.random() < 0.6:
                depth[0] -= 1
                add(way, "zz_out", keys("zz_out\r"))
            elif depth[0] < 3:
                depth[0] += 1
                add(way, "zz_ctx", keys("zz_ctx\r"))
                obs.count["contexts"] += 1
        elif way == "fallback":
            if not good:
                continue
            l = rng.choice(good)
            s = " ".join(l)
            add(way, "zz_fall", keys("zz_fall\r"))
            if rng.random() < 0.3:
                name = file_of([l])
                add(way, name, keys("zz_file %s\r" % name))
                # the file is read in the context the line was left to
                ran(way, s)
            else:
                add(way, s, *(tabbed(s) if rng.random() < 0.5 else [keys(s + "\r")]))
                ran(way, s)
    end = mark("end", "")
    feed = vlib.KeyFeed()
    c = make(cls, sh, feed, str_cache_size=rng.choice([0, 1, 128]))
    for _, _, fs in steps:
        feed.steps.extend(fs)
    del sh.log[:]
    sh.rcs = []

    tries = []

    def on_end(fd, rl):
        tries.append(1)
        if len(tries) == 1:
            end(fd, rl)
        check(len(tries) < 6, "the session does not end", script=brief(steps)[-6:])
        for x in vlib.stack(c):
            x.exit_loop()
        return ["\r"]
    feed.on_end = on_end
    vlib.run(c.cmdloop())
    check(not feed.steps, "the session ended before its script", left=len(feed.steps), script=brief(steps)[-6:])
    check(sh.log == exp, "the last line did something else", got=sh.log[-4:], want=exp[-4:], script=brief(steps)[-6:], grammar=text)
    check([bool(r) for r in sh.rcs] == [bool(r) for r in rcs], "the status of lines run by handlers differs", got=sh.rcs, want=rcs, script=brief(steps)[-8:])
    obs.count["sessions"] += 1
    obs.count["in_contexts"] += sum(1 for _ in range(depth[0]))


def brief(steps):
    return ["%s: %s" % (w, s) for w, s, _ in steps]
