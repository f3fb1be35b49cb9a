"""C15: running one command programmatically reports success truthfully."""
import asyncio
import io

import vlib
from vlib import check, make_cli, do_match, run, snap, NessaidCmd, convert_to_cli_string
import gram
from gram import Gen, Model, quote, NODEF
import reftok
import c01
import c05
from c10 import PIECES, rand_string

PID = "C15"
CASES = {"quick": 500, "thorough": 12000}
RULE = ("random grammars with actions, entered into a CLI class and wrapped into a command class: long random sequences of accepted, "
        "wrong, incomplete, ambiguous, empty and untokenizable lines and of argument lists on one object, the status compared with what "
        "ran; commands run from handlers of other commands; command classes called with one to seven arguments of any characters, "
        "quoted, blank and special ones, through instances and through the class; grammars with parameters matched with argument lists "
        "of every length; non-trivial = distinct (grammar, line) or argument list")
REQUIRED = {"programs": 49, "nested_deep": 220, "accepted": 3400, "wrong": 9100, "partial": 1600, "empty": 2100,
            "untokenizable": 4900, "exec_args": 5900, "args": 10000, "special_args": 8100, "blank_args": 1400,
            "quoted_args": 1500, "arglists": 1300, "final_values": 1700, "arglist_kept": 440, "class_level": 450,
            "nested": 380, "nested_failed": 850, "without_arglist": 420}
ASSUMPTIONS = ["an argument which starts and ends with a quote is taken as quoted (documented behaviour of the conversion)",
               "argument lists are not longer than the parameter list"]

BLANK = ["", " ", "   ", "\t", "\n", "\r", "\x0b", "\x0c", "\u00a0", " \n "]


class MacroMixin:

    async def macro(self, line):
        rc = await self.exec_line(line)
        self.log.append(("rc", rc))
        return rc


class MCli(MacroMixin, vlib.VCli):
    pass


def bad_lines(rng, line):
    out = ["", " ", "\t ", "\\", line + " \\", line + " \\ x", "\\" + line, "\n" + line, line + "\nx",
           line + ' "a\nb"', "\r\\"]
    return rng.sample(out, 5)


def status(rng, idx, obs):
    gen = Gen(rng, c01.configs(rng, idx))
    if rng.random() < 0.25:
        g = c05.program(rng)
        obs.count["programs"] += 1
    else:
        g = gen.build()
        gen.add_actions(0.5)
    text = gram.render(g)
    model = Model(g)
    asCmd = rng.random() < 0.5
    if asCmd:
        def do_it(self):
            pass
        do_it.__doc__ = "g"
        cls = type("Wrapped", (MacroMixin, NessaidCmd), {"__doc__": text, "do_it": do_it, "ev": vlib.VCli.ev, "aev": vlib.VCli.aev,
                   "mklist": vlib.VCli.mklist, "boom": vlib.VCli.boom, "aboom": vlib.VCli.aboom,
                   "get_token_classes": lambda self: list(vlib.BUILTIN_TOKENS)})
        c = cls(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=io.StringIO(), disable_default_hooks=True)
        c.log = []
    else:
        c = make_cli(vlib.compile_grammar(text), cls=MCli)
    inside = c.current_grammar
    lines = [l for l in c01.lines_for(rng, model, 10, 10, 14) if gram.joinable(l)]
    todo = [(" ".join(l), l) for l in lines]
    for l in rng.sample(lines, min(3, len(lines))):
        todo += [(b, None) for b in bad_lines(rng, " ".join(l))]
        todo.append((" ".join(l[:-1]), l[:-1]))
    todo = todo * 2
    rng.shuffle(todo)
    for line, toks in todo:
        obs.ev()
        del c.log[:]
        c.stderr.seek(0), c.stderr.truncate()
        if asCmd and toks and rng.random() < 0.3 and not any(t.startswith('"') or any(ch in t for ch in '"\\') for t in toks):
            rc = c.exec_args(*toks)
            obs.count["exec_args"] += 1
        else:
            rc = run(c.exec_line(line))
        got = list(c.log)
        ctx = dict(line=line, rc=rc, got=got, err=c.stderr.getvalue()[-200:], grammar=text)
        check(isinstance(rc, int), "no status", **ctx)
        if toks is None:
            try:
                t = reftok.split(line)
            except reftok.Illegal:
                t = None
            if t is None or not t:
                obs.count["untokenizable" if t is None else "empty"] += 1
                check(rc != 0 and not got, "a line which cannot be processed reported success", **ctx)
                continue
            toks = [x[0] for x in t]
            if not model.tame(toks):
                continue
        if not toks:
            obs.count["empty"] += 1
            check(rc != 0 and not got, "an empty line reported success", **ctx)
            continue
        ok, info = model.analyse(toks)
        if not ok:
            obs.count["wrong"] += 1
            if model.classify(toks)[0] == "partial":
                obs.count["partial"] += 1
            check(rc != 0, "a line which was not run reported success", **ctx)
            check(not got, "a failing line ran actions", **ctx)
            obs.seen((text, line))
            continue
        ders = model.derivations(toks)
        if not ders:
            continue
        if rc != 0:
            check(len(ders) > 1 and not got, "a line which can be run reported failure", **ctx)
            continue
        obs.count["accepted"] += 1
        obs.seen((text, line))
        wants = [model.execute(d, toks, snap)[0] for d in ders]
        check(got in wants, "success reported, but other actions ran", wants=wants[:2], **ctx)
    # one command out of another's handler
    for _ in range(4):
        line, toks = rng.choice(todo)
        if toks is None or not toks:
            continue
        ok, _ = model.analyse(toks)
        ders = model.derivations(toks) if ok else []
        if ok and (not ders or len(ders) > 1):
            continue
        del c.log[:]
        rc = run(c.macro(line))
        got = list(c.log)
        obs.count["nested" if ok else "nested_failed"] += 1
        want = (model.execute(ders[0], toks, snap)[0] if ok else []) + [("rc", 0 if ok else got[-1][1])]
        check(got == want and bool(got[-1][1]) == (not ok), "a command run from a handler differs", line=line, got=got, want=want, grammar=text)
    check(c.current_grammar is inside, "the object is inside another grammar after its lines", grammar=text)


def rand_arg(rng, obs):
    """(argument, what it stands for)"""
    x = rng.random()
    if x < 0.12:
        obs.count["blank_args"] += 1
        return rng.choice(BLANK), None
    if x < 0.25:
        s = rand_string(rng) if rng.random() < 0.85 else ""
        obs.count["quoted_args"] += 1
        return quote(s), s
    while True:
        s = rand_string(rng) if x < 0.8 else rng.choice(
            ["#x", "# c", "a#b", "\\", "a\\", '"', '"x', 'x"', "<<", "$1", "'a b'", "-", "--opt=1 2", "ä ö", "a\u00a0b", "\u00a0b", "x\n", "\\n", "a\x0cb c", "put", "end", "a;b|c"])
        if s.strip() and not (len(s) > 1 and s[0] == '"' and s[-1] == '"'):
            if not s.isalnum():
                obs.count["special_args"] += 1
            return s, s


def make_put(rng):
    class Put(NessaidCmd):
        def do_put(self, words, last):
            r"""
            << $words = list(); >> "put" ((Any << append($words, $1); >>) * (0:8))
            """
            self.got.append(("put", list(words), last))

        async def do_key(self, word, n):
            r"""
            "key" ("two words" | "q\"q" | "back\\slash" | "#no") << $word = $2; >> { Num << $n = $1; >> }
            """
            self.got.append(("key", word, n))

        async def do_run(self, line, n):
            r"""
            "run" Any << $line = $2; >>
            """
            rc = await self.exec_line(line)
            self.got.append(("run", rc == 0))
    Put.__doc__ = "token Any StringToken(); token Num RangedIntToken(0, 99);"
    return Put


def arguments(rng, obs):
    Put = make_put(rng)
    c = Put(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=io.StringIO(),
            disable_default_hooks=rng.random() < 0.5, str_cache_size=rng.choice([0, 2, 128]))
    for _ in range(14):
        obs.ev()
        pairs = [rand_arg(rng, obs) for _ in range(rng.randint(0, 7))]
        c.got = []
        pre = [rng.choice(BLANK)] if rng.random() < 0.2 else []
        args = pre + ["put"] + [a for a, _ in pairs]
        rc = c.exec_args(*args)
        obs.count["exec_args"] += 1
        obs.count["args"] += len(pairs)
        obs.seen(tuple(args))
        want = [("put", [w for _, w in pairs if w is not None], "")]
        check(rc == 0 and c.got == want, "the arguments did not arrive as given", args=args, rc=rc, got=c.got, want=want, err=c.stderr.getvalue()[-300:])
    for _ in range(5):
        kw = rng.choice(["two words", 'q"q', "back\\slash", "#no", "nosuch word"])
        n = rng.choice([None, 0, 7, 99, 100])
        c.got = []
        args = ["key", rng.choice([kw, gram.cli_form(kw)])] + ([] if n is None else [str(n)])
        rc = c.exec_args(*args)
        obs.count["exec_args"] += 1
        good = kw != "nosuch word" and n != 100
        check((rc == 0) == good, "wrong status", args=args, rc=rc)
        check(c.got == ([("key", kw, "" if n is None else n)] if good else []), "wrong call", args=args, got=c.got)
    for _ in range(3):
        kw = rng.choice(["two words", "nosuch word", "back\\slash"])
        n = rng.choice([3, 100])
        inner = "key %s %d" % (quote(kw), n)
        c.got = []
        good = kw != "nosuch word" and n == 3
        rc = c.exec_args("run", inner)
        obs.count["nested" if good else "nested_failed"] += 1
        check(rc == 0, "running a failing command from a handler changed the status of the outer one", rc=rc, inner=inner)
        check(c.got == ([("key", kw, 3)] if good else []) + [("run", good)], "a command run from a handler differs", got=c.got, inner=inner)
    # a command run by the handler of a command run by ...
    depth = rng.randint(2, 6)
    n = rng.choice([3, 100])
    inner = "key #no %d" % n
    for _ in range(depth):
        inner = "run %s" % quote(inner)
    c.got = []
    rc = run(c.exec_line(inner)) if rng.random() < 0.5 else c.exec_args(*[t[0] for t in reftok.split(inner)])
    obs.count["nested_deep"] += 1
    check(rc == 0 and c.got == ([("key", "#no", 3)] if n == 3 else []) + [("run", n == 3)] + [("run", True)] * (depth - 1),
          "commands run from handlers in turn differ", got=c.got, inner=inner, rc=rc)
    check(c.current_grammar is None, "the object is still inside a grammar after its lines", inner=inner)
    rc = c.exec_args(*rng.choice([[], [" "], ["\n", ""]]))
    check(rc != 0, "an empty argument list reported success", rc=rc)
    # through the class
    got = []

    class Once(Put):
        def __init__(self, **kw):
            super().__init__(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=io.StringIO(), **kw)
            self.got = got
    Once.do_put.__doc__ = Put.do_put.__doc__
    for _ in range(2):
        del got[:]
        pairs = [rand_arg(rng, obs) for _ in range(rng.randint(0, 4))]
        obs.count["class_level"] += 1
        if rng.random() < 0.5:
            rc = Once.execute_args("put", *[a for a, _ in pairs])
        else:
            rc = run(Once.execute_line(" ".join(["put"] + [quote(w) for _, w in pairs if w is not None])))
        want = [("put", [w for _, w in pairs if w is not None], "")]
        check(rc == 0 and got == want, "called through the class, the arguments did not arrive", rc=rc, got=got, want=want)
        del got[:]
        bad = rng.choice(["pit", "put \\", "key", "", "key nosuch"])
        rc = run(Once.execute_line(bad))
        check(rc != 0 and not got, "called through the class, a bad line reported success", line=bad, rc=rc)
        rc = Once.execute_args(*rng.choice([["pit", "x"], ["key", "no such"], ["key", ""], [""]]))
        check(rc != 0 and not got, "called through the class, bad arguments reported success", rc=rc)


def arglists(rng, obs):
    np = rng.randint(0, 4)
    params = []
    for i in range(np):
        d = rng.choice([None, None, quote("d%d" % i), "%d" % i])
        params.append(("p%d" % i, d))
    DEF = {None: None, "True": True, "None": None}

    def default(d):
        if d in DEF:
            return DEF[d]
        return d[1:-1] if d.startswith('"') else int(d)
    ps = ("[" + ", ".join("$" + p + (" = " + d if d else "") for p, d in params) + "]") if np or rng.random() < 0.5 else ""
    names = ["p%d" % i for i in range(np)] + ["loc"]
    stm = []
    prog = []
    for _ in range(rng.randint(0, 4)):
        n = rng.choice(names)
        what = rng.choice(["tok", "lit", "other", "list"])
        prog.append((n, what, rng.choice(names)))
    for n, what, o in prog:
        stm.append("$%s = %s;" % (n, {"tok": "$2", "lit": '"set"', "other": "$" + o, "list": "list($%s, $2)" % o}[what]))
    allp = ", ".join("$p%d" % i for i in range(np))
    text = ('token S StringToken();\n'
            'g%s: << call ev(1%s); >> ( "go" S << %s call ev(2%s); >> | "bad" "x" );\n' % (ps, ", " + allp if np else "", " ".join(stm), ", " + allp if np else ""))
    c = make_cli(vlib.compile_grammar(text), cls=MCli)
    for _ in range(5):
        obs.ev()
        k = rng.randint(0, np)
        given = [rng.choice(["in", 0, None, 5, "x y", "$p0", '"q"', ["l"], {"k": 1}, "", False, 1.5]) for _ in range(k)]
        given = [list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for v in given]
        al = list(given)
        word = rng.choice(["a", "b c", "$p1", "\\n"])
        mode = rng.random()
        if mode < 0.2:
            # failing: nothing is handed back
            r = do_match(c, rng.choice([["go"], ["nope", "x"], ["go", "a", "b"], []]), arglist=al)
            obs.count["arglist_kept"] += 1
            check(r.result != "success" and not c.log, "a failing line ran", log=c.log, result=r.result)
            check(len(al) == k and all(a is b for a, b in zip(al, given)), "a failing line changed the argument list", before=given, after=al)
            continue
        env = {"p%d" % i: default(d) for i, (p, d) in enumerate(params)}
        for i, v in enumerate(given):
            env["p%d" % i] = v
        first = [env["p%d" % i] for i in range(np)]
        want_log = [(1,) + tuple(snap(v) for v in first)]
        for n, what, o in prog:
            env[n] = {"tok": word, "lit": "set", "other": env.get(o), "list": [env.get(o), word]}[what]
        last = [env["p%d" % i] for i in range(np)]
        want_log.append((2,) + tuple(snap(v) for v in last))
        if k == 0 and mode < 0.6:
            kw = {} if mode < 0.4 else {"arglist": None}
            obs.count["without_arglist"] += 1
        else:
            kw = {"arglist": al}
            obs.count["arglists"] += 1
        r = do_match(c, ["go", quote(word)], **kw)
        check(r.result == "success", "not accepted", result=r.result, error=r.error, grammar=text)
        check(c.log == want_log, "parameters differ", got=c.log, want=want_log, given=given, grammar=text)
        if kw.get("arglist") is not None:
            obs.count["final_values"] += k
            check([snap(v) for v in al] == [snap(v) for v in last[:k]], "final parameter values not handed back", given=given, got=al, want=last[:k], grammar=text)


def run_case(rng, idx, obs):
    status(rng, idx, obs)
    arguments(rng, obs)
    for _ in range(2):
        arglists(rng, obs)
    obs.sample({"case": idx})
