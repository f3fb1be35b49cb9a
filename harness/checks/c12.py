"""C12: what a line does never depends on what was entered before."""
import asyncio

import vlib
from vlib import check, make_cli, do_match, run, snap, session, VCli, EndOfInpuToken, play
import gram
from gram import Gen, Model
import c01
import c05

PID = "C12"
CASES = {"quick": 110, "thorough": 4000}
RULE = ("a random grammar with actions plus commands with value tokens sharing input texts, failing and mutating handlers; each of "
        "~40 lines is run alone in a fresh object (some with a freshly compiled grammar) and its result, values, actions and output "
        "recorded; then long-lived objects with cache sizes from 0 to 1000 enter them in long random histories (run, match, typed "
        "look-up, split, TAB in a session, leaving and entering the grammar, hundreds of one-off values), inside the handlers of one another, several at a time and "
        "after lines cancelled while they waited, and every occurrence is "
        "compared; non-trivial = distinct (grammar, line) that ran actions or failed after at least one token")
REQUIRED = {"programs": 12, "compared": 50000, "accepted": 15000, "rejected": 10000, "lookups": 24000, "flood": 30000,
            "boom": 1900, "fresh_spec": 340, "in_session": 1200, "mutated": 4000, "inside": 760, "around": 590,
            "together": 1000, "afterwards": 390, "given_up": 320, "given_up_slow": 140, "looked_up_inside": 170}
ASSUMPTIONS = ["handlers keep no state of their own that would change their results", "token classes with values of their own (C22) are not part of this check"]

EXTRA = '''
token Vs StringToken();
token Vr RangedStringToken(1, 4);
token Vi RangedIntToken(-500, 100000);
token Vj RangedIntToken(0, 9);
token Vd RangedDecimalToken(-500, 100000);
token Vb BooleanToken();
token Va AlternativeStringsToken("12", "7", "true", "t", "red one", "1");
token Vw SlowToken();
slowa[]: Vw << call aev(7101, $1); >> ;
slowb[]: Vr << call aev(7102, $1); >> ;
par[$p, $q = "dq"]: "with" Vs << $p = $2; call ev(7001, $p, $q); $q = list($q, $p); >> ;
psub[$p = "dp"]: << $w = "w0"; call aev(7098, $w, $p, $q); >> Vs << $w = list($p, $1); call aev(7099, $w, $p); $p = $w; call ev(7100, $p, $w); >> ;
top[$pa, $pb = 3]:
   "run" g
 | "vs" Vs << call ev(7010, $2, $pa, $pb); $pa = $2; $pb = list($pb, $2); >>
 | "vr" Vr << call ev(7011, $2); >>
 | "vi" Vi << call ev(7012, $2); >>
 | "vj" Vj << call ev(7013, $2); >>
 | "vd" Vd << call ev(7014, $2); >>
 | "vb" Vb << call aev(7015, $2); >>
 | "va" Va << call ev(7016, $2); >>
 | "all" Vs Vi Vb Va << $l = list($2, $3, $4, $5); call ev(7020, $l); append($l, "x"); call mut($l); call ev(7021, $l); >>
 | "boom" Vs << call ev(7030, $2); call boom(7031, $2); call ev(7032, $2); >>
 | "aboom" Vs << call aboom(7033, $2); >> "x" << call ev(7034, $3); >>
 | << $n = 0; $l = list(); >> "many" ((Vs << inc($n); append($l, $1); >>) * (1:6)) << call ev(7040, $n, $l, $u); $u = $l; print($l); call mut($l); >>
 | << $d = dict(); $s = set(); >> "coll" ((Vi << update($d, $1, $1); add($s, $1); call mut($s); >>) * (1:3)) << call ev(7050, $d, $s); call mut($d); >>
 | "ref" << $r = "old"; >> par[$r] << call ev(7060, $r, $q, $p); call mut($r); >>
 | "printer" Vs << print($2, 1, list($2)); >>
 | "nohandler" Vs << call missing($2); call ev(7070, $2); >>
 | << $z = list(); >> "pz" ((Vs << call aev(7090, $1, $z); append($z, $1); >>) * (1:4)) << call aev(7091, $z, $2); $k = $2; call aev(7092, $k, $z); >>
 | "pr" Vs << $q = $2; call aev(7093, $q, $w); >> psub[$q] << call aev(7094, $q, $w, $3); >>
 | "pu" Vs << call ev(7095, $z, $q, $w, $k, $2); call aev(7096, $2, $pa); $pa = $2; call aev(7097, $pa, $pb); >>
 | "slow" (slowa[] | slowb[] | slowc)
 | "ask" Vs << $i = input("give", True); call ev(7103, $i); $i = input(); call aev(7104, $i, $2); >>
 | "val" Vs "then" << $x = call mklist(7080, $2, "k"); >> Vi << call ev(7081, $x, $4); call mut($x); call ev(7082, $x); >>
;
'''

TEXTS = ["12", "7", "t", "true", "1", "tr", "-5", "f", "120", "red", '"red one"', '"12"', "1.5", "abcdef", '"a b"', "T", '"t"', "0"]


class SlowToken(vlib.CliToken):
    """A user's token class whose methods wait"""

    @property
    def completable(self):
        return False

    async def match(self, token_input, cli=None):
        await cli.slow()
        return vlib.toks.MATCH_SUCCESS if token_input[:1] in "1t" else vlib.toks.MATCH_FAILURE

    async def complete(self, token_input, cli=None):
        return 0, []

    async def get_value(self, match_string=None, cli=None):
        await cli.slow()
        return match_string + "!" if len(match_string) != 2 else vlib.NullTokenValue


class HCli(VCli):

    vclasses = vlib.BUILTIN_TOKENS + [SlowToken]

    async def slow(self):
        pass

    async def input(self, prompt="", show_char=True):
        await self.slow()
        return "typed"

    def mut(self, v):
        if isinstance(v, list):
            v.append("mutated")
        elif isinstance(v, set):
            v.add("mutated")
        elif isinstance(v, dict):
            v["mutated"] = 1


class LineCli(HCli):
    """Every task entering lines has its own log; while a handler waits, the hook may enter further lines."""

    _first_log = None
    logs = None
    hook = None
    wait = None

    async def slow(self):
        if self.wait:
            await self.wait()

    @property
    def log(self):
        try:
            task = asyncio.current_task()
        except RuntimeError:
            task = None
        return (self.logs or {}).get(task, self._first_log)

    @log.setter
    def log(self, value):
        self._first_log = value

    async def aev(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        if self.hook:
            await self.hook()
        return "R%s" % (ident,)


def outputs(c):
    got = c.vout.getvalue(), c.verr.getvalue()
    for s in (c.vout, c.verr):
        s.seek(0), s.truncate()
    return got


def overlapping(rng, spec, steps, want, obs, text):
    """lines entered while another one runs: by its own handlers, by other tasks, and after one which was given up"""
    c = make_cli(spec, "top", cls=LineCli, str_cache_size=rng.choice([0, 2, 128]))
    lines = [i for i, s in enumerate(steps) if s[0] == "run"]
    waiting = [i for i in lines if steps[i][1].split()[0:1] in (["pz"], ["pr"], ["pu"], ["vb"], ["slow"], ["ask"])] or lines
    pick = lambda: rng.choice(waiting if rng.random() < 0.6 else lines)
    history = []

    def same(i, got, how, n=4):
        history.append((how, steps[i][1]))
        obs.ev()
        obs.count[how] += 1
        if got[:n] != want[i][:n]:
            check(False, "a line did something else than alone: " + how, line=steps[i][1], got=got[:n], want=want[i][:n],
                  before=history[-8:], grammar=text)

    # handlers which enter lines (or look them up) themselves
    depth = [0]

    async def nested():
        if depth[0] > 2 or rng.random() < 0.4:
            return
        depth[0] += 1
        log, out = c.log[:], outputs(c)
        del c.log[:]
        i = pick()
        what, line, toks = steps[i]
        if toks and rng.random() < 0.2:
            cut = toks[:rng.randint(1, len(toks))]
            await c.match(cut, dry_run=True, last_token_complete=rng.random() < 0.5)
            obs.count["looked_up_inside"] += 1
        else:
            rc = await c.exec_line(line)
            same(i, (rc, tuple(c.log)) + outputs(c), "inside")
        outputs(c)
        c.log[:] = log
        c.vout.write(out[0]), c.verr.write(out[1])
        depth[0] -= 1

    c.hook = nested
    for _ in range(12):
        i = pick()
        del c.log[:]
        outputs(c)
        rc = run(c.exec_line(steps[i][1]))
        same(i, (rc, tuple(c.log)) + outputs(c), "around")

    # lines of several tasks at a time, some given up while they wait
    async def pause():
        await asyncio.sleep(rng.choice([0, 0, 1, 2, 3, 5]))

    async def line(i):
        task = asyncio.current_task()
        log = c.logs[task] = []
        await asyncio.sleep(rng.choice([0, 0, 1, 2]))
        limit = rng.choice([None, None, None, 0.5, 1.5, 4])

        async def enter():
            c.logs[asyncio.current_task()] = log
            return await c.exec_line(steps[i][1])

        try:
            rc = await asyncio.wait_for(enter(), limit)
        except asyncio.TimeoutError:
            obs.count["given_up"] += 1
            obs.count["given_up_slow"] += steps[i][1].split()[0:1] in (["slow"], ["ask"])
            history.append(("given up", steps[i][1]))
            check(tuple(log) == want[i][1][:len(log)], "a line which was given up ran other actions than alone", line=steps[i][1], got=log,
                  want=want[i][1], grammar=text)
            return
        same(i, (rc, tuple(log)), "together", 2)

    async def several():
        c.logs = {}
        await asyncio.gather(*[line(pick()) for _ in range(rng.randint(1, 6))])
        c.logs = None

    for _ in range(8):
        c.hook = c.wait = pause
        run(several())
        c.hook = c.wait = None
        i = pick()
        del c.log[:]
        outputs(c)
        rc = run(c.exec_line(steps[i][1]))
        same(i, (rc, tuple(c.log)) + outputs(c), "afterwards")


def picture(c, r, dry):
    nt = sorted((("", "EOI") if t is EndOfInpuToken else (t.completion or "", str(t.helpstring))) for t in (r.next_tokens or []))
    return (r.result, str(r.error), r.offending_token if isinstance(r.offending_token, str) else repr(type(r.offending_token)),
            r.offending_token_position, tuple(snap(v) for v in r.matched_values) if r.matched_values else (), tuple(c.log),
            tuple(nt), tuple(r.last_token) if r.last_token else None, r.next_constant_token)


def op(c, what, line, toks):
    """one observable step; returns its picture"""
    del c.log[:]
    for s in (c.vout, c.verr):
        s.seek(0), s.truncate()
    if what == "run":
        res = (run(c.exec_line(line)), tuple(c.log))
    elif what == "match":
        res = picture(c, do_match(c, toks), False)
    elif what == "args":
        a = [1, "x"]
        res = picture(c, do_match(c, toks, arglist=a), False) + (tuple(snap(x) for x in a),)
    elif what == "dry":
        res = picture(c, do_match(c, toks, dry_run=True, last_token_complete=False), True)
    elif what == "dryc":
        res = picture(c, do_match(c, toks, dry_run=True, last_token_complete=True), True)
    else:
        ok, err, t = c.tokenize(line)
        res = (ok, err, tuple(str(x) for x in t))
    return res + (c.vout.getvalue(), c.verr.getvalue())


def lines_of(rng, model):
    out = []
    for l in c01.lines_for(rng, model, 8, 5, 8)[:14]:
        if gram.joinable(l):
            out.append((" ".join(["run"] + l), ["run"] + l))
    pool = rng.sample(TEXTS, 7)
    for k in ("vs", "vr", "vi", "vj", "vd", "vb", "va"):
        for t in rng.sample(pool, 3):
            out.append(("%s %s" % (k, t), [k, t]))
    p = lambda: rng.choice(pool)
    for _ in range(2):
        for f in (["all", p(), "12", "t", "7"], ["boom", p()], ["aboom", p(), "x"], ["many"] + [p() for _ in range(rng.randint(1, 6))],
                  ["coll", "12", "7"], ["ref", "with", p()], ["printer", p()], ["pz"] + [p() for _ in range(rng.randint(1, 4))], ["pr", p(), p()], ["pu", p()], ["slow", p()], ["slow", p()], ["ask", p()], ["nohandler", p()], ["val", p(), "then", "12"],
                  ["v", p()], [p()], ["many"], ["ref", p()], ["aboom", p()]):
            out.append((" ".join(f), f))
    out += [("", []), ("   ", []), ("vs \\ x", None), ("vs \x01\\", None)]
    seen, res = set(), []
    for l, t in out:
        if l not in seen:
            seen.add(l)
            res.append((l, t))
    return res


def run_case(rng, idx, obs):
    while True:
        gen = Gen(rng, c01.configs(rng, idx))
        if rng.random() < 0.25:
            g = c05.program(rng)
            obs.count["programs"] += 1
        else:
            g = gen.build()
            gen.add_actions(0.5)
        text = gram.render(g)
        model = Model(g)
        if not set(g.tokens) & {"Vs", "Vr", "Vi", "Vj", "Vd", "Vb", "Va", "Vw", "par", "top", "slowa", "slowb", "slowc"}:
            break
    text += EXTRA
    lines = lines_of(rng, model)
    steps = []
    for line, toks in lines:
        steps.append(("run", line, toks))
        if toks:
            steps.append((rng.choice(["match", "match", "args"]), line, toks))
            cut = toks[:rng.randint(1, len(toks))]
            steps.append(("dryc", None, cut))
            last = cut[-1][:rng.randint(1, len(cut[-1]))]
            if not last.endswith("\\"):
                steps.append(("dry", None, cut[:-1] + [last]))
        else:
            steps.append(("split", line, None))
    spec0, spec1 = vlib.compile_grammar(text), vlib.compile_grammar(text)
    want = {}
    fresh_specs = set(rng.sample(range(len(steps)), 7))
    for i, s in enumerate(steps):
        sp = spec0
        if i in fresh_specs:
            sp = vlib.compile_grammar(text)
            obs.count["fresh_spec"] += 1
        c = make_cli(sp, "top", cls=HCli)
        want[i] = op(c, *s)
        obs.ev()
        if want[i][0] not in (0, "partial", True) or s[0] != "split":
            obs.seen((text, s[1], tuple(s[2] or ()), s[0]))
    # histories
    for size in rng.sample([0, 1, 2, 3, 10, 128, 1000], 2):
        c = make_cli(spec1, "top", cls=HCli, str_cache_size=size)
        if hasattr(c, "_token_value_cache_size") and rng.random() < 0.5:
            # the interface class has a parameter for it which the CLI class does not pass on
            c._token_value_cache_size = rng.choice([0, 1, 2, 5])
        order = []
        for i in range(len(steps)):
            order += [i] * rng.choice([1, 1, 2])
        rng.shuffle(order)
        if rng.random() < 0.5:
            order = [i for i in order for _ in range(rng.choice([1, 1, 3]))][:2 * len(order)]
        for n, i in enumerate(order):
            if rng.random() < 0.012:
                for k in range(rng.choice([1, 5, 140])):
                    v = rng.choice(['"one off %d"', "off%d", "%d", '"q\\"%d"']) % rng.randint(0, 10 ** 6)
                    kw = rng.choice(["vs", "vi", "va", "vd"])
                    do_match(c, [kw, v], dry_run=rng.random() < 0.3)
                    obs.count["flood"] += 1
            if rng.random() < 0.03:
                c.exit_grammar()
                c.enter_grammar("top")
            if rng.random() < 0.02:
                c.enter_grammar("g")
                run(c.exec_line(rng.choice(lines)[0][4:]))
                c.exit_grammar()
            got = op(c, *steps[i])
            obs.ev()
            obs.count["compared"] += 1
            what, line, toks = steps[i]
            if what.startswith("dry"):
                obs.count["lookups"] += 1
            elif got[0] in (0, "success"):
                obs.count["accepted"] += 1
            else:
                obs.count["rejected"] += 1
            if line and "boom" in line:
                obs.count["boom"] += 1
            if line and line.split()[0:1] in (["all"], ["many"], ["coll"], ["ref"], ["val"]):
                obs.count["mutated"] += 1
            if got != want[i]:
                diff = [(a, b) for a, b in zip(got, want[i]) if a != b]
                check(False, "a line did something else than alone", step=steps[i], differs=diff[:3], cache=size,
                      before=[steps[j][1] for j in order[max(0, n - 6):n]], grammar=text)
    overlapping(rng, spec1, steps, want, obs, text)
    # the same lines in a session, with TAB pressed on some unfinished ones before
    c = make_cli(spec1, "top", cls=HCli, str_cache_size=rng.choice([0, 1, 128]))
    runs = [i for i, s in enumerate(steps) if s[0] == "run" and '"' not in s[1] or s[0] == "run" and s[1].count('"') % 2 == 0]
    runs = [i for i in runs if "\\" not in steps[i][1]]
    order = [rng.choice(runs) for _ in range(25)]
    results = []

    def script(rl):
        for i in order:
            if rng.random() < 0.5:
                t = steps[rng.choice(runs)][1]
                t = t[:rng.randint(0, len(t))]
                if "\\" not in t:
                    yield list(t)
                    for _ in range(rng.randint(1, 3)):
                        yield [vlib.rlkey.TAB]
                    yield [vlib.rlkey.CTRL_C]
            del c.log[:]
            for s in (c.vout, c.verr):
                s.seek(0), s.truncate()
            yield list(steps[i][1]) + ["\r"]
            results.append((i, tuple(c.log), c.verr.getvalue()))

    play(c, script, "top")
    check(len(results) == len(order), "a session lost lines", done=len(results), of=len(order))
    for i, log, err in results:
        obs.count["in_session"] += 1
        check(log == want[i][1], "a line in a session ran other actions than alone", line=steps[i][1], got=log, want=want[i][1], grammar=text)
        check(err == want[i][3], "a line in a session reported something else than alone", line=steps[i][1], got=err, want=want[i][3])
    obs.sample({"grammar": text[:600], "steps": [str(s) for s in steps[:6]]})
