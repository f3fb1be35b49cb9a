"""C05: variables, parameters, literals and built-in functions of actions."""
import re

import vlib
from vlib import check, make_cli, do_match, snap
import gram
from gram import N, Gram, Model, NODEF, lit

PID = "C05"
CASES = {"quick": 5000, "thorough": 120000}
RULE = ("random action programs: assignments between variables, parameters, $k, literals of every type, nested calls and "
        "built-in functions, over a root grammar with parameters and sub-grammars referenced several times with "
        "positional, keyword, default and missing arguments; the recorded calls, printed text and final parameter values "
        "are compared with the reference interpreter; non-trivial = distinct programs run")
REQUIRED = {"in_rep": 1200, "in_opt": 680, "in_alt": 640, "in_set": 600, "wide_blocks": 330, "renamed_handlers": 280,
            "runs": 4400, "calls": 160000, "refs": 5600, "by_reference": 4000, "defaults": 4000, "keyword_args": 1400,
            "builtin": 46000, "unsuitable": 1500, "printed": 3000, "final_params": 4500}
ASSUMPTIONS = ["built-in functions are used on operands of suitable types or where the documented fallback is known",
               "action strings contain no '>'"]

VARS = ["a", "b", "c", "d", "list_v", "callee", "True_x"]
STRS = ["", "s", "two words", 'q"q', "back\\slash", "tab\there", "nl\nx", "\\n", "0", "None", "a;b", "x, y)", "<<", "$a", "//", "#no"]


class PGen:

    def __init__(self, rng, obs):
        self.rng, self.obs = rng, obs
        self.id = 0

    def nid(self):
        self.id += 1
        return self.id

    def literal(self):
        rng = self.rng
        x = rng.random()
        if x < 0.3:
            return lit(rng.choice(STRS))
        if x < 0.5:
            return lit(rng.choice([0, 1, 2, 7, 10, 255, 65536, -1, -5, 123456789012]))
        if x < 0.6:
            n = rng.choice([0, 1, 15, 31, 255, 4096, 48879])
            return lit(n, rng.choice(["0x%x", "0x%X"]) % n)
        if x < 0.72:
            return lit(rng.choice([0.5, 1.5, 3.25, 100.125, -2.5, -0.25]))
        if x < 0.8:
            return lit(True)
        if x < 0.88:
            return lit(False)
        return lit(None)

    def var(self, pool):
        return ("var", self.rng.choice(pool))

    def arg(self, pool, nums, depth=2):
        rng = self.rng
        x = rng.random()
        if x < 0.35:
            return self.var(pool)
        if x < 0.5 and nums:
            return ("num", rng.choice(nums))
        if x < 0.72 or depth <= 0:
            return self.literal()
        if x < 0.85:
            return ("call", rng.choice(["ev", "aev", "mklist"]), self.nid(),
                    [self.arg(pool, nums, depth - 1) for _ in range(rng.randint(0, 2))])
        return self.fn(pool, nums, depth - 1)

    def number(self, pool, nums, depth):
        rng = self.rng
        x = rng.random()
        if x < 0.5:
            return lit(rng.choice([0, 1, 5, -3, 2.5, 40, True]))
        if x < 0.8:
            return self.var(pool)
        return ("fn", rng.choice(["inc", "dec"]), [self.number(pool, nums, 0)])

    def fn(self, pool, nums, depth):
        rng = self.rng
        name = rng.choice(["list", "inc", "dec", "add", "list", "set", "dict"])
        self.obs.count["builtin"] += 1
        if name == "list":
            return ("fn", "list", [self.arg(pool, nums, depth) for _ in range(rng.randint(0, 3))])
        if name in ("inc", "dec"):
            return ("fn", name, [self.number(pool, nums, depth)])
        if name == "add":
            kind = rng.random()
            if kind < 0.5:
                return ("fn", "add", [self.number(pool, nums, depth) for _ in range(rng.randint(1, 3))])
            if kind < 0.8:
                return ("fn", "add", [lit(rng.choice(STRS)) for _ in range(rng.randint(1, 3))])
            return ("fn", "add", [("fn", "list", [self.literal()]), ("fn", "list", [self.literal(), self.literal()])])
        if name == "set":
            return ("fn", "set", [lit(rng.choice(["x", "y", 3, "x", None])) for _ in range(rng.randint(0, 3))])
        return ("fn", "dict", [])

    def stmts(self, pool, nums, n=None):
        rng = self.rng
        out = []
        for _ in range(n or rng.randint(1, 5)):
            x = rng.random()
            if x < 0.45:
                out.append(("assign", self.var(pool), self.arg(pool, nums)))
            elif x < 0.53:
                # swap through a third variable
                p, q = rng.sample(pool, 2)
                out += [("assign", ("var", "tmp"), ("var", p)), ("assign", ("var", p), ("var", q)),
                        ("assign", ("var", q), ("var", "tmp"))]
            elif x < 0.65:
                v = self.var(pool)
                out += [("assign", v, ("fn", "list", [self.literal()])),
                        ("fn", "append", [v, self.arg(pool, nums, 0), self.literal()])]
                self.obs.count["builtin"] += 2
            elif x < 0.7:
                v = self.var(pool)
                out += [("assign", v, ("fn", "dict", [])),
                        ("fn", "update", [v, lit(rng.choice(["k", 3, "k k", None])), self.arg(pool, nums, 1)]),
                        ("fn", "update", [v, lit(rng.choice(["k", "z"])), self.literal()])]
                self.obs.count["builtin"] += 3
            elif x < 0.74:
                v = self.var(pool)
                out += [("assign", v, ("fn", "set", [lit(1), lit("x")])),
                        ("fn", "append", [v, lit("x"), lit(rng.choice([2, "y", None]))])]
                self.obs.count["builtin"] += 2
            elif x < 0.76:
                # something which cannot be appended to or updated stays what it is
                v = self.var(pool)
                other = ("fn", rng.choice(["list", "set"]), []) if rng.random() < 0.4 else lit(rng.choice(["text", 5, 0.5, None, True]))
                if rng.random() < 0.5 and other[0] != "fn":
                    out += [("assign", v, other), ("assign", ("var", "tmp"), ("fn", "append", [v, lit("x"), lit(3)]))]
                else:
                    out += [("assign", v, other), ("assign", ("var", "tmp"), ("fn", "update", [v, lit("k"), self.literal()]))]
                out.append(("call", "ev", self.nid(), [v, ("var", "tmp")]))
                self.obs.count["unsuitable"] += 1
            elif x < 0.8:
                self.obs.count["printed"] += 1
                out.append(("fn", "print", [rng.choice([self.literal(), lit(rng.choice(STRS))])
                                            for _ in range(rng.randint(1, 3))]))
            elif x < 0.83:
                out.append(("call", rng.choice(["boom", "aboom"]), self.nid(), [self.arg(pool, nums, 0)]))
            else:
                out.append(("call", rng.choice(["ev", "aev"]), self.nid(),
                            [self.arg(pool, nums) for _ in range(rng.randint(0, 3))]))
        return out

    def show(self, pool, nums):
        """an action which shows every variable"""
        return [("call", "ev", self.nid(), [("var", v) for v in pool] + [("num", n) for n in nums])]


def unhashable_free(stmts):
    return stmts


def value_token(rng, g):
    x = rng.random()
    if x < 0.4:
        return N("const", text=rng.choice(gram.WORDS))
    if x < 0.6:
        g.tokens.setdefault("NUM", gram.TInt(-5, 99))
        return N("tok", name="NUM")
    if x < 0.8:
        g.tokens.setdefault("NAME", gram.TString())
        return N("tok", name="NAME")
    g.tokens.setdefault("FLAG", gram.TBool())
    return N("tok", name="FLAG")


def build(rng, obs):
    g = Gram()
    pg = PGen(rng, obs)
    sigs = []
    for i in range(rng.randint(0, 2)):
        nparams = rng.randint(0, 3) if rng.random() < 0.8 else rng.randint(4, 9)
        params, hasdef = [], False
        for p in rng.sample(["p", "q", "r", "a"] + (["t", "u", "v", "w", "x1", "p_2"] if nparams > 3 else []), nparams):
            if rng.random() < 0.4 or (hasdef and rng.random() < 0.5):
                hasdef = True
                params.append((p, lit(rng.choice(["dflt", "", "d d", 5, 0, -3, 2.5]))))
            else:
                params.append((p, NODEF))
        pool = [p for p, _ in params] + rng.sample(VARS, 2)
        pool = list(dict.fromkeys(pool))
        node = block(rng, pg, g, pool, "sub%d" % i, sigs)
        g.grammars.append(("sub%d" % i, params, node))
        sigs.append(("sub%d" % i, params))
    rparams = [(p, rng.choice([NODEF, NODEF, lit("rd"), lit(4)])) for p in rng.sample(["p", "q", "a", "out"], rng.randint(0, 3))]
    if rng.random() < 0.15:
        rparams += [(p, rng.choice([NODEF, lit("rd")])) for p in rng.sample(["e1", "e2", "e3", "e4", "e5"], rng.randint(2, 5))]
    pool = list(dict.fromkeys([p for p, _ in rparams] + rng.sample(VARS, 3)))
    g.grammars.append(("g", rparams, block(rng, pg, g, pool, "g", sigs, force_refs=bool(sigs))))
    return g, pg


def refargs(rng, pg, params, pool, nums, obs):
    args = []
    n = rng.randint(0, len(params))
    names = [p for p, _ in params]
    kw = rng.random() < 0.4
    pos = rng.randint(0, n) if kw else n

    def one():
        x = rng.random()
        if x < 0.55:
            obs.count["by_reference"] += 1
            return pg.var(pool)
        if x < 0.62 and nums:
            return ("num", rng.choice(nums))
        return pg.literal()
    for i in range(pos):
        args.append((None, one()))
    rest = names[pos:]
    rng.shuffle(rest)
    for p in rest[:n - pos]:
        args.append((p, one()))
        obs.count["keyword_args"] += 1
    given = set(names[:pos]) | set(p for p, _ in args if p)
    obs.count["defaults"] += sum(1 for p, d in params if p not in given and d is not NODEF)
    return args


def block(rng, pg, g, pool, tag, sigs, force_refs=False):
    kids = []
    n = rng.randint(2, 4) if rng.random() < 0.93 else rng.randint(9, 13)
    if n > 8:
        pg.obs.count["wide_blocks"] += 1
    for i in range(n):
        nums = list(range(1, len(kids) + 1))
        rep = rng.choice(["rep", "rep", "opt", "alt", "set"]) if rng.random() < 0.2 else None
        outer, nums = nums, [] if rep else nums
        if sigs and (force_refs and i > 0 or rng.random() < 0.4):
            name, params = rng.choice(sigs)
            k = N("ref", name=name, args=refargs(rng, pg, params, pool, nums, pg.obs), spell=1)
            pg.obs.count["refs"] += 1
        else:
            k = value_token(rng, g)
        here = [1] if rep else nums + [len(kids) + 1]
        k.post = pg.stmts(pool, here) + (pg.show(pool, here) if rng.random() < 0.6 else [])
        if rng.random() < 0.3:
            k.pre = pg.stmts(pool, [], 2)
        if rep:
            # arguments, variables and actions of every round, of what is left out, in any order
            kid = k if rng.random() < 0.5 else N("seq", [k, value_token(rng, g)])
            if rep == "rep":
                lo = rng.randint(1, 2)
                k = N("rep", [kid], m=lo, n=lo + rng.choice([0, 1, 1, 2]))
            elif rep == "opt":
                k = N("opt", [kid])
            else:
                other = N("seq", [N("const", text="%s%d" % (rep, i)), value_token(rng, g)])
                if sigs and rng.random() < 0.5:
                    name, params = rng.choice(sigs)
                    other.kids.append(N("ref", name=name, args=refargs(rng, pg, params, pool, [], pg.obs), spell=1))
                other.post = pg.stmts(pool, [1]) + pg.show(pool, [1, 2])
                k = N(rep, [kid, other] if rep == "alt" else [other, kid])
            pg.obs.count["in_" + rep] += 1
            own = outer + [len(kids) + 1]
            k.post = pg.stmts(pool, own) + (pg.show(pool, own) if rng.random() < 0.6 else [])
            if rep == "opt":
                # an action behind a trailing option would be the option's
                kids.append(k)
                k = value_token(rng, g)
        kids.append(k)
    node = N("seq", kids)
    node.pre = pg.stmts(pool, [], rng.randint(1, 3)) if rng.random() < 0.6 else []
    node.post = pg.show(pool, []) if rng.random() < 0.8 else []
    return node


def program(rng):
    """a grammar with parameters and programs, for other checks"""
    return build(rng, vlib.Obs())[0]


def run_case(rng, idx, obs):
    g, pg = build(rng, obs)
    text = gram.render(g, gram.Layout(rng, 1) if idx % 4 == 0 else None)
    model = Model(g)
    if rng.random() < 0.12:
        # handlers may have any name
        new = rng.choice(["call", "callback", "Nonesuch", "TrueOne", "_", "x__1", "token", "inc_", "input1"])
        text = re.sub(r"\bcall(\s+)ev(\s*)\(", lambda m: "call%s%s%s(" % (m[1], new, m[2]), text)
        obs.count["renamed_handlers"] += 1
        c = make_cli(vlib.compile_grammar(text), cls=type("C", (vlib.VCli,), {new: vlib.VCli.ev}))
    else:
        c = make_cli(vlib.compile_grammar(text))
    line = None
    for _ in range(6):
        l = gram.sample_line(rng, model)
        if model.tame(l, 10):
            line = l
            break
    if line is None:
        return
    ders = model.derivations(line)
    if not ders:
        return
    params = g.get("g")[0]
    for k in range(2):      # the second run must not see the first one's variables
        nargs = rng.randint(0, len(params))
        args = [rng.choice(["in1", 0, None, 5, "x y", ["l"], ""]) for _ in range(nargs)]
        for i in range(len(args)):
            if isinstance(args[i], list):
                args[i] = list(args[i])
        wants = []
        for d in ders:
            printed = []
            margs = [list(a) if isinstance(a, list) else a for a in args]
            log, final = model.execute(d, line, snap, args=margs, printed=printed)
            wants.append((log, printed, [snap(v) for v in final[:nargs]]))
        c.vout.seek(0), c.vout.truncate()
        r = do_match(c, line, arglist=args)
        obs.ev()
        if r.result != "success":
            check(len(ders) > 1, "not accepted", line=line, result=r.result, error=r.error, grammar=text)
            continue
        obs.count["runs"] += 1
        obs.count["calls"] += len(c.log)
        obs.count["final_params"] += nargs
        got = (list(c.log), c.vout.getvalue(), [snap(a) for a in args])
        ok = [w for w in wants if w[0] == got[0]]
        check(ok, "actions computed something else", line=line, got=got[0], want=wants[0][0], grammar=text)
        ok = [w for w in ok if "".join(p + "\n" for p in w[1]) == got[1]]
        check(ok, "print wrote something else", line=line, got=got[1], want=wants[0][1], grammar=text)
        ok = [w for w in ok if w[2] == got[2]]
        check(ok, "final parameter values differ", line=line, args=got[2], want=wants[0][2], grammar=text)
        obs.seen((text, tuple(line)))
    obs.sample({"grammar": text, "line": " ".join(line), "calls": [list(map(repr, e)) for e in c.log[:4]]})
