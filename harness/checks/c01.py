"""C01: acceptance = the grammar's language; values of the accepted line."""
import itertools

import vlib
from vlib import check, make_cli, do_match, run, snap
import gram
from gram import Gen, GenCfg, Model

PID = "C01"
CASES = {"quick": 2600, "thorough": 60000}
RULE = ("a case is a random grammar (all constructs, nested, 0-2 sub-grammars, clashing or distinct keywords) and its "
        "lines: sampled from the grammar, mutated, and every short line over its alphabet; non-trivial = distinct "
        "(grammar, accepted line of two tokens or more)")
REQUIRED = {"accepted": 12000, "rejected": 45000, "unambiguous": 11000, "with_repeat": 520, "with_set": 480,
            "with_ref": 200}
ASSUMPTIONS = ["bodies of repeats are not nullable", "integers are tried in canonical form (no leading zeros)",
               "a quoted literal is not named like a declared token (known finding)",
               "lines with several derivations may be reported ambiguous or take any of them"]


def wide(rng, idx):
    """long sequences, sets and lists of alternatives, many repetitions, deep nesting"""
    x = idx % 96
    if x == 4:
        return GenCfg(depth=1, clash=0.0, refs=0, kinds=["seq"], maxkids=rng.randint(10, 14), size=40)
    if x == 28:
        return GenCfg(depth=2, clash=0.0, refs=0, kinds=["rep", "rep", "seq"], maxrep=rng.randint(8, 14), maxkids=2)
    if x == 52:
        return GenCfg(depth=2, clash=rng.choice([0.0, 0.3]), refs=0, kinds=["alt", "opt"], maxkids=rng.randint(8, 12), size=40, value_tokens=False)
    if x == 76:
        return GenCfg(depth=7, clash=0.0, refs=4, maxkids=2, size=30, string_tokens=0.0)
    return None


def configs(rng, idx):
    w = wide(rng, idx)
    if w:
        return w
    x = idx % 8
    if x == 0:
        return GenCfg(depth=2, clash=0.0, refs=0)
    if x == 1:
        return GenCfg(depth=3, clash=0.1, refs=2)
    if x == 2:
        return GenCfg(depth=2, clash=0.6, refs=1)
    if x == 3:
        return GenCfg(depth=3, clash=0.0, refs=1, value_tokens=False, kinds=["set", "opt", "seq", "rep"])
    if x == 4:
        return GenCfg(depth=3, clash=0.0, refs=1, value_tokens=False, kinds=["rep", "alt", "seq", "opt"], maxrep=6)
    if x == 5:
        return GenCfg(depth=4, clash=0.0, refs=2, kinds=["opt", "seq", "alt", "ref"], string_tokens=0.0)
    if x == 6:
        return GenCfg(depth=2, clash=0.0, refs=2, kinds=["ref", "set", "rep", "opt"], string_tokens=0.1, maxkids=4)
    return GenCfg(depth=3, clash=0.2, refs=1, maxkids=4)


def features(g, obs):
    kinds = set()

    def walk(n):
        kinds.add(n.kind)
        for k in n.kids:
            walk(k)
    for _, _, n in g.grammars:
        walk(n)
    for k, name in (("rep", "with_repeat"), ("set", "with_set"), ("ref", "with_ref"), ("opt", "with_optional"), ("alt", "with_alternatives")):
        if k in kinds:
            obs.count[name] += 1


def lines_for(rng, model, nsample=14, nmut=14, nshort=40):
    alphabet = gram.all_leaf_tokens(rng, model)
    out = []
    for _ in range(nsample):
        l = gram.sample_line(rng, model)
        if len(l) <= 16:
            out.append(l)
    base = list(out)
    for _ in range(nmut):
        out.append(gram.mutate_line(rng, rng.choice(base) if base else [], alphabet))
    short = alphabet[:5] if len(alphabet) <= 5 else rng.sample(alphabet, 5)
    every = [list(t) for n in (1, 2, 3) for t in itertools.product(short, repeat=n)]
    if len(every) > nshort:
        every = every[:len(short)] + rng.sample(every[len(short):], nshort - len(short))
    out += every
    seen, res = set(), []
    for l in out:
        if l and tuple(l) not in seen and len(l) <= 16 and model.tame(l):
            seen.add(tuple(l))
            res.append(l)
    return res


def judge(model, line, r, obs, text):
    """the verdict on one finished line; returns the derivations"""
    ok, _ = model.analyse(line)
    if not ok:
        obs.count["rejected"] += 1
        check(r.result != "success", "a line outside the language was accepted", line=line, grammar=text)
        return []
    obs.count["accepted"] += 1
    check(r.result in ("success", "ambigous"), "a line of the language was not accepted", line=line,
          result=r.result, error=r.error, grammar=text)
    ders = model.derivations(line)
    if ders is None:
        return None
    check(len(ders) > 0 or True, "model")
    if len(ders) == 1:
        obs.count["unambiguous"] += 1
        check(r.result == "success", "an unambiguous line of the language was not accepted", line=line,
              result=r.result, error=r.error, grammar=text)
    if r.result == "success":
        got = [snap(v) for v in r.matched_values]
        want = [[snap(v) for v in model.values(d, line)] for d in ders]
        check(got in want, "wrong values for an accepted line", line=line, got=got, want=want[:4], grammar=text)
    else:
        obs.count["ambiguous"] += 1
    return ders


def run_case(rng, idx, obs):
    gen = Gen(rng, configs(rng, idx))
    g = gen.build()
    text = gram.render(g, gram.Layout(rng, 1) if idx % 3 == 0 else None)
    model = Model(g)
    features(g, obs)
    c = make_cli(vlib.compile_grammar(text))
    lines = lines_for(rng, model)
    for line in lines:
        obs.ev()
        r = do_match(c, line, arglist=[])
        ders = judge(model, line, r, obs, text)
        if ders and len(line) > 1:
            obs.seen((text, tuple(line)))
        if rng.random() < 0.1 and gram.joinable(line):
            # the same through the programmatic entry point
            rc = run(c.exec_line(" ".join(line)))
            check((rc == 0) == (r.result == "success"), "exec_line disagrees with match", line=line, rc=rc, result=r.result, grammar=text)
            obs.count["exec_line"] += 1
    obs.sample({"grammar": text, "lines": [" ".join(l) for l in lines[:6]]})


def known_probe(ident):
    if ident == "quoted-token-name":
        vlib.new_loop()
        c = make_cli(vlib.compile_grammar('token S StringToken(); g: "S";'))
        return do_match(c, ["abc"]).result == "success"
    return False
