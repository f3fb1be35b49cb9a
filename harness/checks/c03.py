"""C03: actions of an accepted line run exactly once, in order, with their values."""
import vlib
from vlib import check, make_cli, do_match, run, snap
import gram
from gram import Gen, GenCfg, Model
import c01

PID = "C03"
CASES = {"quick": 2600, "thorough": 60000}
RULE = ("random grammars with recording actions (sync and async) before and after any term, block, set member, "
        "alternative, repeated block and reference; accepted lines sampled from them; the recorded calls are compared "
        "with the reference interpreter's; non-trivial = distinct (grammar, line) with three recorded calls or more")
REQUIRED = {"lines": 14000, "calls": 150000, "list_args": 21000, "none_args": 23000, "pre_actions": 5600,
            "repeat_bodies": 850}
ASSUMPTIONS = c01.ASSUMPTIONS


def config(rng, idx):
    w = c01.wide(rng, idx)
    if w:
        return w
    x = idx % 6
    if x == 0:
        return GenCfg(depth=2, clash=0.0, refs=0, string_tokens=0.1)
    if x == 1:
        return GenCfg(depth=3, clash=0.0, refs=2, string_tokens=0.1)
    if x == 2:
        return GenCfg(depth=3, clash=0.0, refs=1, kinds=["rep", "seq", "opt", "rep"], maxrep=5)
    if x == 3:
        return GenCfg(depth=3, clash=0.0, refs=1, kinds=["set", "seq", "opt", "alt"], maxkids=4)
    if x == 4:
        return GenCfg(depth=4, clash=0.0, refs=2, kinds=["seq", "alt", "ref", "opt", "seq"], string_tokens=0.0)
    return GenCfg(depth=3, clash=0.15, refs=1)


def count_kind(n, kind):
    return (n.kind == kind) + sum(count_kind(k, kind) for k in n.kids)


def count_pre(n):
    return bool(n.pre) + sum(count_pre(k) for k in n.kids)


def run_case(rng, idx, obs):
    gen = Gen(rng, config(rng, idx))
    g = gen.build()
    gen.add_actions(rng.choice([0.35, 0.6, 0.9]))
    text = gram.render(g, gram.Layout(rng, 1) if idx % 5 == 0 else None)
    model = Model(g)
    c = make_cli(vlib.compile_grammar(text))
    obs.count["pre_actions"] += sum(count_pre(n) for _, _, n in g.grammars)
    obs.count["repeat_bodies"] += sum(count_kind(n, "rep") for _, _, n in g.grammars)
    lines = []
    for _ in range(24):
        l = gram.sample_line(rng, model, stop=rng.choice([0.2, 0.5]))
        if l and len(l) <= 18 and tuple(l) not in [tuple(x) for x in lines] and model.tame(l, 40):
            lines.append(l)
    for line in lines:
        obs.ev()
        ders = model.derivations(line)
        if not ders:
            continue
        want = [model.execute(d, line, snap)[0] for d in ders]
        c.verr.seek(0), c.verr.truncate()
        via_exec = rng.random() < 0.25 and gram.joinable(line)
        if via_exec:
            del c.log[:]
            rc = run(c.exec_line(" ".join(line)))
            got = list(c.log)
            success = rc == 0
        else:
            r = do_match(c, line, arglist=[])
            got = list(c.log)
            success = r.result == "success"
            check(r.result in ("success", "ambigous"), "line not accepted", line=line, result=r.result, error=r.error, grammar=text)
        if not success:
            check(len(ders) > 1, "line not accepted", line=line, grammar=text)
            check(not got, "actions of an ambiguous line ran", line=line, got=got, grammar=text)
            obs.count["ambiguous"] += 1
            continue
        obs.count["lines"] += 1
        obs.count["calls"] += len(got)
        for e in got:
            for a in e[1:]:
                if isinstance(a, tuple) and a and a[0] == "list":
                    obs.count["list_args"] += 1
                elif a is None:
                    obs.count["none_args"] += 1
        check(got in want, "actions differ from the match", line=line, got=got, want=want[:2], grammar=text)
        check(c.verr.getvalue() == "", "error output for an accepted line", line=line, err=c.verr.getvalue()[:300], grammar=text)
        if len(got) >= 3:
            obs.seen((text, tuple(line)))
    if lines:
        obs.sample({"grammar": text, "line": " ".join(lines[0])})
