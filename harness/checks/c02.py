"""C02: partial / failure classification and offending position."""
import vlib
from vlib import check, make_cli, do_match
import gram
from gram import Gen, Model
import c01

PID = "C02"
CASES = {"quick": 1400, "thorough": 50000}
RULE = ("random grammars as for C01; every prefix of sampled lines, mutated lines and short lines, each matched as a "
        "finished line, as a typed line with finished last token and as a typed line with every cut of its last token; "
        "non-trivial = distinct (grammar, rejected or unfinished line)")
REQUIRED = {"partial": 7600, "failure": 17000, "failure_late": 10000, "dry_partial": 11000, "dry_failure": 17000,
            "cut_token": 96000}
ASSUMPTIONS = c01.ASSUMPTIONS + ["unfinished decimal numbers are left to C11"]


def check_final(model, line, r, obs, text):
    kind, pos = model.classify(line)
    if kind == "accept":
        obs.count["accepted"] += 1
        check(r.result in ("success", "ambigous"), "accepted line misclassified", line=line, result=r.result, grammar=text)
    elif kind == "partial":
        obs.count["partial"] += 1
        check(r.result == "partial", "an incomplete line was not reported partial", line=line, result=r.result, error=r.error, grammar=text)
        check("not complete" in str(r.error), "an incomplete line without its message", line=line, error=r.error, grammar=text)
    else:
        obs.count["failure"] += 1
        if pos > 0:
            obs.count["failure_late"] += 1
        check(r.result == "failure", "a wrong line was not reported as failure", line=line, result=r.result, error=r.error, grammar=text)
        check(r.offending_token_position == pos, "wrong offending position", line=line, got=r.offending_token_position, want=pos, grammar=text)
        check(r.offending_token == line[pos], "wrong offending token", line=line, got=r.offending_token, want=line[pos], grammar=text)
        check(bool(r.error), "failure without an error text", line=line, grammar=text)


def viable(model, done, last):
    """can tokens `done` followed by a token starting with `last` start a command?"""
    _, nexts = model.analyse(done)
    res = [l.viable(last) for l in nexts.values()]
    if any(x is True for x in res):
        return True
    return None if any(x is None for x in res) else False


def run_case(rng, idx, obs):
    gen = Gen(rng, c01.configs(rng, idx))
    g = gen.build()
    text = gram.render(g)
    model = Model(g)
    c = make_cli(vlib.compile_grammar(text))
    base = c01.lines_for(rng, model, 8, 10, 25)
    lines = []
    seen = set()
    for l in base:
        for n in range(1, len(l) + 1):
            if tuple(l[:n]) not in seen:
                seen.add(tuple(l[:n]))
                lines.append(l[:n])
    if len(lines) > 60:
        lines = rng.sample(lines, 60)
    for line in lines:
        obs.ev()
        r = do_match(c, line)
        check_final(model, line, r, obs, text)
        if r.result != "success":
            obs.seen((text, tuple(line)))
        # typed, last token finished
        kind, pos = model.classify(line)
        r = do_match(c, line, dry_run=True, last_token_complete=True)
        if kind == "failure":
            obs.count["dry_failure"] += 1
            check(r.result == "failure", "a typed line that cannot be continued was not a failure", line=line, result=r.result, grammar=text)
            check(r.offending_token_position == pos and r.offending_token == line[pos], "typed line: wrong offending token",
                  line=line, got=(r.offending_token, r.offending_token_position), want=pos, grammar=text)
        else:
            obs.count["dry_partial"] += 1
            check(r.result == "partial", "a typed line that can be continued was not partial", line=line, result=r.result, grammar=text)
        # typed, last token not finished: every cut of it
        last = line[-1]
        cuts = range(1, len(last) + 1)
        if len(last) > 4:
            cuts = sorted(set(rng.sample(list(cuts), 3) + [len(last)]))
        k2, p2 = model.classify(line[:-1])
        for n in cuts:
            cut = last[:n]
            if cut.endswith("\\") and not cut.endswith("\\\\"):
                continue
            want = viable(model, line[:-1], cut) if k2 != "failure" else False
            if want is None:
                continue
            r = do_match(c, line[:-1] + [cut], dry_run=True, last_token_complete=False)
            obs.count["cut_token"] += 1
            check(r.result == ("partial" if want else "failure"), "unfinished line misclassified",
                  line=line[:-1] + [cut], result=r.result, want=want, error=r.error, grammar=text)
    obs.sample({"grammar": text, "lines": [" ".join(l) for l in lines[:6]]})
