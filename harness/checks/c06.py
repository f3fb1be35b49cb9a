"""C06: abbreviations, exact keywords, preference over values, ambiguity."""
import vlib
from vlib import check, make_cli, do_match, run, snap
import gram
from gram import N, Gram, Model, cli_form

PID = "C06"
CASES = {"quick": 4500, "thorough": 120000}
RULE = ("command sets over keywords that share prefixes (also quoted ones and ones that are prefixes of others), at one to "
        "four positions, mixed with value tokens, alternatives and optional parts, an action on each; every abbreviation "
        "of every command and crossings of them; all candidate readings are enumerated by the reference interpreter and "
        "the outcome judged by the preference rules; non-trivial = distinct (grammar, abbreviated line)")
REQUIRED = {"unique": 20000, "exact_preferred": 1500, "must_be_ambiguous": 2100, "keyword_over_value": 280,
            "abbreviated": 17000}
ASSUMPTIONS = ["where neither reading is at least as exact as the other at every position, any reading or 'ambiguous' is accepted",
               "an enumerated token's unique abbreviation is not ranked against keywords",
               "a bounded string of maximal length is not ranked against an abbreviated keyword"]

FAMILIES = [
    ["show", "shutdown", "shut", "sh", "set", "s"],
    ["alpha", "alphabet", "alpine", "al", "beta"],
    ["start", "stop", "status", "stat", "restart"],
    ["a", "ab", "abc", "abcd", "b", "bc"],
    ["two words", "two wolves", "twofold", "two"],
    ["in-let", "in-line", "in", "out"],
    ["Up", "up", "upper", "UP"],
    ["10", "100", "1", "2x", "-1"],
    ['q"a', 'q"b', "q", "qq"],
    ["tab\tx", "tab\ty", "tab", "back\\slash", "back\\up"],
]


def word(rng, fams):
    return rng.choice(rng.choice(fams))


def build(rng):
    g = Gram()
    fams = rng.sample(FAMILIES, rng.choice([1, 1, 2]))
    cmds = []
    nid = 1
    seen = set()
    values = rng.random() < 0.45
    for _ in range(rng.randint(2, 6)):
        kids = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            x = rng.random()
            if values and x < 0.2:
                name = rng.choice(["STR", "NUM", "BOOL", "RS", "ALT"])
                g.tokens.setdefault(name, {"STR": gram.TString(), "NUM": gram.TInt(0, 120), "BOOL": gram.TBool(),
                                           "RS": gram.TRString(1, 4), "ALT": gram.TAlts(["show", "shop", "alpha"])}[name])
                kids.append(N("tok", name=name))
            elif x < 0.28:
                ws = list(dict.fromkeys(word(rng, fams) for _ in range(2)))
                if len(ws) == 2:
                    kids.append(N("alt", [N("const", text=w) for w in ws]))
                else:
                    kids.append(N("const", text=ws[0]))
            elif x < 0.34 and kids:
                kids.append(N("opt", [N("const", text=word(rng, fams))]))
            else:
                kids.append(N("const", text=word(rng, fams)))
        key = repr([(k.kind, k.text, k.name, [x.text for x in k.kids]) for k in kids])
        if key in seen:
            continue
        seen.add(key)
        n = N("seq", kids)
        n.post = [("call", "ev", nid, [("num", 1)])]
        for k in kids:
            if rng.random() < 0.5:
                nid += 1
                k.post = [("call", "ev", nid, [])]
        nid += 1
        cmds.append(n)
    if len(cmds) == 1:
        cmds.append(N("const", text="zulu"))
    if rng.random() < 0.3:
        # the same behind a common keyword
        node = N("seq", [N("const", text=word(rng, fams)), N("alt", cmds)])
    else:
        node = N("alt", cmds)
    g.grammars.append(("g", [], node))
    return g


def abbrev(rng, s):
    """an abbreviation which survives as one token"""
    n = rng.randint(1, len(s))
    p = s[:n]
    if s.startswith('"'):
        # unfinished quote: only as the last token of a typed line, valid in a token list
        if p.endswith("\\") and not p.endswith("\\\\"):
            return s
        if n < len(s) and p.endswith('"') and n > 1:
            return s
    return p


def lines(rng, model):
    out = []
    for _ in range(16):
        line = []
        def gen(m):
            if m.kind == "leaf":
                if m.leaf.tc is None:
                    s = m.leaf.cli
                    line.append(s if rng.random() < 0.35 else abbrev(rng, s))
                elif rng.random() < 0.5:
                    line.append(rng.choice(["sh", "show", "al", "a", "s", "alpha", "10", "t", "true"]))
                else:
                    line.append(m.leaf.tc.sample(rng))
            elif m.kind == "alt":
                gen(rng.choice(m.kids))
            elif m.kind == "opt":
                if rng.random() < 0.5:
                    for k in m.kids:
                        gen(k)
            else:
                for k in m.kids:
                    gen(k)
        gen(model.root)
        if line and line not in out:
            out.append(line)
    return out


GR = {"exact": 2, "prefix": 1, "value": 0}


def grades_of(model, d, line):
    """how exactly a reading matches, token by token, and whether it can be ranked"""
    grades = []
    loose = False
    for m, i in model.leaves(d):
        tc = m.leaf.tc
        grades.append(GR[m.leaf.accept(line[i])[0]])
        if tc is not None and tc.kind in ("alts", "int", "bool"):
            loose = True
        if tc is not None and tc.kind == "rstring" and len(gram.str_value(line[i])) >= tc.hi:
            loose = True
    return grades, loose


def equally_good(model, line):
    """is the line one which two commands fit equally well, and none better?"""
    if not model.tame(line, 30):
        return False
    ders = model.derivations(line)
    if not ders or len(ders) < 2:
        return False
    gs = [grades_of(model, d, line) for d in ders]
    if any(loose for _, loose in gs):
        return False
    return sum(1 for g, _ in gs if all(all(x >= y for x, y in zip(g, o)) for o, _ in gs)) > 1


def run_case(rng, idx, obs):
    g = build(rng)
    text = gram.render(g)
    model = Model(g)
    c = make_cli(vlib.compile_grammar(text))
    for line in lines(rng, model):
        if not model.tame(line, 30):
            continue
        ders = model.derivations(line)
        if ders is None:
            continue
        obs.ev()
        via_line = rng.random() < 0.3 and gram.joinable(line) and not any("\\" in t and not t.startswith('"') for t in line)
        if via_line:
            del c.log[:]
            rc = run(c.exec_line(" ".join(line)))
            result, values = ("success", None) if rc == 0 else ("no", None)
        else:
            r = do_match(c, line)
            result, values = r.result, r.matched_values
        log = list(c.log)
        if result != "success":
            check(not log, "a line that was not accepted ran something", line=line, log=log, grammar=text)
        if not ders:
            check(result != "success", "an abbreviation of nothing was accepted", line=line, grammar=text)
            obs.count["no_reading"] += 1
            continue
        if not via_line:
            check(result in ("success", "ambigous"), "a line with a reading was rejected", line=line, result=result, grammar=text)
        # the readings, with their grades
        cands = []
        for d in ders:
            grades, loose = grades_of(model, d, line)
            cands.append((grades, loose, [snap(v) for v in model.values(d, line)], model.execute(d, line, snap)[0], d))

        def outcome_is(cd):
            return (values is None or [snap(v) for v in values] == cd[2]) and log == cd[3]
        if result == "success":
            check(any(outcome_is(cd) for cd in cands), "no reading of the line behaves like this", line=line,
                  values=values, log=log, cands=[(cd[2], cd[3]) for cd in cands][:4], grammar=text)
        full = [m.leaf.cli if m.leaf.tc is None else line[i] for m, i in model.leaves(ders[0])]
        if full != line:
            obs.count["abbreviated"] += 1
            obs.seen((text, tuple(line)))
        if len(cands) == 1:
            obs.count["unique"] += 1
            check(result == "success", "the only reading of a line was not taken", line=line, result=result, grammar=text)
            if full != line and not any('"' in t[1:-1] for t in full):
                # exactly as if typed out, when that is unambiguous too
                d2 = model.derivations(full)
                if d2 is not None and len(d2) == 1:
                    r2 = do_match(c, full)
                    check(r2.result == "success" and c.log == log, "an abbreviation behaves unlike the full keyword",
                          line=line, full=full, got=log, want=list(c.log), grammar=text)
                    obs.count["as_full"] += 1
            continue
        if any(cd[1] for cd in cands):
            obs.count["unranked"] += 1
            continue
        best = [cd for cd in cands if all(all(x >= y for x, y in zip(cd[0], o[0])) for o in cands)]
        if len(best) == 1:
            top = best[0]
            obs.count["exact_preferred"] += 1
            if any(0 in o[0] for o in cands):
                obs.count["keyword_over_value"] += 1
            check(result == "success" and outcome_is(top), "the most exact reading was not taken", line=line, result=result,
                  values=values, log=log, want=top[2], grammar=text)
        elif len(best) > 1 and len(set(tuple(o[0]) for o in cands)) == 1:
            obs.count["must_be_ambiguous"] += 1
            check(result != "success", "one of two equally good commands was run", line=line, result=result, log=log,
                  cands=[cd[2] for cd in cands][:4], grammar=text)
            if not via_line:
                check(result == "ambigous", "not reported as ambiguous", line=line, result=result, grammar=text)
        elif len(best) > 1:
            # several best readings, some worse ones: still ambiguous
            obs.count["must_be_ambiguous"] += 1
            check(result != "success", "one of two equally good commands was run", line=line, result=result, log=log,
                  best=[cd[2] for cd in best][:4], grammar=text)
        else:
            obs.count["crossed"] += 1
    obs.sample({"grammar": text, "lines": [" ".join(l) for l in lines(rng, model)[:5]]})
