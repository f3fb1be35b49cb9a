"""C04: nothing runs unless the whole line is accepted."""
import vlib
from vlib import check, make_cli, do_match, run, typed, session, rlkey
import gram
from gram import Gen, Model
import c01
import c06

PID = "C04"
CASES = {"quick": 1500, "thorough": 40000}
RULE = ("random grammars with an action at nearly every part (calls, nested calls, print, failing handlers); every "
        "prefix of sampled lines, mutated, short, blank and untokenizable lines entered through match, exec_line and the "
        "command loop, and looked up (dry run with finished and unfinished last token, TAB on each); a fifth of the grammars have clashing keywords and lines that two commands fit equally well; the recorder and the "
        "output stream must stay silent; non-trivial = distinct (grammar, line not accepted)")
REQUIRED = {"ambiguous": 160, "rejected": 18000, "lookups": 45000, "tabs": 13000, "loop_rejected": 4200,
            "accepted_between": 4600}
ASSUMPTIONS = c01.ASSUMPTIONS


def actions_everywhere(gen, rng):
    gen.add_actions(0.95)
    # some prints and failing handlers among them
    def walk(n):
        for lst in (n.pre, n.post):
            for i, s in enumerate(lst):
                x = rng.random()
                if s[0] == "call" and x < 0.1:
                    lst[i] = ("call", rng.choice(["boom", "aboom"]), s[2], s[3])
                elif s[0] == "call" and x < 0.2:
                    lst[i] = ("fn", "print", [gram.lit("@P%d" % s[2]), ("call", "ev", s[2], [])])
                elif s[0] == "call" and x < 0.3:
                    lst[i] = ("assign", ("var", "w"), s)
        for k in n.kids:
            walk(k)
    for _, _, n in gen.g.grammars:
        walk(n)


def silent(c, what, line, text):
    check(not c.log, what + " ran actions", line=line, log=c.log[:5], grammar=text)
    check("@P" not in c.vout.getvalue(), what + " printed", line=line, out=c.vout.getvalue()[:200], grammar=text)


def clear(c):
    del c.log[:]
    c.vout.seek(0), c.vout.truncate()


def run_case(rng, idx, obs):
    clashing = idx % 5 == 3
    if clashing:
        g = c06.build(rng)
        for _, _, n in g.grammars:
            n.pre = [("call", "ev", 7000, []), ("fn", "print", [gram.lit("@P7000")])]
    else:
        gen = Gen(rng, c01.configs(rng, idx))
        gen.words = [w for w in gen.words]
        g = gen.build()
        actions_everywhere(gen, rng)
    text = gram.render(g)
    model = Model(g)
    c = make_cli(vlib.compile_grammar(text))
    base = c06.lines(rng, model) if clashing else c01.lines_for(rng, model, 8, 8, 15)
    lines, seen = [], set()
    for l in base:
        for n in range(0, len(l) + 1):
            if tuple(l[:n]) not in seen:
                seen.add(tuple(l[:n]))
                lines.append(l[:n])
    if len(lines) > 45:
        lines = rng.sample(lines, 45)
    wrong = []
    for line in lines:
        obs.ev()
        ok = bool(line) and model.analyse(line)[0]
        twice = clashing and c06.equally_good(model, line)
        obs.count["ambiguous"] += twice
        # looking the line up
        for ltc in (True, False):
            cut = list(line)
            if not ltc and cut and len(cut[-1]) > 1 and rng.random() < 0.6:
                cut[-1] = cut[-1][:rng.randint(1, len(cut[-1]))]
            clear(c)
            run(c.match(list(cut), dry_run=True, last_token_complete=ltc, arglist=rng.choice([None, []])))
            obs.count["lookups"] += 1
            silent(c, "looking a line up", cut, text)
        clear(c)
        r = do_match(c, line)
        if r.result != "success":
            obs.count["rejected"] += 1
            obs.seen((text, tuple(line)))
            silent(c, "a line that was not accepted", line, text)
            wrong.append(line)
        else:
            check(ok, "a line outside the language ran", line=line, grammar=text)
            check(not twice, "an ambiguous line ran", line=line, log=c.log[:5], grammar=text)
            obs.count["accepted_between"] += 1
        if gram.joinable(line):
            clear(c)
            rc = run(c.exec_line(" ".join(line)))
            check(not (twice and rc == 0), "an ambiguous line ran", line=line, log=c.log[:5], grammar=text)
            if rc != 0:
                silent(c, "exec_line of a rejected line", line, text)
                obs.count["exec_rejected"] += 1
    for bad in ("", "   ", "\t", "\\", "zz \\q", '"open', "zz \x01"):
        pre = " ".join(rng.choice(lines)) if rng.random() < 0.5 else ""
        clear(c)
        rc = run(c.exec_line((pre + " " if pre else "") + bad))
        if rc != 0:
            silent(c, "a blank or illegal line", [pre, bad], text)
            obs.count["odd_lines"] += 1
    # the command loop: TAB everywhere, then Ctrl-C or Enter
    todo = [l for l in lines if gram.joinable(l)]
    rng.shuffle(todo)
    steps = []
    for line in todo[:6]:
        s = " ".join(line)
        keys = []
        for i, ch in enumerate(s):
            keys.append(ch)
            if ch == " " and rng.random() < 0.6:
                keys += [rlkey.TAB] * rng.randint(1, 2)
                obs.count["tabs"] += 1
        keys += [rlkey.TAB] * rng.randint(0, 3)
        obs.count["tabs"] += 2

        def look(feed, rl, line=line):
            silent(c, "TAB", line, text)
            return [rlkey.CTRL_C]
        # observation point with the line typed and TABs pressed, then dropped
        steps += [keys, look]
    for line in wrong:
        if not line or not gram.joinable(line) or line[0].startswith("#") or "\\" in " ".join(line):
            continue
        steps.append(" ".join(line))

        def look2(feed, rl, line=line):
            silent(c, "a rejected line in the command loop", line, text)
            obs.count["loop_rejected"] += 1
            return []
        steps.append(look2)
        if len(steps) > 24:
            break
    clear(c)
    c.vout.seek(0), c.vout.truncate()
    c2 = c
    # prompts and echoes must not look like the printed marker
    session(c2, steps)
    obs.sample({"grammar": text, "lines": [" ".join(l) for l in lines[:6]]})
