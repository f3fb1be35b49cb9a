"""C09: splitting a line into tokens."""
import vlib
from vlib import check, make_cli, run
import reftok

PID = "C09"
CASES = {"quick": 5000, "thorough": 80000}
RULE = ("random lines over letters, blanks, tabs, quotes, backslashes, escapes and control characters (plus every string of "
        "length up to 5 over a small alphabet, spread over the cases) split by one CLI object in long histories including "
        "rejected lines, compared with a reference splitter and with a fresh object; non-trivial = distinct lines with a quote "
        "or a backslash")
REQUIRED = {"split": 85000, "illegal": 67000, "incomplete": 22000, "quoted": 80000, "fresh": 9000,
            "after_illegal": 39000, "delivered": 12000}
ASSUMPTIONS = ["inside quotes only the nine documented escapes have a defined splitting; with others, and with raw control "
               "characters inside quotes, only that the line is refused, or split losslessly, in order and nowhere inside the quotes, "
               "and that earlier lines do not matter"]

SMALL = 'a" \\n\t'
ALPH = ['a', 'b', 'Z', '0', '-', '"', '"', ' ', ' ', '\t', '\\', '\\"', '\\\\', '\\n', '\\0', '\\q', ';', '#', '*', "'", '{', '$',
        '\n', '\r', '\x01', 'é', '>', '.', ',', '/', '|', ':', '\x0b', '\x00', 'word', '"quoted text"', '\\t', '\\v']

SPEC = vlib.compile_grammar('token S StringToken(); g: << $l = list(); >> ( ( S << append($l, $1); >> ) * (1:40) ) << call ev(1, $l); >> ;')


def small_lines():
    import itertools
    for n in range(0, 6):
        for t in itertools.product(SMALL, repeat=n):
            yield "".join(t)


_small = None


def lossless(line, toks, what):
    pos = 0
    for t in toks:
        while pos < len(line) and line[pos] in " \t":
            pos += 1
        check(line.startswith(t, pos) and t, "tokens do not follow the line (%s)" % what, line=line, tokens=toks, at=pos)
        pos += len(t)
    check(line[pos:].strip(" \t") == "", "text was dropped (%s)" % what, line=line, tokens=toks)


def one(c, line, obs, prev_bad):
    obs.ev()
    ok, err, toks = c.tokenize(line)
    if not isinstance(toks, list):
        check(False, "splitting returned no list", line=line, got=repr(toks))
    got = [(str(t), bool(t.quoted), bool(t.quote_incomplete)) for t in toks]
    strict = True
    try:
        want = reftok.split(line)
    except reftok.Illegal:
        want = None
        # inside quotes with a foreign escape or control character: outside the rules
        strict = not in_quotes_illegal(line)
    if line == "\n":
        want, strict = [], True
    if want is None and strict:
        obs.count["illegal"] += 1
        check(not ok and not toks and err, "a line with an illegal character was split", line=line, got=got)
        return True
    if want is None:
        obs.count["outside_rules"] += 1
        if ok:
            lossless(line, [g[0] for g in got], "outside rules")
            check(not any(g[2] for g in got[:-1]), "a quoted string ended before its closing quote", line=line, got=got)
        return not ok
    obs.count["split"] += 1
    if prev_bad:
        obs.count["after_illegal"] += 1
    if '"' in line or "\\" in line:
        obs.seen(line)
    check(ok, "a line was not split", line=line, err=err)
    check(got == want, "wrong tokens", line=line, got=got, want=want)
    for t, q, inc in want:
        obs.count["quoted"] += q
        obs.count["incomplete"] += inc
    return False


def in_quotes_illegal(line):
    """is the first illegal place inside a quoted string?"""
    i, n = 0, len(line)
    inq = False
    while i < n:
        ch = line[i]
        if inq:
            if ch == '"':
                inq = False
            elif ch == "\\":
                if i + 1 < n and line[i + 1] not in reftok.ESCAPES:
                    return True
                i += 1
            elif ch in reftok.QBAD:
                return True
        else:
            if ch == '"':
                inq = True
            elif ch in "\n\\":
                return False
        i += 1
    return False


def rand_line(rng):
    x = rng.random()
    if x < 0.1:
        return " ".join('"%s"' % "".join(rng.choice(["x", " ", "\\n", '\\"', "\\\\", "\t" if rng.random() < 0.1 else "y"])
                                      for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 4)))
    if x < 0.2:
        return "".join(rng.choice(["a", '"', " "]) for _ in range(rng.randint(1, 14)))
    if x < 0.3:
        return "".join(rng.choice(['"', "\\", "n", " "]) for _ in range(rng.randint(1, 12)))
    if x < 0.34:
        return '"' + "x" * rng.choice([100, 1000]) + rng.choice(['"', "", "\\", '\\"'])
    return "".join(rng.choice(ALPH) for _ in range(rng.randint(0, rng.choice([4, 10, 25]))))


def run_case(rng, idx, obs):
    global _small
    if _small is None:
        _small = list(small_lines())
    c = make_cli(SPEC)
    bad = False
    n = CASES[vlib.TIER]
    chunk = _small[idx % n::n] if len(_small) > n else _small
    lines = chunk + [rand_line(rng) for _ in range(70)]
    rng.shuffle(lines)
    for line in lines:
        bad = one(c, line, obs, bad)
    # outside the rules too, the result depends only on the line
    for line in rng.sample(lines, 4):
        c2 = make_cli(SPEC)
        a, b = c.tokenize(line), c2.tokenize(line)
        obs.count["fresh"] += 1
        pic = lambda r: (r[0], [(str(t), bool(t.quoted), bool(t.quote_incomplete)) for t in r[2]])
        check(pic(a) == pic(b), "splitting depends on earlier lines", line=line, got=pic(a), fresh=pic(b))
    # the tokens reach the command
    for line in lines:
        try:
            want = reftok.split(line)
        except reftok.Illegal:
            continue
        if not want or len(want) > 30 or len(want) < 2 or rng.random() < 0.6:
            continue
        if any(inc and w.endswith("\\") for w, q, inc in want):
            continue
        from gram import str_value
        del c.log[:]
        rc = run(c.exec_line(line))
        check(rc == 0, "a line of strings was not accepted", line=line, rc=rc)
        vals = [str_value(w) for w, q, inc in want if not inc]
        got = list(c.log[0][1][1:])
        if want[-1][2]:
            got = got[:-1]
        check(got == vals, "the command got other tokens", line=line, got=got, want=vals)
        obs.count["delivered"] += 1
    obs.sample({"lines": lines[:8]})
