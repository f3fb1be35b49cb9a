"""C13: layout does not matter, bad grammar text is rejected."""
import re

import vlib
from vlib import check, make_cli, do_match, run, snap, compile_grammar, EndOfInpuToken
import gram
from gram import Gen, GenCfg, Model, NODEF, lit
import c01
import c05
import c05

PID = "C13"
CASES = {"quick": 160, "thorough": 7000}
RULE = ("random grammars with tokens, parameters and actions; the plain text is laid out anew token by token (blanks, LF/CRLF/CR, all comment "
        "kinds with hostile content, none where allowed), with redundant parentheses, grouped and moved declarations, reordered definitions and other "
        "help texts, and all variants must accept the same lines with the same values and actions; and the texts are broken in ways that are "
        "invalid by construction, each of which must be rejected; non-trivial = distinct (text variant) and distinct broken texts")
REQUIRED = {"programs": 13, "bad_arguments": 210, "variants": 640, "lines_compared": 15000, "accepted": 4900,
            "rejected_texts": 3500, "hostile_names": 72, "after_bad": 72}
ASSUMPTIONS = ["a grammar is defined before it is referenced (known finding forward-grammar-reference)", "comments inside actions contain no '>' and no backslash"]

TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|<<|>>|\$[A-Za-z_0-9]+|0[xX][0-9a-fA-F]+|[-+]?\d*\.\d+|[-+]?\d+|[A-Za-z_][-A-Za-z0-9_]*|[^\s]''')


def split_text(text):
    return TOK.findall(text)


def wordish(t):
    return t[0].isalnum() or t[0] in "$_-+." or t[-1].isalnum()


HOSTILE = ['x', ' " ', '"open', ' ; ', '( { [', '*/', ' ) } ]', '<<', 'token T;', 'g: "a";', '| ,', "'", "//", "#", ' call f(1);', ' 0 ', 'é漢', '@%&', '$x', '* 3']


def comment(rng, inner, nl):
    body = "".join(rng.choice(HOSTILE) for _ in range(rng.randint(0, 3)))
    if not inner and rng.random() < 0.3:
        body += rng.choice([">>", ">", "\\", "\\n", '\\"'])
    x = rng.random()
    if x < 0.34:
        return "//" + body + nl
    if x < 0.67:
        return "#" + body + nl
    return "/*" + body.replace("*/", "+/") + rng.choice(["", nl, nl + " * " + nl, "*", "**"]) + "*/"


def sep(rng, need, inner, nl):
    x = rng.random()
    if x < 0.25 and not need:
        return ""
    if x < 0.55:
        return rng.choice([" ", "  ", "\t", " \t "])
    if x < 0.75:
        return rng.choice([nl, nl + nl, " " + nl + "   ", nl + "\t"])
    if x < 0.8 and not inner:
        return " \\" + nl + " "
    s = comment(rng, inner, nl)
    if rng.random() < 0.3:
        s += sep(rng, False, inner, nl)
    return s


def relay(rng, text):
    """the same tokens, laid out anew"""
    toks = split_text(text)
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    out, inner = [], False
    if rng.random() < 0.5:
        out.append(sep(rng, False, False, nl))
    for i, t in enumerate(toks):
        out.append(t)
        if t == "<<":
            inner = True
        nxt = toks[i + 1] if i + 1 < len(toks) else None
        if nxt == ">>" or t == ">>":
            inner = t != ">>" and inner
        if t == ">>":
            inner = False
        if nxt is not None:
            out.append(sep(rng, wordish(t) and wordish(nxt), inner, nl))
    if rng.random() < 0.5:
        out.append(sep(rng, False, False, nl))
    return "".join(out)


def deps(node):
    out = set()

    def walk(n):
        if n.kind == "ref":
            out.add(n.name)
        for k in n.kids:
            walk(k)
    walk(node)
    return out


def reorder(rng, g):
    """another definition order in which every grammar still precedes its references"""
    left, done, res = list(g.grammars), set(), []
    while left:
        ready = [x for x in left if deps(x[2]) <= done]
        x = rng.choice(ready)
        left.remove(x)
        res.append(x)
        done.add(x[0])
    return res


def change_help(rng, g):
    def walk(n):
        if n.kind in ("const", "tok"):
            n.help = rng.choice([None, "a help", "other: \"help\"; (", "x", ""]) if rng.random() < 0.5 else n.help
        for k in n.kids:
            walk(k)
    for _, _, n in g.grammars:
        walk(n)


NAMES = ["token", "import", "True", "False", "None", "call", "tokenx", "token1", "Trueish", "importer", "None1", "a-b", "a-b-c", "T", "T1", "T11", "T-1",
         "_x", "x_", "False-1", "print", "list", "StringToken", "g1", "t_", "__", "A-", "ref"]


def outcome(c, line, arglist):
    r = do_match(c, line, arglist=arglist)
    return (r.result, r.offending_token_position, tuple(snap(v) for v in r.matched_values or ()), tuple(c.log),
            tuple(snap(a) for a in arglist), c.verr.getvalue())


def run_case(rng, idx, obs):
    gen = Gen(rng, c01.configs(rng, idx))
    if rng.random() < 0.25:
        g = c05.program(rng)
        obs.count["programs"] += 1
    else:
        g = gen.build()
        gen.add_actions(0.6)
    plain = gram.render(g)
    model = Model(g)
    lines = c01.lines_for(rng, model, 10, 8, 12)
    base = make_cli(compile_grammar(plain))
    want = [outcome(base, l, []) for l in lines]
    saved = list(g.grammars)
    for v in range(9):
        if v % 3 == 0:
            text = relay(rng, plain)
        else:
            g.grammars = reorder(rng, g)
            if v % 3 == 2:
                change_help(rng, g)
            text = gram.render(g, gram.Layout(rng, 1))
            if v > 4:
                text = relay(rng, strip_comments(text))
        obs.count["variants"] += 1
        obs.seen(text)
        try:
            spec = compile_grammar(text)
        except Exception as e:
            check(False, "a text that differs only in its layout was rejected", error=repr(e), text=text, plain=plain)
        c = make_cli(spec)
        for l, w in zip(lines, want):
            obs.ev()
            got = outcome(c, l, [])
            obs.count["lines_compared"] += 1
            obs.count["accepted"] += got[0] == "success"
            check(got == w, "the layout of the grammar changed a line", line=l, got=got, want=w, text=text, plain=plain)
    g.grammars = saved
    names(rng, obs)
    bad_texts(rng, idx, plain, obs)
    obs.sample({"plain": plain[:500], "variant": text[:700]})


def strip_comments(text):
    out, i = [], 0
    pat = re.compile(r'"(?:[^"\\]|\\.)*"|/\*.*?\*/|//[^\n]*|#[^\n]*|.', re.S)
    for m in pat.finditer(text):
        s = m.group(0)
        if s.startswith("/*") or s.startswith("//") or s.startswith("#"):
            out.append(" ")
        else:
            out.append(s)
    return "".join(out)


def names(rng, obs):
    """declared names mean the declared thing, whatever they look like"""
    ns = rng.sample(NAMES, 4)
    t1, t2, gn, kw = ns
    decls = ["token %s RangedIntToken(1, 20);" % t1, "token %s BooleanToken();" % t2]
    if rng.random() < 0.5:
        decls = ["token %s RangedIntToken(1, 20), %s BooleanToken();" % (t1, t2)]
    body = "main: %s %s %s %s << call ev(1, $1, $2, $3, $4); >> ;" % (gn, t2, kw, t1)
    sub = '%s: %s "x" << call ev(2, $1); >> ;' % (gn, t1)
    parts = [sub, body]
    for d in decls:
        parts.insert(rng.randint(0, len(parts)), d)
    text = relay(rng, "\n".join(parts))
    c = make_cli(compile_grammar(text), root="main")
    n1, n2 = rng.randint(1, 20), rng.randint(1, 20)
    r = do_match(c, [str(n1), "x", "true", kw, str(n2)])
    obs.count["hostile_names"] += 1
    want = [(2, ("int", n1)), (1, ("list", ("int", n1), "x"), True, kw, ("int", n2))]
    check(r.result == "success" and c.log == want, "a declared name does not mean what it was declared for", names=ns, result=r.result, log=c.log, want=want, text=text)
    for bad in ([t1, "x", "true", kw, "3"], [gn, "true", kw, "3"], ["3", "x", t2 + "x", kw, "3"], ["3", "x", "true", "7", "3"]):
        r = do_match(c, bad)
        check(r.result != "success", "a declared name is taken as a keyword", names=ns, line=bad, text=text)


# -- texts that are wrong by construction ----------------------------------

PREFIX = 'token Tq RangedIntToken(1, 5); sq[$a, $b = 7]: "in" Tq << $a = $2; >> ; s0: "zero"; '

FIXED = [
    'q "a";', 'q: ;', 'q: "a" | ;', 'q: | "a";', 'q: "a" || "b";', 'q: "a" , ;', 'q: , "a";', 'q: "a" , "b" "c";', 'q: ("a";', 'q: "a");', 'q: {"a";', 'q: "a"};',
    'q[: "a";', 'q]: "a";', 'q: "a" = "b";', 'q: "a" $x;', 'q: "a" 5;', 'q: 5;', 'q: ();', 'q: {};', 'q: "a" & "b";', 'q: "a" : "h" : "k";', 'q: "a" : h;', 'q: a : 5;',
    'q: ("a")*;', 'q: ("a")*0;', 'q: ("a")*(0);', 'q: ("a")*(0:0);', 'q: ("a")*-1;', 'q: ("a")*(-2:3);', 'q: ("a")*(2:-3);', 'q: ("a")*(-1);', 'q: ("a")*(-3:-1);', 'q: ("a")*1.5;',
    'q: ("a")*x;', 'q: ("a")*"2";', 'q: ("a")*();', 'q: ("a")*(1:);', 'q: ("a")*(:2);', 'q: ("a")*(1,2);', 'q: ("a")*(1:2:3);', 'q: *3 "a";', 'q: ("a")* 2 5;', 'q: ("a")*0x0;', 'q: "a"*0;',
    'q: {"a"}*0;', 'q: sq[]*0;', 'q: Tq*0;', 'q: ("x" ("a")*0)*3;', 'q: {("a")*(0:0)};',
    'token T; token T; q: T;', 'token T, T; q: T;', 'token T; T: "a"; q: T;', 'T: "a"; token T; q: T;', 'q: "a"; q: "b";', 'q: "a"; q: "a";', 'token Tq; q: "a";', 'Tq: "a"; q: "b";', 'sq: "a";',
    'token sq; q: "b";', 'token A StringToken(), B StringToken(), A BooleanToken(); q: A;', 'q: "a"; token Z; q: Z;', 'token T BooleanToken(); token T BooleanToken();',
    'token T StringToken(; q: T;', 'token T StringToken; q: T;', 'token T (); q: T;', 'token ; q: "a";', 'token T StringToken() q: T;', 'token T StringToken(1,); q: T;', 'token T StringToken($x); q: T;',
    'token T, ; q: T;', 'token "T"; q: "a";', 'token 5; q: "a";', 'token T RangedIntToken(1 5); q: T;', 'token T U; q: T;',
    's[$a,$a]: "x"; q: s;', 's[$a,$b=1,$a]: "x"; q: s;', 's[$a=1,$a]: "x"; q: s;', 's[$b,$a=1,$a="2"]: "x"; q: s;', 's[a]: "x"; q: s;', 's[$1]: "x"; q: s;', 's[$a=]: "x"; q: s;', 's[$a,]: "x"; q: s;', 's[5]: "x";',
    's["a"]: "x";', 's[$a $b]: "x";', 'q[$x, $y, $z, $x]: "x";',
    'q: s0[1];', 'q: s0["x"];', 'q: s0[$v];', 'q: s0[None];', 'q: sq[1,2,3];', 'q: sq[1,2,$b=3];', 'q: sq[$c=1];', 'q: sq[$a=1,$a=2];', 'q: sq[1,$a=2];', 'q: sq[$b=1,2];', 'q: sq[1;', 'q: sq[,];', 'q: sq[$a=];',
    'q: sq[1,2;', 'q: sq 1];', 'q: sq[1 2];', 'q: sq[$a==1];', 'q: sq[a=1];', 'q: sq[$b=1,$b=1];', 'q: "k" {sq[1,2,3]};', 'q: (sq[$zz=1])*2;', 'q: s0[$a=1];', 'q: sq[$1,$2,$3];',
    'q: "abc;', 'q: "a\\q";', 'q: "a\nb";', 'q: "a\tb";', 'q: "a" /* x ;', 'q: "a" << call f();', 'q: "a" << call f(); > ;', 'q: "a" >> ;', 'q: "a" << $x ;', "q: 'a';", 'q: "a"" ;', 'q: "\\x41";', 'q: "a\\" ;',
    'q: "a" << call ; >>;', 'q: "a" << $x = ; >>;', 'q: "a" << foo ; >>;', 'q: "a" << foo >>;', 'q: "a" << call f( ; >>;', 'q: "a" << 5; >>;', 'q: "a" << call f() >>;', 'q: "a" << $x = 5 >>;', 'q: "a" << $x 5; >>;',
    'q: "a" << = 5; >>;', 'q: "a" << call f(1,); >>;', 'q: "a" << call f(,1); >>;', 'q: "a" << call f(1 2); >>;', 'q: "a" << "str"; >>;', 'q: "a" << @ >>;', 'q: "a" << $1 = 5; >>;', 'q: "a" << ; >>;', 'q: "a" << ;; >>;',
    'q: "a" << call f("x); >>;', 'q: "a" << call f(1)); >>;', 'q: "a" << { >>;', 'q: "a" << call f(1); } >>;', 'q: "a" << "a >>;', 'q: "a" << "a" >>;', 'q: "a" << $x == 5; >>;', 'q: "a" << call 5(); >>;',
    'q: "a" << call "f"(); >>;', 'q: "a" << $x = $; >>;', 'q: "a" << $x = call; >>;', 'q: "a" << $x = foo; >>;', 'q: "a" << $x = -; >>;', 'q: "a" << call f(1;2); >>;', 'q: "a" << call f[1]; >>;', 'q: << [ >> "a";',
    'q: "a" << * >>;', 'q: "a" << | call f(1); >>;', 'q: "a" << call f(1); & call f(2); >>;', 'q: "a" << : >>;', 'q: "a" << call f(1); "x" "y" >>;', 'q: "a" << call f(1, call g(2); >>;', 'q: "a" << $x = call f(; >>;',
    'q: "a" << call f(1) call f(2); >>;', 'q: "a" << $x = $y = 2; >>;', 'q: "a" << print(1,,2); >>;', 'q: "a" << $x += 1; >>;', 'q: "a" << call f($x = 1); >>;', 'q: "a" << call f(*); >>;', 'q: "a" << 1 + 2; >>;',
    '<< $x = 1; >>', '"a";', 'q', 'q:', 'token', 'import', 'import x;', '5;', ';', 'q: "a";;', 'q: "a"; ;', 'q: "a"; "b"', 'q: "a"; &', 'q: "a"; )', 'q: "a"; 5', 'q: "a"; "unclosed', 'q: "a"; h', 'q: "a"; @', '@ q: "a";', '|',
    'q: <<>> ;', 'q: "a" | << >> ;', 'q: { << call f(1); >> };', 'q: ( << call f(1); >> );', ': "a";', 'q:: "a";', 'q; "a";', '[$a]: "a";', 'q[$a]"a";', 'q: "a" . "b";',
]


def rejected(text, what, obs):
    obs.ev()
    obs.count["rejected_texts"] += 1
    obs.seen(text)
    try:
        compile_grammar(text)
    except Exception:
        return
    check(False, "a bad grammar text was compiled", what=what, text=text)


def in_parts(toks):
    """flags: is token i inside an action; between ':' and ';' of a rule"""
    act, rule, a, r = [], [], False, False
    prev = None
    for i, t in enumerate(toks):
        if t == ">>":
            a = False
        act.append(a)
        if not a and t == ";":
            r = False
        rule.append(r)
        if not a and t == ":" and not r:
            r = True
        if t == "<<":
            a = True
    return act, rule


def bad_references(rng, obs):
    """arguments which do not fit the parameters, and ones which do"""
    names = rng.sample(["a", "b", "c", "d", "e", "a1", "ab", "_a"], rng.randint(1, 6))
    sig = ", ".join("$%s%s" % (n, rng.choice(["", "", " = 7", ' = "d"', " = -2.5"])) for n in names)
    vals = ["1", '"x"', "$v", "True", "None", "-2", "1.5", "0x1F"]
    pos = rng.randint(0, len(names))
    kw = rng.sample(names[pos:], rng.randint(0, len(names) - pos))
    args = [rng.choice(vals) for _ in range(pos)] + ["$%s=%s" % (n, rng.choice(vals)) for n in kw]
    good = list(args)
    what = rng.choice(["too many", "unknown keyword", "keyword twice", "given by position and keyword", "position after keyword"])
    if what == "too many":
        args = [rng.choice(vals) for _ in range(len(names) + rng.randint(1, 3))]
        if pos < len(names) and rng.random() < 0.4:
            args = [rng.choice(vals) for _ in range(len(names))] + ["$%s=1" % rng.choice(names)]
    elif what == "unknown keyword":
        args.insert(rng.randint(pos, len(args)), "$%s=1" % rng.choice(["zz", names[0] + "x", names[-1].upper()]))
    elif what == "keyword twice":
        if not kw:
            return
        args.insert(rng.randint(pos, len(args)), "$%s=%s" % (rng.choice(kw), rng.choice(vals)))
    elif what == "given by position and keyword":
        if not pos:
            return
        args.insert(rng.randint(pos, len(args)), "$%s=%s" % (names[rng.randrange(pos)], rng.choice(vals)))
    else:
        if not kw:
            return
        args.insert(rng.randint(pos + 1, len(args)), rng.choice(vals))
    ref = rng.choice(['%s', '{%s} "k"', '(%s) * 2', '(%s) * (1:3)', '"k" | %s', '("j" | "k" %s) "l"', '"m", %s'])
    for a, ok in ((good, True), (args, False)):
        text = 's[%s]: "s" << call ev(%s); >> ; main: %s;' % (sig, ", ".join("$" + n for n in names), ref % ("s[%s]" % ", ".join(a) if a else "s"))
        if not ok:
            rejected(text, "arguments: " + what, obs)
            obs.count["bad_arguments"] += 1
            continue
        try:
            compile_grammar(text)
        except Exception as e:
            check(False, "arguments which fit were rejected", error=repr(e), text=text)


def bad_texts(rng, idx, plain, obs):
    for _ in range(4):
        bad_references(rng, obs)
    n = len(FIXED)
    for k in range(6):
        f = FIXED[(idx * 6 + k) % n]
        rejected(PREFIX + f, "fixed", obs)
        # somewhere in a good text
        if not f.startswith(";") and f.endswith(";") and '"unclosed' not in f and f.count('"') % 2 == 0:
            text = plain + PREFIX + f + ' zz: "fine";'
            if f not in ('q: "a"; h',):
                rejected(rng.choice([text, relay(rng, text) if f.count("/*") == 0 and "<<" not in f and "\\" not in f and "\n" not in f and "\t" not in f and "'" not in f else text]),
                         "fixed in context", obs)
    toks = split_text(plain)
    act, rule = in_parts(toks)
    inside = [i for i in range(len(toks)) if rule[i] and not act[i] and toks[i] not in ("<<", ">>")]
    # unbalanced brackets
    br = [i for i in range(len(toks)) if toks[i] in "(){}[]" and not act[i]]
    for _ in range(4):
        if br:
            i = rng.choice(br)
            rejected(" ".join(toks[:i] + toks[i + 1:]), "bracket removed", obs)
            i = rng.choice(br)
            other = rng.choice([b for b in "(){}[]" if b != toks[i]])
            rejected(" ".join(toks[:i] + [other] + toks[i + 1:]), "bracket replaced", obs)
        i = rng.choice(inside)
        rejected(" ".join(toks[:i] + [rng.choice("(){}[]")] + toks[i:]), "bracket inserted", obs)
    # foreign characters and tokens
    for _ in range(6):
        i = rng.choice(inside)
        if toks[i - 1] == "*" or "[" in toks[max(0, i - 20):i]:
            continue
        ins = rng.choice(["@", "%", "?", "!", "~", "^", "`", ".", "<", "/", "\\", "'", "=", "$x", "$1", "| |", ", ,", "::", ">>", "&", "+", "\x01", "é"])
        rejected(" ".join(toks[:i] + [ins] + toks[i:]), "stray " + ins, obs)
    # cut short
    for _ in range(3):
        i = rng.choice(inside)
        rejected(" ".join(toks[:i]), "cut inside a rule", obs)
    # doubled names
    m = re.findall(r"^token (\S+)", plain, re.M)
    gs = re.findall(r"^(\w+)(?:\[.*?\])?:", plain, re.M)
    for nme in m[:2] + gs[-2:]:
        k = rng.choice(["token %s;" % nme, "token zz, %s StringToken();" % nme, '%s: "again";' % nme, '%s[$p]: "again" << call f($p); >> ;' % nme])
        rejected(rng.choice([plain + k, k + plain]), "defined twice", obs)
    # actions
    acts = [i for i in range(len(toks)) if act[i]]
    for _ in range(4):
        if not acts:
            break
        i = rng.choice(acts)
        ins = rng.choice(["{", "}", "[", "]", "|", "&", ":", "*", "(", ")", "@", "%", "= =", "call", ";;", "<<"])
        t2 = toks[:i] + [ins] + toks[i:]
        if ins == "call" and (toks[i] in ("call",) or re.match(r"[A-Za-z_]", toks[i])):
            continue        # 'call' before a function name is another valid statement
        if ins == "call" and toks[i] == "(":
            continue
        rejected(" ".join(t2), "stray %s in an action" % ins, obs)
        j = [i for i in acts if toks[i] in "()"]
        if j:
            i = rng.choice(j)
            rejected(" ".join(toks[:i] + toks[i + 1:]), "bracket removed in an action", obs)
        j = [i for i in acts if toks[i] == ";"]
        if j:
            i = rng.choice(j)
            rejected(" ".join(toks[:i] + toks[i + 1:]), "semicolon removed in an action", obs)
    # repeats
    j = [i for i in range(len(toks)) if toks[i] == "*" and not act[i]]
    if j:
        i = rng.choice(j)
        k = i + 1
        if toks[k] == "(":
            while toks[k] != ")":
                k += 1
        bad = rng.choice(["0", "(0)", "(0:0)", "-1", "(-1:2)", "(3:-1)", "1.5", "x", '"2"', "()", "(1:)", "(1:2:3)", "$n", "(1,2)", ""])
        rejected(" ".join(toks[:i + 1] + [bad] + toks[k + 1:]), "repeat " + bad, obs)
    # the compiler forgets them
    compile_grammar(plain)
    obs.count["after_bad"] += 1


def known_probe(ident):
    if ident == "forward-grammar-reference":
        vlib.new_loop()
        c = make_cli(compile_grammar('g: sub "x"; sub: "y";'))
        return do_match(c, ["sub", "x"]).result == "success"
