"""C10: strings reach handlers with exactly their content."""
import vlib
from vlib import check, make_cli, do_match, run, snap, VCli
from vlib import convert_to_cli_string, convert_to_python_string
from gram import quote, escape, cli_form, str_value

PID = "C10"
CASES = {"quick": 1300, "thorough": 80000}
RULE = ("random strings over printable characters, quotes, backslashes, escape look-alikes and the escapable control "
        "characters; each is converted both ways, typed as a quoted token, used as keyword, enumerated value, bounded "
        "string, action literal, parameter default, reference argument and handler result, and passed through variables, "
        "lists, sub-grammars and print, in one long-lived CLI object per case; non-trivial = distinct strings that need an escape or a quote")
REQUIRED = {"roundtrip": 17000, "token": 4300, "keyword": 4300, "alternative": 4300, "literal": 4300, "passed": 4300,
            "default": 4300, "result": 4300, "printed": 4300, "unquoted": 1000, "bounded": 4400, "exec_args": 2800}
ASSUMPTIONS = ["a string that already has the quoted form is left in it by the conversion (stated in the property)",
               "'>' is not used in action text, where it ends the action"]

PIECES = list("ab Z09-_.,;:!?#$%&'()*+/<=@[]^`{|}~") + ['"', '"', "\\", "\\", "\n", "\0", "\r", "\t", "\b", "\v", "\a",
          "\\n", "\\\\", '\\"', "\\0", "\\t", "é", "ß", "漢", "  ", "//", "/*", "*/", "#", "<<", "call ", "$1", "None", "\\x"]


def rand_string(rng):
    x = rng.random()
    if x < 0.12:
        return "".join(rng.choice(["\\", "n", '"', "\n"]) for _ in range(rng.randint(1, 6)))
    if x < 0.2:
        return "".join(rng.choice("abc xyz") for _ in range(rng.randint(1, 8)))
    if x < 0.25:
        return rng.choice(["", " ", "\\", '"', "\n", "\\\\", '""', "0", "\0", " x ", "\\n", "n", "\t\t", '"a', 'a"', '\\"', "\\\\n"])
    return "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 9)))


def already_quoted(s):
    return len(s) > 1 and s.startswith('"') and s.endswith('"')


class StrCli(VCli):

    values = {}

    def give(self, k):
        return self.strings[k]

    async def agive(self, k):
        return self.strings[k]


def run_case(rng, idx, obs):
    strs = []
    while len(strs) < 5:
        s = rand_string(rng)
        if s not in strs:
            strs.append(s)
    # conversions
    for s in strs + [rand_string(rng) for _ in range(25)]:
        obs.ev()
        obs.count["roundtrip"] += 1
        if '"' in s or "\\" in s or s != s.strip() or any(ord(ch) < 32 for ch in s):
            obs.seen(s)
        q = convert_to_cli_string(s)
        if not already_quoted(s):
            back = convert_to_python_string(q)
            check(back == s, "string differs after converting both ways", string=s, quoted=str(q), back=back)
            check(str(q) == cli_form(s), "wrong quoted form", string=s, got=str(q), want=cli_form(s))
            check(str(convert_to_cli_string(q)) == str(convert_to_cli_string(str(q))), "conversion depends on the string's class", string=s)
    # one CLI with all of them
    kw = [s for s in strs if s and not already_quoted(s)]
    acts = [s for s in strs if ">" not in s]
    parts = []
    parts.append('token S StringToken();')
    parts.append('token B RangedStringToken(%d, %d);' % (rng.randint(0, 2), rng.randint(3, 12)))
    if kw:
        parts.append("token A AlternativeStringsToken(%s);" % ", ".join(quote(s) for s in kw))
    parts.append('sub[$p, $q = "dq"]: "in" << call ev(50, $p, $q); $p = $q; >> ;')
    alts = []
    alts.append('"tok" S S << call ev(1, $2, $3); $v = $2; call ev(2, $v, list($v, $3)); >>')
    if kw:
        alts.append('"alt" A << call ev(3, $2); $w = $2; call aev(4, $w); >>')
    alts.append('"bounded" B << call ev(5, $2); >>')
    for i, s in enumerate(kw):
        alts.append('"key%d" %s << call ev(%d, $2); >>' % (i, quote(s), 100 + i))
    for i, s in enumerate(acts):
        alts.append('"lit%d" << $x = %s; call ev(%d, $x, %s, list(%s)); print(%s); >>' % (i, quote(s), 200 + i, quote(s), quote(s), quote(s)))
        parts.append('def%d[$p = %s]: "d" << call ev(%d, $p); >> ;' % (i, quote(s), 300 + i))
        alts.append('"def%d" def%d[]' % (i, i))
        alts.append('("ref%d" << $r = %s; >> sub[$r, %s] ) << call ev(%d, $r); >>' % (i, quote(s), quote(s), 400 + i))
    for i, s in enumerate(strs):
        alts.append('"res%d" << $y = call %s(%d); call ev(%d, $y, call %s(%d)); >>' % (
            i, rng.choice(["give", "agive"]), i, 500 + i, rng.choice(["give", "agive"]), i))
    text = "\n".join(parts) + "\ng: " + "\n | ".join(alts) + "\n;"
    c = make_cli(vlib.compile_grammar(text), cls=StrCli, str_cache_size=rng.choice([0, 1, 3, 128]))
    c.strings = strs
    blo, bhi = [int(x) for x in text.split("RangedStringToken(")[1].split(")")[0].split(", ")]
    todo = []
    for i, s in enumerate(strs):
        t = rng.choice(strs)
        todo.append(("token", "tok %s %s" % (quote(s), quote(t)), [(1, s, t), (2, s, ("list", s, t))], None))
        plain = bool(s) and not any(ch in s for ch in '"\\\n\t \0\r\b\v\a')
        if plain:
            todo.append(("unquoted", "tok %s %s" % (s, quote(t)), [(1, s, t), (2, s, ("list", s, t))], None))
        todo.append(("bounded", "bounded " + quote(s), [(5, s)] if min(blo, bhi) <= len(s) <= max(blo, bhi) else None, None))
    for i, s in enumerate(kw):
        todo.append(("keyword", "key%d %s" % (i, cli_form(s)), [(100 + i, s)], None))
        todo.append(("alternative", "alt %s" % cli_form(s), [(3, s), (4, s)], None))
    for i, s in enumerate(acts):
        todo.append(("literal", "lit%d" % i, [(200 + i, s, s, ("list", s))], s + "\n"))
        todo.append(("default", "def%d d" % i, [(300 + i, s)], None))
        todo.append(("passed", "ref%d in" % i, [(50, s, s), (400 + i, s)], None))
    for i, s in enumerate(strs):
        todo.append(("result", "res%d" % i, [(500 + i, s, s)], None))
    todo = todo + rng.sample(todo, len(todo) // 2)
    rng.shuffle(todo)
    for what, line, want, printed in todo:
        obs.ev()
        obs.count[what] += 1
        del c.log[:]
        c.vout.seek(0), c.vout.truncate()
        rc = run(c.exec_line(line))
        if want is None:
            check(rc != 0 and not c.log, "a string out of bounds was accepted", line=line, log=c.log, grammar=text)
            continue
        check(rc == 0, "a line with a string was not accepted", what=what, line=line, err=c.verr.getvalue()[-300:], grammar=text)
        check(c.log == want, "a string arrived changed", what=what, line=line, got=c.log, want=want, grammar=text)
        if printed is not None:
            obs.count["printed"] += 1
            check(c.vout.getvalue() == printed, "print wrote another string", line=line, got=c.vout.getvalue(), want=printed)
    exec_args(rng, strs, obs)
    obs.sample({"strings": strs, "lines": [t[1] for t in todo[:5]]})


_cmd = None


def exec_args(rng, strs, obs):
    """through the argument list of a command class"""
    class Echo(vlib.NessaidCmd):
        def do_echo(self, first, second):
            r"""
            "echo" StrTok << $first = $2; >> StrTok << $second = $3; >>
            """
            self.got.append((first, second))
    Echo.__doc__ = "token StrTok StringToken();"
    import io
    c = Echo(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=io.StringIO(), disable_default_hooks=True)
    c.got = []
    good = [s for s in strs if s.strip() and not already_quoted(s)]
    for s in good:
        t = rng.choice(good)
        del c.got[:]
        rc = c.exec_args("echo", s, t)
        obs.count["exec_args"] += 1
        check(rc == 0 and c.got == [(s, t)], "an argument arrived changed", args=(s, t), rc=rc, got=c.got)
