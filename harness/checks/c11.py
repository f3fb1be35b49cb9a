"""C11: built-in value tokens accept exactly their range and give its value."""
import re

import vlib
from vlib import check, make_cli, do_match, run, snap, EndOfInpuToken
from gram import TInt, TBool, TAlts, TRString, quote, cli_form, str_value, escape

PID = "C11"
CASES = {"quick": 2000, "thorough": 60000}
RULE = ("token instances with random and boundary parameters (integer ranges around zero and powers of ten, reversed bounds, other "
        "suggestion limits; decimal ranges; length bounds; enumerations with common prefixes), asked directly and through a grammar "
        "(finished line, typed line, suggestions) for every neighbour of the bounds, every prefix of accepted values, random and "
        "malformed texts; small ranges exhaustively; the oracle is exact arithmetic; non-trivial = distinct (instance, text)")
REQUIRED = {"int_huge": 26, "int": 38000, "int_exhaustive": 1900, "int_listed": 6000, "int_counted": 5800,
            "decimal": 14000, "rstring": 1200, "bool": 4600, "alts": 4200, "accepted": 19000, "rejected": 41000,
            "viable": 22000, "not_viable": 37000, "typed_out": 20000}
ASSUMPTIONS = ["integers are written canonically (no leading zeros, no '-0'), decimals in plain notation (optional minus, digits, optional point and digits)",
               "text that exceeds a decimal range in magnitude is not viable, and text of an acceptable number is; in between nothing is required",
               "a listing is complete up to the suggestion limit of the token (10 unless given), beyond it only a non-zero count"]


# -- generators -----------------------------------------------------------

def shape(r, t):
    check(isinstance(r, tuple) and len(r) == 2, "complete gave no count and list", text=t, got=repr(r))
    return r


def bound(rng):
    x = rng.random()
    if x < 0.3:
        return rng.randint(-12, 12)
    if x < 0.55:
        return rng.choice([-1, 1]) * (10 ** rng.randint(0, 6) + rng.randint(-2, 2))
    if x < 0.75:
        return rng.randint(-150, 150)
    if x < 0.9:
        return rng.randint(-30000, 30000)
    if x < 0.96:
        return rng.randint(-10 ** 9, 10 ** 9)
    # beyond what fits a machine word
    return rng.choice([-1, 1]) * (10 ** rng.randint(17, 32) + rng.choice([rng.randint(-2, 2), rng.randint(0, 10 ** 17)]))


def int_case(rng, obs):
    lo = bound(rng)
    hi = rng.choice([lo, lo + rng.randint(0, 12), lo + rng.randint(0, 300), bound(rng), -lo])
    if rng.random() < 0.05:
        lo = 10 ** rng.randint(15, 28) + rng.randint(-3, 3)
        hi = lo * rng.choice([2, 10, 100]) + rng.randint(-3, 3)
        lo, hi = rng.choice([(lo, hi), (-hi, -lo), (-lo, hi)])
        obs.count["int_huge"] += 1
    limit = rng.choice([10, 10, 10, 1, 3, 25, 200])
    args = (lo, hi) if rng.random() < 0.7 else (hi, lo)
    tc = TInt(*args)
    decl = "RangedIntToken(%d, %d%s)" % (args + ("" if limit == 10 else ", %d" % limit,))
    tok = vlib.RangedIntToken("T", *args, **({} if limit == 10 else {"max_suggestions": limit}))
    lo, hi = tc.lo, tc.hi
    texts = {"", "-", "0", "1a", "a", "--1", "1-", "1.0", "-a", "1e3", "--", "9" * 25, "-" + "9" * 25, "1 ", "0x1", "+1", "1_0", "5.", "1e0", "-1e0", "9" * 5000, "-" + "9" * 5000, "²", "½"}
    near = set()
    for b in (lo, hi, 0, (lo + hi) // 2):
        near.update(range(b - 2, b + 3))
    if hi - lo <= 60:
        near.update(range(lo - 3, hi + 4))
        obs.count["int_exhaustive"] += hi - lo + 1
    near.update(rng.randint(lo, hi) for _ in range(6))
    near.update(rng.randint(min(lo, -10) * 2, max(hi, 10) * 2) for _ in range(4))
    for n in near:
        s = str(n)
        texts.update(s[:k] for k in range(1, len(s) + 1))
        texts.add(s + "0")
        texts.add(s + rng.choice("0123456789"))
    texts = {t for t in texts if not re.fullmatch(r"-?0\d+|-0", t)}
    if len(texts) > 90:
        texts = set(rng.sample(sorted(texts), 90)) | {"", "-", str(lo), str(hi), str(lo - 1), str(hi + 1)}
    c = cli_for(decl, rng)
    for t in sorted(texts):
        obs.count["int"] += 1
        want = tc.accept(t)
        n = tc.comps(t) if (t in ("", "-") or tc.canonical(t)) else []
        count = (hi - lo + 1) if t == "" else max(0, n.stop - n.start) if isinstance(n, range) else len(n)
        # directly
        v = run(tok.get_value(t))
        if want:
            check(type(v) is int and v == want[1], "wrong value of an integer", decl=decl, text=t, got=repr(v))
        else:
            check(v is vlib.NullTokenValue, "a text outside the range has a value", decl=decl, text=t, got=repr(v))
        k, comps = shape(run(tok.complete(t)), t)
        if count == 0:
            check(k == 0 and not comps, "completions that are not accepted", decl=decl, text=t, got=(k, comps))
        elif count <= limit:
            obs.count["int_listed"] += 1
            check(sorted(comps) == sorted(str(x) for x in n) and k == count, "wrong list of completions", decl=decl, text=t, got=(k, sorted(comps)),
                  want=sorted(map(str, n)))
        else:
            obs.count["int_counted"] += 1
            check(not comps and k in (count, -1), "wrong count of completions", decl=decl, text=t, got=(k, comps[:12]), want=count)
        common(c, tc.accept(t), bool(count), t, decl, tok, obs,
               listed=None if not 0 < count <= limit else [str(x) for x in n])
    typed_out(c, [str(rng.randint(lo, hi)) for _ in range(3)] + [str(lo), str(hi)], decl, obs)


def cli_for(decl, rng, extra=""):
    text = 'token T %s; token R StringToken(); g: "w" T << call ev(1, $2); >> | "r" (T << append($l, $1); >>) * (1:4) "." ;' % decl
    text = text.replace("| \"r\"", "| << $l = list(); >> \"r\"").replace('"." ;', '"." << call ev(2, $l); >> ;')
    return make_cli(vlib.compile_grammar(text), str_cache_size=rng.choice([0, 2, 128]))


def common(c, want, viable, t, decl, tok, obs, listed=None, help=True):
    """through the grammar: line, typed line, suggestions"""
    obs.ev()
    obs.seen((decl, t))
    if t and " " not in t:
        r = do_match(c, ["w", t])
        if want:
            obs.count["accepted"] += 1
            check(r.result == "success", "an acceptable text was rejected", decl=decl, text=t, result=r.result, error=r.error)
            check(c.log == [(1, snap(want[1]))], "wrong value in the action", decl=decl, text=t, got=c.log, want=want[1])
        else:
            obs.count["rejected"] += 1
            check(r.result not in ("success", "ambigous") and not c.log, "an unacceptable text was accepted", decl=decl, text=t, result=r.result, got=c.log)
    if viable is None:
        return
    m = run(tok.match(t))
    if t:
        check((m != "failure") == viable, "wrong viability", decl=decl, text=t, match=m)
    r = do_match(c, ["w", t] if t else ["w"], dry_run=True, last_token_complete=not t)
    check((r.result == "partial") == viable, "wrong viability of typed text", decl=decl, text=t, result=r.result)
    obs.count["viable" if viable else "not_viable"] += 1
    nt = [x for x in (r.next_tokens or []) if x is not EndOfInpuToken]
    if not viable:
        check(not nt, "something is suggested for an impossible text", decl=decl, text=t)
        return
    check(nt, "nothing is suggested for viable text", decl=decl, text=t)
    if listed is not None:
        got = sorted(x.completion for x in nt if x.completion is not None)
        check(got == sorted(listed), "wrong suggestions", decl=decl, text=t, got=got, want=sorted(listed))


def typed_out(c, accepted, decl, obs):
    """every prefix of an accepted value keeps the typed line possible"""
    for s in accepted:
        for k in range(1, len(s) + 1):
            obs.count["typed_out"] += 1
            r = do_match(c, ["w", s[:k]], dry_run=True, last_token_complete=False)
            check(r.result == "partial", "the beginning of an accepted value is not viable", decl=decl, value=s, typed=s[:k], result=r.result)
        if len(s) > 1 and s.startswith('"'):
            r = do_match(c, ["w", s], dry_run=True, last_token_complete=True)
            check(r.result == "partial", "a finished accepted value is not viable", decl=decl, value=s, result=r.result)
    # several of them in one line
    del c.log[:]
    vals = accepted[:4]
    r = do_match(c, ["r"] + vals + ["."])
    check(r.result == "success" and len(c.log) == 1 and len(c.log[0][1]) == len(vals) + 1, "a line of accepted values was rejected",
          decl=decl, values=vals, result=r.result, log=c.log)


def decimal_case(rng, obs):
    def b():
        x = rng.random()
        if x < 0.3:
            return str(rng.randint(-20, 20))
        if x < 0.7:
            return "%.*f" % (rng.randint(1, 3), rng.uniform(-50, 50))
        return "%d.%d" % (rng.randint(-2000, 2000), rng.randint(0, 99))
    a, z = b(), b()
    if rng.random() < 0.1:
        z = a
    decl = "RangedDecimalToken(%s, %s)" % (a, z)
    tok = vlib.RangedDecimalToken("T", float(a), float(z))
    lo, hi = sorted((float(a), float(z)))
    texts = {a, z, "0", "-", "1.5", "x", "1..2", "--1", "1.2.3", "1,5", "-x", "abc", "1-", "0.0", "9" * 12}
    # what reads as a number elsewhere, but is in no finite range
    texts |= {"nan", "NaN", "-nan", "inf", "-inf", "Infinity", "-Infinity", "1e999", "-1e999", "9" * 400, "-" + "9" * 400}
    for _ in range(12):
        v = rng.uniform(lo - 1, hi + 1)
        texts.add("%.*f" % (rng.randint(0, 4), v))
    for v in (lo, hi):
        for d in (-1, -0.1, -0.001, 0.001, 0.1, 1):
            texts.add("%.3f" % (v + d))
    for t in list(texts):
        if len(t) < 40 and "e" not in t:
            texts.update(t[:k] for k in range(1, len(t)))
    texts = {t for t in texts if t and not re.fullmatch(r"-?0\d.*|-0(\.0*)?", t)}
    c = cli_for(decl, rng)
    acc = []
    for t in sorted(texts):
        obs.count["decimal"] += 1
        plain = re.fullmatch(r"-?\d+(\.\d*)?", t)
        want = viable = None
        if plain:
            v = float(t)
            if lo <= v <= hi:
                want, viable = ("value", v), True
                acc.append(t)
            elif (v > 0 and v > hi) or (v < 0 and v < lo):
                viable = False
        elif t == "-":
            viable = lo < 0
        else:
            viable = False
        g = run(tok.get_value(t))
        if want:
            check(type(g) is float and g == want[1], "wrong value of a decimal", decl=decl, text=t, got=repr(g))
        else:
            check(g is vlib.NullTokenValue, "a text outside the range has a value", decl=decl, text=t, got=repr(g))
        common(c, want, viable, t, decl, tok, obs)
    if acc:
        acc = [t for t in rng.sample(acc, min(4, len(acc))) if not t.startswith("-0") or "." in t]
        acc = acc or ["%s" % a]
        typed_out(c, [t for t in acc if True][:4], decl, obs)


CH = list("ab 0-") + ['"', "\\", "\n", "\t", "é", "\0"]


def rstring_case(rng, obs):
    lo, hi = rng.choice([(0, 0), (0, 1), (1, 1), (2, 2), (1, 3), (rng.randint(0, 4), rng.randint(0, 9)), (rng.randint(5, 30), rng.randint(5, 30))])
    tc = TRString(lo, hi)
    decl = tc.decl()
    tok = vlib.RangedStringToken("T", lo, hi)
    c = cli_for(decl, rng)
    acc = []
    for n in sorted(set([0, 1, 2, 3, tc.lo - 1, tc.lo, tc.lo + 1, tc.hi - 1, tc.hi, tc.hi + 1, tc.hi + 2, tc.hi * 2])):
        if n < 0:
            continue
        for _ in range(2):
            s = "".join(rng.choice(CH) for _ in range(n))
            forms = {quote(s)}
            if s and not any(ch in s for ch in ' "\\\n\t\0'):
                forms.add(s)
            for t in forms:
                obs.count["rstring"] += 1
                ok = tc.lo <= n <= tc.hi
                v = run(tok.get_value(t))
                if ok:
                    check(v == s, "wrong value of a bounded string", decl=decl, text=t, got=repr(v))
                    acc.append(t)
                else:
                    check(v is vlib.NullTokenValue, "a string out of bounds has a value", decl=decl, text=t, got=repr(v))
                viable = n <= tc.hi if not t.startswith('"') else None
                common(c, ("value", s) if ok else None, viable, t, decl, tok, obs)
                # unfinished quoted text
                if t.startswith('"'):
                    body = escape(s)
                    r = do_match(c, ["w", '"' + body], dry_run=True, last_token_complete=False)
                    check((r.result == "partial") == (n <= tc.hi), "wrong viability of an open string", decl=decl, text='"' + body, result=r.result)
                    obs.count["viable" if n <= tc.hi else "not_viable"] += 1
    if acc:
        typed_out(c, [t for t in rng.sample(acc, min(4, len(acc)))], decl, obs)


def bool_case(rng, obs):
    tc = TBool()
    tok = vlib.BooleanToken("T")
    c = cli_for("BooleanToken()", rng)
    texts = set()
    for w in ("true", "false"):
        for k in range(1, len(w) + 1):
            for _ in range(4):
                texts.add("".join(rng.choice([ch, ch.upper()]) for ch in w[:k]))
    texts |= {"truee", "tf", "f ", "1", "0", "yes", "on", "no", "tt", "rue", "falsey", "TRUEX", '""', '"t"', "fales", "-", "None"}
    texts |= {"".join(rng.choice("truefalsTRUEFALS") for _ in range(rng.randint(1, 6))) for _ in range(8)}
    acc = []
    for t in sorted(texts):
        obs.count["bool"] += 1
        want = tc.accept(t)
        v = run(tok.get_value(t))
        check(v is want[1] if want else v is vlib.NullTokenValue, "wrong value of a boolean", text=t, got=repr(v))
        k, comps = shape(run(tok.complete(t)), t)
        if want:
            acc.append(t)
            full = tc.suggestions(t)[1]
            check(k == 1 and comps == full, "wrong completion of a boolean", text=t, got=comps, want=full)
        else:
            check(k == 0 and not comps, "completions that are not accepted", text=t, got=comps)
        common(c, want, want is not None, t, "BooleanToken()", tok, obs, listed=tc.suggestions(t)[1] if want else None)
    k, comps = shape(run(tok.complete("")), "")
    check(k == 2 and sorted(x.lower() for x in comps) == ["false", "true"], "a boolean is not listed as true and false", got=comps)
    typed_out(c, rng.sample(acc, 4), "BooleanToken()", obs)


def alts_case(rng, obs):
    stem = rng.choice(["al", "a", "", "x y", "t", 'q"', "10", "-", "no"])
    words = set()
    n = rng.randint(1, 6)
    while len(words) < n:
        w = stem * (rng.random() < 0.7) + "".join(rng.choice(["a", "b", "c", "1", "-", " ", "\\", "A", "\t", "é", '"'][:rng.choice([5, 5, 11])]) for _ in range(rng.randint(0, 4)))
        if w.strip() and not (w.startswith('"') and w.endswith('"')):
            words.add(w)
    words = sorted(words)
    rng.shuffle(words)
    tc = TAlts(words)
    decl = tc.decl()
    how = rng.choice([lambda: vlib.AlternativeStringsToken("T", *words), lambda: vlib.AlternativeStringsToken("T", list(words)),
                      lambda: vlib.AlternativeStringsToken("T", tuple(words))])
    tok = how()
    texts = set()
    for w in tc.cli:
        texts.update(w[:k] for k in range(1, len(w) + 1))
        texts.add(w + "a")
        texts.add(w[1:] or "z")
        texts.add(w.upper())
        texts.add(w.lower())
    texts |= {"zzz", "a", '""'}
    texts.discard('"')
    c = cli_for(decl, rng)
    for t in sorted(texts):
        obs.count["alts"] += 1
        want = tc.accept(t)
        v = run(tok.get_value(t))
        if want:
            check(v == want[1] and isinstance(v, str), "wrong value of an enumerated token", decl=decl, text=t, got=repr(v), want=want[1])
        elif run(tok.match(t)) == "success":
            check(False, "an ambiguous or unknown text is an alternative", decl=decl, text=t)
        k, comps = shape(run(tok.complete(t)), t)
        full = sorted(tc.suggestions(t)[1])
        check(sorted(str(x) for x in comps) == full and k == len(full), "wrong completions of an enumerated token", decl=decl, text=t, got=comps, want=full)
        if t.startswith('"') and not re.fullmatch(r'"([^"\\]|\\.)*"', t):
            continue        # only typed, never a finished token
        common(c, want, bool(full), t, decl, tok, obs, listed=full or None)
    k, comps = shape(run(tok.complete("")), "")
    check(k == len(words) and sorted(map(str, comps)) == sorted(tc.cli), "not all alternatives are listed", decl=decl, got=comps)
    typed_out(c, tc.cli[:4], decl, obs)


KINDS = [int_case, int_case, decimal_case, int_case, rstring_case, alts_case, int_case, bool_case, alts_case, int_case]


def run_case(rng, idx, obs):
    f = KINDS[idx % len(KINDS)]
    f(rng, obs)
    if idx < 30:
        obs.sample({"kind": f.__name__, "case": idx})
