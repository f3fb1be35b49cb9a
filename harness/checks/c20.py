"""C20: path tokens follow the file system as it is now."""
import fnmatch
import os
import shutil
import tempfile

import vlib
from vlib import check, make_cli, do_match, run, EndOfInpuToken, play
from gram import quote, unescape

PID = "C20"
CASES = {"quick": 1200, "thorough": 20000}
RULE = ("random directory trees (blanks, quotes, backslashes, line ends, pattern characters, hidden, non-ASCII and prefix-related names, "
        "links, empty directories) in a scratch directory, changed between lines by creating, removing, renaming, replacing and changing "
        "the working directory; one long-lived CLI is given quoted paths (relative, absolute, with '.', '..', repeated and trailing "
        "separators), patterns, unfinished paths, look-ups and TAB sessions; every answer is compared with a listing made at that moment; "
        "non-trivial = distinct (tree, path text)")
REQUIRED = {"exists": 4300, "missing": 3000, "special_names": 1500, "absolute": 1500, "patterns_one": 1200,
            "patterns_none": 670, "patterns_many": 290, "unfinished_one": 1000, "unfinished_none": 1000,
            "unfinished_many": 110, "suggestions": 5100, "offered": 5500, "followed": 1100, "changes": 7500,
            "flipped": 340, "tabs": 380, "two_paths": 1100, "doubled": 990, "chdir": 580}
ASSUMPTIONS = ["dangling links, the empty path and paths that are several entries as a pattern are not judged", "the PathToken of POSIX systems",
               "entries do not change while one line is looked at"]

NAMES = ["a", "ab", "abc", "b", "data", "data.txt", "data2", "has blank", "has  two", 'q"uote', '"q"', "back\\slash", "end\\", "new\nline", "tab\there",
         "star*", "star1", "a?", "[b]", "[a-c]", ".hidden", ".hide", "..odd", "é", "日本", "x-y", "#hash", "~", "Data", "1", "12", "src", "lib", "'", "a'b"]
PLAIN = ["a", "ab", "abc", "b", "data", "data.txt", "data2", "src", "lib", "x-y", "Data", "1", "12", ".hidden", ".hide"]
TEXT = '''
token P PathToken();
token S StringToken();
g: "p" P << call ev(1, $2); >> | "two" P P << call ev(2, $2, $3); >> | "s" P S << call aev(3, $2, $3); >> | "opt" {P << call ev(4, $1); >>} "end" << call ev(5); >>;
'''
MAGIC = set("*?[")


def subdirs(top="."):
    res = [""]
    for base, ds, fs in os.walk(top):
        for d in ds:
            p = os.path.relpath(os.path.join(base, d), top)
            if not os.path.islink(os.path.join(top, p)):
                res.append(p + "/")
    return res


def entries(rng, names, d, depth):
    for n in rng.sample(names, rng.randint(0, min(len(names), 7)) if depth else rng.randint(3, min(len(names), 9))):
        p = d + n
        if os.path.lexists(p):
            continue
        if depth < 3 and rng.random() < 0.4:
            os.mkdir(p)
            entries(rng, names, p + "/", depth + 1)
        else:
            open(p, "w").close()


def change(rng, names, obs):
    """one change to the tree below the working directory"""
    obs.count["changes"] += 1
    ds = subdirs()
    d = rng.choice(ds)
    n = d + rng.choice(names)
    x = rng.random()
    have = [d + e for e in os.listdir(d or ".")]
    if x < 0.35 and not os.path.lexists(n):
        if rng.random() < 0.35:
            os.mkdir(n)
        elif rng.random() < 0.15 and len(ds) > 1:
            os.symlink(os.path.abspath(rng.choice(ds[1:])), n)
        else:
            open(n, "w").close()
        return n
    if have:
        v = rng.choice(have)
        isdir = os.path.isdir(v) and not os.path.islink(v)
        if x < 0.6:
            shutil.rmtree(v) if isdir else os.unlink(v)
        elif x < 0.8 and not os.path.lexists(n):
            if not (isdir and n.startswith(v + "/")):
                os.rename(v, n)
        elif not isdir:
            os.unlink(v)
            os.mkdir(v)
        prune()
        return v
    return None


def prune():
    """no dangling links"""
    for base, ds, fs in os.walk("."):
        for e in ds + fs:
            p = os.path.join(base, e)
            if os.path.islink(p) and not os.path.exists(p):
                os.unlink(p)


def glob(path):
    """the entries a pattern stands for"""
    if path.startswith("/"):
        found, segs = ["/"], path[1:].split("/")
    else:
        found, segs = [""], path.split("/")
    for s in segs:
        res = []
        for f in found:
            if f and not os.path.isdir(f):
                continue
            pre = f if not f or f.endswith("/") else f + "/"
            if s in (".", ".."):
                res.append(pre + s)
                continue
            for e in os.listdir(f or "."):
                if e == s or fnmatch.fnmatchcase(e, s):
                    res.append(pre + e)
        found = res
    return found


def some_path(rng, names, cwd):
    """(path text, absolute)"""
    x = rng.random()
    if x < 0.5:
        ps = [os.path.join(b, e)[2:] for b, ds, fs in os.walk(".") for e in ds + fs]
        p = rng.choice(ps) if ps else rng.choice(names)
        if rng.random() < 0.25:
            # nearly that
            k = rng.random()
            p = p + "/" if k < 0.35 else p + rng.choice("abx1.") if k < 0.6 else p[:-1] if k < 0.8 else p + "/" + rng.choice(names)
    elif x < 0.8:
        p = rng.choice(subdirs()) + rng.choice(names)
    else:
        p = rng.choice(subdirs()) + rng.choice([".", "..", "", "nope", "./", "nope/"])
    parts = p.split("/")
    if rng.random() < 0.2 and parts:
        k = rng.randrange(len(parts))
        parts[k:k] = rng.choice([["."], [""], [".", "."], [parts[0], ".."]])
        if parts[0] == "":
            parts[0] = "."
    p = "/".join(parts)
    if rng.random() < 0.2:
        return cwd + "/" + p, True
    if rng.random() < 0.1:
        return "./" + p, False
    return p, False


def unquoted(tok):
    """the path a suggestion stands for, and whether it is closed"""
    t = tok[1:]
    if t.endswith('"'):
        k = len(t) - 1
        b = 0
        while k - 1 - b >= 0 and t[k - 1 - b] == "\\":
            b += 1
        if b % 2 == 0:
            return unescape(t[:-1]), True
    return unescape(t), False


def run_case(rng, idx, obs):
    home = os.getcwd()
    d = tempfile.mkdtemp(prefix="c20-")
    try:
        os.chdir(d)
        _case(rng, idx, obs, d)
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def value_of(c, toks, text=False):
    """(accepted, values)"""
    if text:
        del c.log[:]
        ok = run(c.exec_line(" ".join(toks))) == 0
    else:
        ok = do_match(c, toks).result == "success"
    return ok, [e[1:] for e in c.log]


def _case(rng, idx, obs, d):
    names = rng.sample(NAMES, rng.randint(6, 16)) if rng.random() < 0.7 else rng.sample(PLAIN, 8)
    os.mkdir("home")
    os.chdir("home")
    cwd = os.getcwd()
    entries(rng, names, "", 0)
    c = make_cli(vlib.compile_grammar(TEXT))
    past = []
    for step in range(rng.randint(25, 45)):
        if rng.random() < 0.4:
            change(rng, names, obs)
        if rng.random() < 0.03:
            ds = subdirs()
            os.chdir(cwd if rng.random() < 0.5 else rng.choice(ds) or ".")
            obs.count["chdir"] += 1
        cwd_now = os.getcwd()
        obs.ev()
        x = rng.random()
        ctx = dict(tree=sorted(os.path.join(b, e) for b, ds, fs in os.walk(".") for e in ds + fs)[:60])
        if x < 0.42:
            # a quoted path
            if past and rng.random() < 0.4:
                p, was = rng.choice(past)
            else:
                p, was = some_path(rng, names, cwd_now)[0], None
            if not p or any(ch in p for ch in "\0"):
                continue
            if os.path.islink(p) and not os.path.exists(p):
                continue
            t = quote(p)
            ok, vals = value_of(c, ["p", t], rng.random() < 0.4)
            obs.seen((tuple(ctx["tree"]), p))
            if p.startswith("/"):
                obs.count["absolute"] += 1
            there = os.path.lexists(p)
            if was is not None and was != there:
                obs.count["flipped"] += 1
            past.append((p, there))
            if there:
                obs.count["exists"] += 1
                if any(ch in p for ch in '"\\\n\t*?[ '):
                    obs.count["special_names"] += 1
                check(ok and vals == [(p,)], "an existing path was not delivered", path=p, accepted=ok, got=vals, **ctx)
                # the same next to other tokens
                if rng.random() < 0.3:
                    q = some_path(rng, names, cwd_now)[0]
                    if q and not set(q) & MAGIC and (not os.path.islink(q) or os.path.exists(q)):
                        obs.count["two_paths"] += 1
                        ok, vals = value_of(c, ["two", t, quote(q)])
                        w = os.path.lexists(q)
                        check(ok == w and vals == ([(p, q)] if w else []), "two paths on a line", paths=(p, q), exist=(True, w), accepted=ok, got=vals, **ctx)
                        ok, vals = value_of(c, ["s", t, quote(q)])
                        check(ok and vals == [(p, q)], "a path before a string", path=p, got=vals, **ctx)
            elif not set(p) & MAGIC:
                obs.count["missing"] += 1
                check(not ok and not vals, "a path that does not exist was accepted", path=p, got=vals, **ctx)
            elif not any(s in ("", ".", "..") for s in p.lstrip("/").split("/")):
                m = glob(p)
                obs.count["patterns_" + ("none" if not m else "one" if len(m) == 1 else "many")] += 1
                if len(m) == 1:
                    check(ok and vals == [(m[0],)], "a pattern with one match", pattern=p, match=m[0], accepted=ok, got=vals, **ctx)
                elif not m:
                    check(not ok and not vals, "a pattern without a match was accepted", pattern=p, got=vals, **ctx)
        elif x < 0.52:
            # a pattern
            ps = [os.path.join(b, e)[2:] for b, ds, fs in os.walk(".") for e in ds + fs]
            if not ps:
                continue
            segs = rng.choice(ps).split("/")
            k = rng.randrange(len(segs))
            s = segs[k]
            segs[k] = rng.choice(["*", s[:1] + "*", "*" + s[-1:], s[:-1] + "?", "?" * len(s), s[:1] + "*" + s[-1:], "zz*"])
            p = "/".join(segs)
            if any(s in ("", ".", "..") for s in segs) or os.path.lexists(p):
                continue
            m = glob(p)
            obs.count["patterns_" + ("none" if not m else "one" if len(m) == 1 else "many")] += 1
            ok, vals = value_of(c, ["p", quote(p)])
            if len(m) == 1:
                check(ok and vals == [(m[0],)], "a pattern with one match", pattern=p, match=m[0], accepted=ok, got=vals, **ctx)
            elif not m:
                check(not ok and not vals, "a pattern without a match was accepted", pattern=p, got=vals, **ctx)
        else:
            # an unfinished path
            ds = subdirs()
            base = rng.choice(ds + ["nope/", "./", "a/"])
            if rng.random() < 0.15:
                base = cwd_now + "/" + base
            if "/" in base[1:] and rng.random() < 0.12:
                # the same directory, written with another separator
                k = base.index("/", 1) if rng.random() < 0.5 else base.rindex("/")
                base = base[:k] + "/" + base[k:]
                obs.count["doubled"] += 1
            pool = (os.listdir(base or ".") if os.path.isdir(base or ".") else []) + [rng.choice(names)]
            n = rng.choice(pool)
            n = n[:rng.choice([0, 1, 1, 2, 3, len(n)])]
            if set(base + n) & MAGIC:
                continue
            typed = quote(base + n)[:-1]
            plain = False
            if not set(base + n) & set(' "\\\n\t#') and base + n and rng.random() < 0.25:
                typed, plain = base + n, True
            if base == "" and n == "" and plain:
                continue
            isdir = os.path.isdir(base or ".")
            es = [e for e in os.listdir(base or ".") if e.startswith(n)] if isdir else []
            if rng.random() < 0.35 and n not in ("", ".", ".."):
                obs.count["unfinished_" + ("none" if not es else "one" if len(es) == 1 else "many")] += 1
                ok, vals = value_of(c, ["p", typed])
                if not es:
                    check(not ok and not vals, "an unfinished path without a match was accepted", typed=typed, got=vals, **ctx)
                elif len(es) == 1:
                    check(ok and vals == [(base + es[0],)], "an unfinished path with one match", typed=typed, match=base + es[0],
                          accepted=ok, got=vals, **ctx)
                continue
            if rng.random() < 0.12:
                tab_walk(rng, c, base, isdir, obs, ctx)
                continue
            obs.count["suggestions"] += 1
            kw = rng.choice(["p", "p", "s", "opt"])
            r = run(c.match([kw, typed], dry_run=True, last_token_complete=False))
            sugg = [t.completion for t in r.next_tokens if t is not EndOfInpuToken]
            obs.seen((tuple(ctx["tree"]), typed))
            if not isdir or (not es and n not in ("", ".", "..")):
                check(not [s for s in sugg if s and s.startswith('"')], "entries were suggested although there are none", typed=typed, got=sugg, **ctx)
                if kw != "opt":
                    check(r.result == "failure", "a path that cannot exist is viable", typed=typed, result=r.result, **ctx)
                continue
            check(r.result == "partial", "the start of an existing path is not viable", typed=typed, result=r.result, entries=es, **ctx)
            got = set()
            allowed = {""} if n == "" else set()
            if n in (".", ".."):
                allowed = {".", "..", "./", "../"}
            if n == "" and base == "":
                allowed = {".", ".."}
            for s in sugg:
                if s == "end" and kw == "opt" and s.startswith(typed):
                    continue            # the keyword that may follow instead of the path
                check(s and s.startswith('"'), "a suggestion is no quoted path", got=s, typed=typed, **ctx)
                if base == "" and n == "" and s == '"/':
                    continue
                path, closed = unquoted(s)
                check(path.startswith(base), "a suggestion is in another directory", got=s, typed=typed, **ctx)
                rest = path[len(base):]
                e = rest[:-1] if rest.endswith("/") else rest
                if e in es:
                    check(rest == e or os.path.isdir(base + e), "a file was suggested as a directory", got=s, **ctx)
                    got.add(e)
                    obs.count["offered"] += 1
                    if not plain:
                        check(s.startswith(typed), "a suggestion does not start with what was typed", got=s, typed=typed, **ctx)
                    if rng.random() < 0.2:
                        # follow it
                        obs.count["followed"] += 1
                        f = s if closed else s + '"'
                        ok, vals = value_of(c, ["p", f])
                        check(ok and vals == [(path,)], "a suggested path was not delivered", suggestion=s, accepted=ok, got=vals, **ctx)
                else:
                    check(rest in allowed, "something was suggested that is not there", got=s, typed=typed, entries=es, **ctx)
            check(got == set(es), "entries are missing in the suggestions", missing=sorted(set(es) - got), typed=typed, got=sugg, **ctx)
    obs.sample({"tree": ctx["tree"][:10], "past": [p for p, _ in past[:6]]})


def tab_walk(rng, c, base, isdir, obs, ctx):
    """typing towards an entry, with TABs"""
    if not isdir or set(base) & MAGIC:
        return
    # only what can be typed key by key
    es = [e for e in os.listdir(base or ".") if not set(e) & MAGIC and e.isascii() and e.isprintable()]
    if not es or not (base.isascii() and base.isprintable()):
        return
    obs.count["tabs"] += 1
    target = base + rng.choice(es)
    line = "p " + quote(target)

    def script(rl):
        for _ in range(600):
            b = rl.get_line_buffer()
            i = len(b)
            if b.rstrip() == line:
                break
            check(line.startswith(b), "TAB left the way to an entry that still fits", buffer=b, target=line, **ctx)
            if rng.random() < 0.5 and i > 3 and not b.endswith("\\"):
                yield [vlib.rlkey.TAB]
                b2 = rl.get_line_buffer()
                check(b2.startswith(b), "TAB changed the line", before=b, after=b2, **ctx)
                if not line.startswith(b2.rstrip()):
                    check(False, "TAB added what not every entry has", before=b, after=b2, target=line, **ctx)
                continue
            yield [line[i]]
        del c.log[:]
        yield ["\r"]
        check([e[1:] for e in c.log] == [(target,)], "the completed path was not delivered", line=line, got=c.log, **ctx)

    c.exit_grammar()
    play(c, script, "g")
    c.enter_grammar("g")
