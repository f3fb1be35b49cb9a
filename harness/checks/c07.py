"""C07: suggestions are exactly what can come next."""
import re

import vlib
from vlib import check, make_cli, run, session, rlkey, EndOfInpuToken
import gram
import reftok
from gram import Gen, GenCfg, Model
import c01

PID = "C07"
CASES = {"quick": 1400, "thorough": 40000}
RULE = ("random grammars with help texts; for every prefix of sampled and mutated lines, the next tokens after a separator "
        "and for every cut of the last token, through match and on the screen (TAB), compared with the set of leaves the "
        "reference interpreter can reach; every suggested keyword is then followed; non-trivial = distinct (grammar, typed text)")
REQUIRED = {"screen_helps": 4800, "after_separator": 10000, "in_token": 76000, "complete_marked": 3400, "screen": 4000,
            "followed": 13000, "helps": 69000, "nothing_possible": 7500}
ASSUMPTIONS = c01.ASSUMPTIONS + ["the help shown beside an enumerated value is not compared",
                                 "NEWLINE is expected only where the last token is finished (after a separator)"]


def cfg(rng, idx):
    x = idx % 5
    if idx % 40 == 9:
        return GenCfg(depth=2, clash=0.2, refs=0, help=0.3, long_words=0.4)
    if idx % 40 == 19:
        # a long list of suggestions
        return GenCfg(depth=1, clash=0.1, refs=0, help=0.3, kinds=["alt", "opt"], maxkids=24, size=40)
    if x == 0:
        return GenCfg(depth=2, clash=0.7, refs=1, help=0.4)
    if x == 1:
        return GenCfg(depth=3, clash=0.1, refs=2, help=0.4, kinds=["opt", "set", "seq", "opt", "rep"])
    if x == 2:
        return GenCfg(depth=3, clash=0.3, refs=1, help=0.2, kinds=["rep", "alt", "seq", "opt"])
    if x == 3:
        return GenCfg(depth=4, clash=0.2, refs=2, help=0.5)
    return GenCfg(depth=2, clash=0.4, refs=0, help=0.3, maxkids=5)


def expected(model, done, p, ltc):
    """(set of (completion, help or None=any), complete?) or None when unknown"""
    ok, nexts = model.analyse(done)
    out = {}
    for leaf in nexts.values():
        if not ltc and p:
            v = leaf.viable(p)
            if v is None:
                return None
            if not v:
                continue
        pp = p if not ltc else ""
        kind, v = leaf.suggest(pp)
        if kind == "list":
            for w in v:
                h = None
                if leaf.tc is None or leaf.tc.kind == "plain":
                    h = leaf.help if leaf.help is not None else w
                elif hasattr(leaf.tc, "help_of"):
                    h = leaf.help if leaf.help is not None else leaf.tc.help_of(w)
                elif leaf.tc.kind in ("int", "bool"):
                    h = leaf.help if leaf.help is not None else leaf.tc.suggestions("9" * 30)[1] if leaf.tc.kind == "int" else (
                        leaf.help or leaf.tc.help or "True or False")
                out.setdefault((w,), set()).add(h)
        else:
            out.setdefault((None, v), set()).add(v)
    return out, ok


def compare(model, done, p, ltc, next_tokens, obs, text):
    exp = expected(model, done, p, ltc)
    if exp is None:
        return None
    out, ok = exp
    eoi = any(t is EndOfInpuToken for t in next_tokens)
    toks = [t for t in next_tokens if t is not EndOfInpuToken]
    got = {}
    for t in toks:
        if t.completion is not None:
            got.setdefault((t.completion,), set()).add(t.helpstring)
        else:
            got.setdefault((None, t.helpstring), set()).add(t.helpstring)
    check(set(got) == set(out), "wrong suggestions", done=done, unfinished=p, finished=ltc,
          missing=sorted(map(repr, set(out) - set(got)))[:5], extra=sorted(map(repr, set(got) - set(out)))[:5], grammar=text)
    for k, hs in got.items():
        if None not in out[k]:
            obs.count["helps"] += 1
            check(hs <= out[k], "wrong help text", token=k, got=hs, want=out[k], grammar=text)
    if not done and not p:
        pass        # an empty line runs nothing: the mark means nothing there
    elif ltc:
        check(eoi == ok, "wrongly marked as complete" if eoi else "not marked as complete", line=done, grammar=text)
        if ok:
            obs.count["complete_marked"] += 1
    else:
        check(not eoi or ok, "marked as complete although it is not", line=done, unfinished=p, grammar=text)
    return out, ok


def typeable(tokens):
    s = " ".join(tokens)
    return all(len(t) == 1 or t.startswith('"') or '"' not in t for t in tokens) and "\\" not in re.sub(r'"[^"\\]*(\\.[^"\\]*)*"?', "", s)


def run_case(rng, idx, obs):
    gen = Gen(rng, cfg(rng, idx))
    g = gen.build()
    text = gram.render(g, gram.Layout(rng, 1) if idx % 4 == 0 else None)
    model = Model(g)
    c = make_cli(vlib.compile_grammar(text))
    base = c01.lines_for(rng, model, 8, 6, 10)
    dones, seen = [[]], {()}
    for l in base:
        for n in range(1, len(l) + 1):
            if tuple(l[:n]) not in seen:
                seen.add(tuple(l[:n]))
                dones.append(l[:n])
    if len(dones) > 35:
        dones = dones[:1] + rng.sample(dones[1:], 34)
    screen = []
    for done in dones:
        obs.ev()
        kind, pos = model.classify(done)
        r = run(c.match(list(done), dry_run=True, last_token_complete=True))
        if kind == "failure":
            obs.count["nothing_possible"] += 1
            check(r.result == "failure" and not r.next_tokens, "suggestions for a wrong line", line=done,
                  result=r.result, got=[str(t) for t in r.next_tokens], grammar=text)
            continue
        res = compare(model, done, "", True, r.next_tokens, obs, text)
        obs.count["after_separator"] += 1
        obs.seen((text, tuple(done)))
        if res is None:
            continue
        out, ok = res
        if len(screen) < 6 and gram.joinable(done) and typeable(done):
            screen.append((done, "", out, ok))
        # following any suggested keyword keeps the line viable
        words = [k[0] for k in out if k[0] is not None]
        for w in (words if len(words) <= 4 else rng.sample(words, 4)):
            obs.count["followed"] += 1
            r2 = run(c.match(list(done) + [w], dry_run=True, last_token_complete=True))
            check(r2.result == "partial", "following a suggestion leads nowhere", line=done, word=w, result=r2.result, grammar=text)
        # unfinished tokens: cuts of the suggested words, of values and of nothing known
        ps = set()
        for w in (words if len(words) <= 5 else rng.sample(words, 5)):
            for n in range(1, len(w) + 1):
                ps.add(w[:n])
        for w in ("5", "-", "-1", "a", "t", "F", '"', '"two', "zz", "al", "1"):
            if rng.random() < 0.35:
                ps.add(w)
        ps = sorted(ps)
        rng.shuffle(ps)
        for p in ps[:10]:
            if p.endswith("\\") and not p.endswith("\\\\"):
                continue
            exp = expected(model, done, p, False)
            if exp is None:
                continue
            r2 = run(c.match(list(done) + [p], dry_run=True, last_token_complete=False))
            obs.count["in_token"] += 1
            if not exp[0]:
                check(r2.result == "failure" and not r2.next_tokens, "suggestions for an unfinished wrong line", line=done,
                      unfinished=p, got=[str(t) for t in r2.next_tokens], grammar=text)
                continue
            compare(model, done, p, False, r2.next_tokens, obs, text)
            obs.seen((text, tuple(done), p))
            if rng.random() < 0.1 and len(screen) < 10 and gram.joinable(done) and typeable(done + [p]) \
                    and (not p.startswith('"') or p.count('"') == 1 or p == p):
                screen.append((done, p, exp[0], exp[1]))
    on_screen(c, screen, obs, text)
    obs.sample({"grammar": text, "typed": [" ".join(d) + " " + p for d, p, _, _ in screen[:5]]})


def on_screen(c, screen, obs, text):
    """the rows written on TAB for a freshly typed line"""
    steps = []

    def before(s):
        def f(feed, rl):
            c.vout.seek(0), c.vout.truncate()
            return list(s) or None
        return f

    def after(done, p, out, ok, s):
        def f(feed, rl):
            txt = c.vout.getvalue()
            if rl.get_line_buffer() != s:
                # a separator after the only finished token, nothing is listed then (see C08)
                check(rl.get_line_buffer() == s + " " and p and set(out) == {(p,)},
                      "the first TAB changed the line", typed=s, got=rl.get_line_buffer(), grammar=text)
                return [rlkey.CTRL_C]
            by_left = {}
            for k, hs in out.items():
                by_left.setdefault((k[0] or "").rstrip(" "), set()).update(h and h.rstrip() for h in hs)
            rows = [r for r in txt.split("\r\n") if r.strip()]
            got = set()
            newline = False
            for row in rows[:-1] if rows and s in rows[-1] else rows:
                left = row.split(" :    ")[0].rstrip(" ")
                if left.startswith("NEWLINE") and ("Complete command" in row):
                    newline = True
                else:
                    got.add(left)
                    right = row.partition(" :    ")[2]
                    allowed = by_left.get(left, {None})
                    if None not in allowed and " :    " not in left:
                        check(right.rstrip() in allowed, "another help text on the screen", typed=s, row=row, want=allowed, grammar=text)
                        obs.count["screen_helps"] += 1
            want = set((k[0] if k[0] is not None else "").rstrip(" ") for k in out)
            helps = [k[1] for k in out if k[0] is None]
            check(got == want or got == want | {""}, "the screen shows other suggestions", typed=s, got=sorted(got),
                  want=sorted(want), text=txt, grammar=text)
            for h in helps:
                check(h in txt, "a help text is missing on the screen", typed=s, help=h, text=txt, grammar=text)
            check(newline == (ok and not p), "NEWLINE wrongly shown or missing", typed=s, shown=newline, complete=ok, text=txt, grammar=text)
            obs.count["screen"] += 1
            return [rlkey.CTRL_C]
        return f
    for done, p, out, ok in screen:
        s = " ".join(done) + (" " if done else "") + p
        if not s or [t[0] for t in reftok.split(s)] != list(done) + ([p] if p else []):
            continue
        # a wrong line first: suggestions start afresh after an entered line
        steps += [before(s), before([rlkey.TAB]), after(done, p, out, ok, s), "zzz-not-a-command"]
    if steps:
        session(c, steps)
