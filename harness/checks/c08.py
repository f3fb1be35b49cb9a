"""C08: TAB appends only what must follow."""
import vlib
from vlib import check, make_cli, play, rlkey
import gram
from gram import Gen, GenCfg, Model
import reftok

PID = "C08"
CASES = {"quick": 2400, "thorough": 60000}
RULE = ("random grammars (clashing and quoted keywords, enumerated and free-form values, optional parts, repeats); lines "
        "typed in the command loop as cuts of sampled lines, wrong lines and odd quoting, with TAB pressed until nothing "
        "changes, characters typed or erased in between, continued lines, the caret anywhere, and lines entered or dropped; the buffer after every TAB is judged "
        "against the continuations the reference interpreter allows; non-trivial = distinct (grammar, buffer) at a TAB")
REQUIRED = {"tabs": 66000, "extended": 3800, "separators": 10000, "forced_keywords": 4300, "stable": 13000,
            "wrong_line": 7600, "continued": 1400, "written_out": 1000, "caret": 6700, "in_quote": 360}
ASSUMPTIONS = ["TAB while a command reads input is checked by C24",
               "free-form decimal numbers are not used"]


def cfg(rng, idx):
    x = idx % 5
    if x == 0:
        return GenCfg(depth=2, clash=0.8, refs=0, help=0.3)
    if x == 1:
        return GenCfg(depth=3, clash=0.3, refs=1, help=0.2, kinds=["seq", "seq", "opt", "set", "alt"])
    if x == 2:
        return GenCfg(depth=3, clash=0.2, refs=1, value_tokens=False, kinds=["rep", "seq", "alt", "seq"])
    if x == 3:
        return GenCfg(depth=2, clash=0.5, refs=1, string_tokens=0.15)
    if idx % 40 == 4:
        return GenCfg(depth=2, clash=0.3, refs=0, help=0.3, long_words=0.4)
    return GenCfg(depth=3, clash=0.4, refs=2, help=0.3)


class State:

    def __init__(self, model, buf):
        self.ok_text = True
        try:
            toks = reftok.split(buf)
        except reftok.Illegal:
            self.ok_text = False
            return
        open_q = bool(toks) and toks[-1][2]
        self.open_q = open_q
        self.sep = (not buf) or (buf[-1] == " " and not open_q)
        texts = [t[0] for t in toks]
        if self.sep:
            self.done, self.p = texts, ""
        else:
            self.done, self.p = texts[:-1], texts[-1]
        self.tame = model.tame(texts, 60) if texts else True
        if not self.tame:
            return
        self.complete, nexts = model.analyse(self.done)
        self.free = False
        self.texts = set()
        self.any = False
        self.unknown = False
        for leaf in nexts.values():
            if self.p:
                v = leaf.viable(self.p)
                if v is None:
                    self.unknown = True
                if not v:
                    continue
            self.any = True
            kind, v = leaf.suggest(self.p)
            if kind == "list":
                self.texts |= set(v)
            else:
                self.free = True


def common(ws):
    ws = sorted(ws)
    a, b = ws[0], ws[-1]
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return a[:n]


def judge(model, before, after, obs, text):
    check(after.startswith(before), "TAB removed or changed typed text", before=before, after=after, grammar=text)
    s = after[len(before):]
    st = State(model, before)
    if not s:
        return
    check(st.ok_text, "TAB added to a line with illegal characters", before=before, after=after, grammar=text)
    if not st.tame or st.unknown:
        return
    check(st.any, "TAB added to a line which nothing can continue", before=before, after=after, grammar=text)
    if st.p:
        if st.open_q:
            obs.count["in_quote"] += 1
        full = st.p + s
        if not st.free and all(w.startswith(full) for w in st.texts):
            obs.count["extended"] += 1
            return
        if s.endswith(" ") and not st.free and st.texts == {full[:-1]}:
            obs.count["separators"] += 1
            return
        check(False, "TAB added text that need not follow", before=before, after=after, possible=sorted(st.texts)[:6],
              free=st.free, grammar=text)
    else:
        only = next(iter(st.texts)) if len(st.texts) == 1 else None
        good = not st.free and only is not None and s in (only, only + " ") and (not st.complete or not st.done)
        check(good, "TAB wrote a keyword that need not follow", before=before, after=after, possible=sorted(st.texts)[:6],
              free=st.free, complete=st.complete, grammar=text)
        obs.count["forced_keywords"] += 1


def judge_stable(model, buf, obs, text):
    st = State(model, buf)
    obs.count["stable"] += 1
    if not st.ok_text or not st.tame or st.unknown or not st.any:
        obs.count["wrong_line"] += 1
        return
    if st.free:
        return
    if st.p:
        cp = common(st.texts)
        check(not (len(cp) > len(st.p) and cp.startswith(st.p)), "TAB stops before the common part is written out",
              line=buf, common=cp, grammar=text)
        check(st.texts != {st.p}, "TAB stops before the separator of a finished token", line=buf, grammar=text)
    else:
        check(st.complete or len(st.texts) != 1, "TAB stops before the only possible keyword", line=buf,
              possible=sorted(st.texts), grammar=text)


def typed_lines(rng, model):
    alphabet = gram.all_leaf_tokens(rng, model)
    out = []
    for _ in range(7):
        l = gram.sample_line(rng, model)
        if rng.random() < 0.25:
            l = gram.mutate_line(rng, l, alphabet)
        if len(l) > 8:
            l = l[:8]
        if not gram.joinable(l) or not model.tame(l, 40):
            continue
        s = " ".join(l)
        n = rng.choice([len(s), rng.randint(0, len(s)), rng.randint(0, len(s)), 1])
        s = s[:n]
        if rng.random() < 0.15:
            s += " "
        if rng.random() < 0.08:
            s = rng.choice(["", " ", "zzz", "zzz ", '"', "\\", 'a"b', '"two ', '"" ', "  ", '"two words"', '"two words" '])
        out.append(s)
    return out


def run_case(rng, idx, obs):
    gen = Gen(rng, cfg(rng, idx))
    g = gen.build()
    text = gram.render(g)
    model = Model(g)
    c = make_cli(vlib.compile_grammar(text))
    todo = typed_lines(rng, model)
    seen = []

    def script(rl):
        for s in todo:
            prefix, t = "", s
            if rng.random() < 0.2 and "\\" not in s:
                # a continued line: what counts are its parts together
                for _ in range(rng.choice([1, 1, 2])):
                    k = rng.randint(0, len(t))
                    if t[:k].lstrip().startswith("#"):
                        break
                    yield list(t[:k]) + ["\\", "\r"]
                    prefix, t = prefix + t[:k], t[k:]
                obs.count["continued"] += 1
            if t:
                yield list(t)
            check(rl.get_line_buffer() == t, "typing changed the line", typed=t, got=rl.get_line_buffer(), grammar=text)
            for rnd in range(rng.choice([1, 1, 2, 3])):
                same = 0
                presses = 0
                while same < 3:
                    before = prefix + rl.get_line_buffer()
                    if rng.random() < 0.1:
                        # the caret may stand anywhere in the line
                        yield [rlkey.LEFT] * rng.randint(1, 4) if rng.random() < 0.7 else [rlkey.HOME]
                        obs.count["caret"] += 1
                    yield [rlkey.TAB]
                    after = rl.get_line_buffer()
                    if prefix and after.startswith(before):
                        prefix = ""     # written out as one line
                        obs.count["written_out"] += 1
                    after = prefix + after
                    obs.ev()
                    obs.count["tabs"] += 1
                    presses += 1
                    judge(model, before, after, obs, text)
                    obs.seen((text, before))
                    seen.append(before)
                    same = same + 1 if after == before else 0
                    if presses > 400:
                        check(False, "TAB never finishes", line=after, grammar=text)
                judge_stable(model, prefix + rl.get_line_buffer(), obs, text)
                # type or erase a little and go on
                x = rng.random()
                st = State(model, prefix + rl.get_line_buffer())
                yield [rlkey.END]
                if x < 0.35 and st.ok_text and st.tame and st.texts:
                    w = rng.choice(sorted(st.texts))
                    if w.startswith(st.p) and len(w) > len(st.p):
                        yield list(w[len(st.p):len(st.p) + rng.randint(1, 3)])
                elif x < 0.6:
                    for _ in range(rng.randint(1, 3)):
                        if rl.get_line_buffer():
                            yield [rlkey.BACKSPACE]
                elif x < 0.7:
                    yield [" "]
                else:
                    yield [rng.choice(['a', 's', '1', '"', ' '])]
            if rng.random() < 0.3 and rl.get_line_buffer().strip() and not rl.get_line_buffer().rstrip().endswith("\\"):
                yield ["\r"]
            else:
                yield [rlkey.CTRL_C]
            obs.count["lines"] += 1

    play(c, script)
    obs.sample({"grammar": text, "buffers": seen[:8]})
