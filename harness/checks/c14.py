"""C14: each command of a command class runs its own handler once with its arguments by name."""
import asyncio
import functools
import io

import vlib
from vlib import check, run, snap, NessaidCmd
import gram
from gram import Gen, GenCfg, Model, N, Gram

PID = "C14"
CASES = {"quick": 1600, "thorough": 40000}
RULE = ("a random command class per case: two to six documented handlers (sync and async, some raising) with random grammars and "
        "actions, arguments in random order, spread over up to three classes with overridden, withdrawn and undocumented methods, "
        "plain mix-ins, token declarations and shared grammars in the class, a base class or the parent context, random prefix and "
        "settings; lines sampled from the commands, mutated, and short ones, compared with the reference interpreter of the "
        "grammar the documentation describes; non-trivial = distinct (class text, accepted line)")
REQUIRED = {"together": 1200, "accepted": 13000, "rejected": 15000, "handler_calls": 12000, "empty_args": 17000,
            "set_args": 5000, "async_calls": 5000, "raising_calls": 1500, "undocumented": 700, "overridden": 380,
            "withdrawn": 310, "static_methods": 280, "class_methods": 220, "wrapped_methods": 490, "inherited": 1300,
            "parent_grammar": 160, "mixin": 260, "default_hooks": 150, "other_prefix": 360, "echo_class": 110,
            "hook_map": 100, "keyword_only": 360}
ASSUMPTIONS = ["lines with several derivations may be reported ambiguous or take any of them",
               "of a parent context only the declarations of its own class are shared (those of the parent's base classes are not)"]

ARGS = ["u", "v", "w", "x9", "arg_2", "other"]


LOG = [None]        # of the object in use


def wrapped(f):
    """decorated as any function of a user can be"""
    if asyncio.iscoroutinefunction(f):
        @functools.wraps(f)
        async def w(*a, **k):
            return await f(*a, **k)
    else:
        @functools.wraps(f)
        def w(*a, **k):
            return f(*a, **k)
    return w


def make_handler(name, args, is_async, boom, as_name=None, shape="plain", tail=()):
    first = {"static": [], "class": ["cls"]}.get(shape, ["self"])
    src = "%sdef %s(%s):\n    LOG[0].append((%r,%s))\n%s%s" % (
        "async " if is_async else "", name, ", ".join(first + args + list(tail)), name,
        "".join(" snap(%s)," % a.split("=")[0] for a in args),
        "    await asyncio.sleep(0)\n" if is_async else "",
        "    raise RuntimeError('boom')\n" if boom else "    return 'ret'\n")
    ns = {"snap": snap, "asyncio": asyncio, "LOG": LOG}
    exec(src, ns)
    f = ns[name]
    f.__name__ = as_name or name
    return f


async def _aev(self, ident, *args):
    self.log.append((ident,) + tuple(snap(a) for a in args))
    await asyncio.sleep(0)
    return "R%s" % (ident,)


def _ev(self, ident, *args):
    self.log.append((ident,) + tuple(snap(a) for a in args))
    return "R%s" % (ident,)


DEFAULTS = {"do__exit": N("alt", [N("const", text="exit"), N("const", text="quit")]),
            "do__timing": N("seq", [N("const", text="cmd-timing"), N("alt", [N("const", text="on"), N("const", text="off")])]),
            "do__profile": N("seq", [N("const", text="cmd-profiling"), N("alt", [N("const", text="on"), N("const", text="off")])]),
            "do__system_info": N("const", text="system-info")}


def tok_text(name, cls):
    d = cls.decl()
    return "token %s%s;" % (name, " " + d if d else "")


def build(rng, obs):
    """returns (class, parent or None, Gram of what the class means, kwargs, names)"""
    gen = Gen(rng, GenCfg(depth=2, clash=rng.choice([0.0, 0.1, 0.4]), refs=2, string_tokens=0.2, size=8))
    g = gen.g
    # shared grammars, one of them with a parameter
    for i in range(rng.randint(0, 2)):
        gen.budget = 5
        g.grammars.append(("shared%d" % i, [], gen.rule(1)))
    by = None
    if rng.random() < 0.6:
        tn = gen.token_name()
        t = N("tok", name=tn)
        t.post = [("assign", ("var", "p"), ("num", 2))]
        by = N("seq", [N("const", text="by"), t])
    prefix = rng.choice(["do_", "do_", "do_", "cmd_", "x", "handle_it"])
    use_defaults = prefix == "do_" and rng.random() < 0.4
    nargs = rng.choice([0, 1, 3, 3, 5])
    names = ["alpha", "b", "c1", "_hidden", "Dup", "exit2", "x", "zz", "show_all"]
    rng.shuffle(names)
    hooks = {}
    for nm in names[:rng.randint(1, 6)]:
        gen.budget = 8
        kind = rng.random()
        if kind < 0.75:
            kids = [gen.leaf() if rng.random() < 0.15 else N("const", text=gen.word())]
            kids += [gen.node(2) for _ in range(rng.randint(0 if rng.random() < 0.3 else 1, 3))]
            if len(kids) == 1:
                kids.append(N("opt", [gen.leaf()]))
            node = N("seq", kids)
        elif kind < 0.9:
            node = N("alt", [gen.node(1, nullable_ok=False) for _ in range(rng.randint(2, 3))])
        else:
            node = N("set", [N("const", text=gen.word()), gen.node(1), gen.node(1)])
        if by is not None and rng.random() < 0.5 and node.kind == "seq":
            node.kids.insert(rng.randint(1, len(node.kids)), N("ref", name="by", args=[(None, ("var", rng.choice(ARGS)))], spell=1))
        args = rng.sample(ARGS, rng.randint(0, 4))
        if nargs < 2 and "arg_2" in args:
            args.remove("arg_2")
        hooks[prefix + nm] = [node, args]
    if by is not None:
        g.grammars.append(("by", [("p", gram.NODEF)], by))
    for hn, (node, args) in hooks.items():
        g.grammars.append((hn, [], node))
    gen.fix_bare()
    # actions: in the commands they use the argument names as well
    prob = rng.choice([0.3, 0.6])
    for name, params, node in g.grammars:
        if name in hooks or name.startswith("shared"):
            gen._act(node, prob, [], True)
            node.pre, node.post = [], []
    def rename(stmts):
        for i, s in enumerate(stmts):
            if s[0] == "assign" and rng.random() < 0.4:
                stmts[i] = ("assign", ("var", rng.choice(ARGS[3:])), s[2])

    def walk(n):
        rename(n.pre), rename(n.post)
        for k in n.kids:
            walk(k)
    for name, params, node in g.grammars:
        if name in hooks:
            walk(node)
    # what the documentation says the grammar is
    doc = Gram()
    doc.tokens = g.tokens
    docs = {}
    for name, params, node in g.grammars:
        if name not in hooks:
            doc.grammars.append((name, params, node))
    alts = []
    everything = dict(hooks)
    if use_defaults:
        for k, v in DEFAULTS.items():
            everything[k] = [v, None]
    for hn in sorted(everything):
        node, args = everything[hn]
        body = gram.r_rule(node, gram.Layout()) if node.kind in ("seq", "alt", "set") else gram.r_twb(node, gram.Layout())
        docs[hn] = "\n        " + body + "\n        "
        if node.kind in ("seq", "alt", "set"):
            w = N(node.kind, node.kids)
        else:
            w = N("seq", [node])
        if args is not None:
            w.pre = [("assign", ("var", a), gram.lit("")) for a in args]
            w.post = [("call", hn, hn, [("var", a) for a in args])]
        doc.grammars.append((hn, [("arg_%d" % (k + 1), gram.NODEF) for k in range(nargs)], w))
        alts.append(N("ref", name=hn))
    doc.grammars.append(("ROOT", [], N("alt", alts) if len(alts) > 1 else N("seq", alts)))

    # classes
    levels = rng.choice([1, 2, 3, 3, 2, 5])
    namespaces = [{} for _ in range(levels)]          # 0 is the deepest base
    use_parent = rng.random() < 0.3
    texts = [[] for _ in range(levels + (1 if use_parent else 0))]   # last: the parent's class
    # order: base docs (deepest first), parent's, own
    order = list(range(levels - 1)) + ([levels] if use_parent else []) + [levels - 1]
    for t, cls in g.tokens.items():
        texts[rng.randrange(len(texts))].append(tok_text(t, cls))
    pos = 0
    for name, params, node in doc.grammars:
        if name in everything or name == "ROOT":
            continue
        pos = rng.randint(pos, len(order) - 1)
        one = Gram()
        one.grammars = [(name, params, node)]
        texts[order[pos]].append(gram.render(one))
    if use_parent and texts[levels]:
        obs.count["parent_grammar"] += 1
    info = {}
    hook_map = rng.random() < 0.15
    if hook_map:
        obs.count["hook_map"] += 1
    suffix = "_impl" if hook_map else ""
    for hn, (node, args) in hooks.items():
        lv = rng.randrange(levels)
        is_async, boom = rng.random() < 0.4, rng.random() < 0.12
        info[hn] = (args, is_async, boom)
        sig = list(args)
        if sig and rng.random() < 0.2:
            sig[-1] += "='dflt'"
        shape = rng.choice(["plain"] * 6 + ["static", "class", "wrapped", "wrapped"])
        tail = ()
        if rng.random() < 0.15:
            # not for the command line: only other callers give it
            tail = ("*", "extra='none'")
            obs.count["keyword_only"] += 1
        f = make_handler(hn, sig, is_async, boom, shape=shape, tail=tail)
        f.__doc__ = docs[hn]
        obs.count[shape + "_methods"] += 1
        if shape == "wrapped":
            f = wrapped(f)
        elif shape != "plain":
            f = {"static": staticmethod, "class": classmethod}[shape](f)
        namespaces[lv][hn] = f
        if hook_map:
            impl = make_handler(hn, sig, is_async, boom)
            namespaces[rng.randrange(levels)]["impl_" + hn] = impl
            wrong = make_handler("wrong", sig, False, False, hn)
            wrong.__doc__ = docs[hn]
            namespaces[lv][hn] = wrong
        if lv:
            if rng.random() < 0.3:
                # an older version in a base class, with another grammar and other arguments
                old = make_handler("old", ["o1", "o2"], False, False, hn)
                old.__doc__ = '"%s" "old" << $o1 = "1"; >>' % rng.choice(["alpha", "oldword"])
                namespaces[rng.randrange(lv)][hn] = old
                obs.count["overridden"] += 1
        if lv < levels - 1:
            obs.count["inherited"] += 1
    for _ in range(rng.randint(0, 2)):
        und = make_handler("undoc", ["a"], False, False)
        namespaces[rng.randrange(levels)][prefix + rng.choice(["undoc", "undoc2"])] = und
        obs.count["undocumented"] += 1
    if levels > 1 and rng.random() < 0.5:
        w = make_handler("withdrawn", ["a"], False, False)
        w.__doc__ = '"gone" "now"'
        namespaces[0][prefix + "gone"] = w
        namespaces[levels - 1][prefix + "gone"] = rng.choice([None, "text", make_handler("nodoc", ["a"], False, False)])
        obs.count["withdrawn"] += 1
    if rng.random() < 0.5:
        # documented, but without the prefix
        o = make_handler("helper", ["a"], False, False)
        o.__doc__ = '"helper" "word"'
        namespaces[rng.randrange(levels)][rng.choice(["helper", "e" + prefix, "un" + prefix + "x", prefix.upper() + "y", prefix.capitalize() + "y",
                                                            "_" + prefix + "y", prefix[:-1] + "-"])] = o
    bases = (NessaidCmd,)
    cls = None
    for i in range(levels):
        ns = namespaces[i]
        t = texts[i]
        rng.shuffle(t) if False else None
        if t or rng.random() < 0.3:
            ns["__doc__"] = "\n" + "\n".join("    " + l for l in "\n".join(t).split("\n")) + "\n" if rng.random() < 0.7 else "\n".join(t)
        if i == 0:
            ns["ev"], ns["aev"] = _ev, _aev
            ns["get_token_classes"] = lambda self: list(vlib.BUILTIN_TOKENS)
        if hook_map and i == levels - 1:
            hset = set(hooks)
            ns["get_cli_hook"] = lambda self, n: "impl_" + n if n in hset else n
        b = bases
        if rng.random() < 0.2 and (i == levels - 1 or i == 0):
            # plain classes are no part of the grammar
            mix = type("Mixin%d" % i, (object,), {"__doc__": rng.choice([None, "Just helpers; not a grammar: (at all"]), "util": lambda self: 1})
            b = (mix,) + bases if rng.random() < 0.6 else bases + (mix,)
            obs.count["mixin"] += 1
        cls = type("Level%d" % i, b, ns)
        bases = (cls,)
    parent_cls = None
    if use_parent:
        def do_p(self):
            '"parent-only"'
            self.log.append(("parent",))
        pt = "\n".join(texts[levels])
        parent_cls = type("Parent", (NessaidCmd,), {"__doc__": pt, "do_p": do_p, "ev": _ev, "aev": _aev,
                                                   "get_token_classes": lambda self: list(vlib.BUILTIN_TOKENS)})
    kw = {"cli_hook_prefix": prefix, "cli_nargs": nargs, "disable_default_hooks": not use_defaults}
    if rng.random() < 0.3:
        kw["use_base_grammar"] = False
    if rng.random() < 0.2:
        kw["str_cache_size"] = rng.choice([0, 1])
    if prefix != "do_":
        obs.count["other_prefix"] += 1
        kw["disable_default_hooks"] = rng.random() < 0.5
    if use_defaults:
        obs.count["default_hooks"] += 1
    return cls, parent_cls, doc, kw, info, texts, docs


def instance(cls, **kw):
    c = cls(loop=vlib.loop(), stdin=vlib.KeyFeed(), stdout=io.StringIO(), stderr=io.StringIO(), **kw)
    LOG[0] = c.log = []
    return c


def run_case(rng, idx, obs):
    if idx % 25 == 0:
        echo_class(rng, obs)
    cls, parent_cls, doc, kw, info, texts, docs = build(rng, obs)
    model = Model(doc, "ROOT")
    text = gram.render(doc)
    parent = None
    if parent_cls is not None:
        parent = instance(parent_cls, disable_default_hooks=True)
        kw["parent"] = parent
    c = instance(cls, **kw)
    lines, clean = [], []
    for _ in range(26):
        lines.append(gram.sample_line(rng, model, stop=rng.choice([0.2, 0.5])))
    alphabet = gram.all_leaf_tokens(rng, model)
    for _ in range(12):
        lines.append(gram.mutate_line(rng, rng.choice(lines), alphabet))
    for a in alphabet[:6]:
        lines.append([a])
    lines += [["gone", "now"], ["helper", "word"], ["alpha", "old"], ["oldword", "old"], ["parent-only"], ["exit"], ["cmd-timing", "on"], ["cmd-timing", "off"]]
    seen = set()
    for line in lines:
        if not line or tuple(line) in seen or len(line) > 14 or not gram.joinable(line) or line[0][:2] in ("s", "sy"):
            continue
        seen.add(tuple(line))
        if not model.tame(line, 40):
            continue
        obs.ev()
        del c.log[:]
        c.verr.seek(0) if hasattr(c, "verr") else None
        c.stderr.seek(0), c.stderr.truncate()
        rc = run(c.exec_line(" ".join(line)))
        got = list(c.log)
        ok, _ = model.analyse(line)
        ctx = dict(line=line, rc=rc, got=got, err=c.stderr.getvalue()[-300:], grammar=text, settings={k: v for k, v in kw.items() if k != "parent"})
        if not ok:
            obs.count["rejected"] += 1
            check(rc != 0, "a line of no command was accepted", **ctx)
            check(not got, "a rejected line called something", **ctx)
            continue
        ders = model.derivations(line)
        if not ders:
            continue
        want = [model.execute(d, line, snap)[0] for d in ders]
        if rc != 0:
            check(len(ders) > 1, "a command line was not accepted", want=want[:2], **ctx)
            check(not got, "an ambiguous line called something", **ctx)
            obs.count["ambiguous"] += 1
            continue
        obs.count["accepted"] += 1
        check(got in want, "not the calls the command asks for", want=want[:2], **ctx)
        called = [e for e in got if e[0] in info]
        check(len(called) <= 1, "several handlers ran for one line", **ctx)
        for e in called:
            obs.count["handler_calls"] += 1
            args, is_async, boom = info[e[0]]
            check(len(e) == len(args) + 1, "wrong number of arguments", **ctx)
            obs.count["empty_args"] += sum(1 for a in e[1:] if a == "")
            obs.count["set_args"] += sum(1 for a in e[1:] if a != "")
            obs.count["async_calls"] += is_async
            obs.count["raising_calls"] += boom
            if boom:
                check("boom" in c.stderr.getvalue(), "the failure of a handler was not reported", **ctx)
        obs.seen((text, tuple(line)))
        if len(want) == 1 and "cmd-timing" not in line:
            clean.append((line, want[0]))
    if len(clean) > 1 and rng.random() < 0.5:
        # several lines of one object at the same time
        some = [rng.choice(clean) for _ in range(rng.randint(2, 5))]
        del c.log[:]

        async def together():
            return await asyncio.gather(*[c.exec_line(" ".join(l)) for l, _ in some])
        rcs = run(together())
        want = sorted((e for _, w in some for e in w), key=repr)
        check(rcs == [0] * len(some) and sorted(c.log, key=repr) == want, "lines running at the same time did something else", lines=[l for l, _ in some],
              rcs=rcs, got=c.log, want=want, grammar=text)
        obs.count["together"] += len(some)
    obs.sample({"grammar": text[:800], "lines": [" ".join(l) for l in lines[:4]]})
    run(c.exec_line("cmd-timing off"))


def echo_class(rng, obs):
    """a class without a command repeats the words of a line"""
    und = make_handler("x", ["a"], False, False)
    cls = type("Echo", (NessaidCmd,), {"do_it": und} if rng.random() < 0.5 else {})
    c = instance(cls, disable_default_hooks=True)
    for _ in range(4):
        words = [rng.choice(["a", "bb", "12", '"q w"', "x-y", "do_it"]) for _ in range(rng.randint(1, 7))]
        c.stdout.seek(0), c.stdout.truncate()
        rc = run(c.exec_line(" ".join(words)))
        obs.count["echo_class"] += 1
        want = " ".join(w.strip('"') for w in words) + "\n"
        check(rc == 0 and c.stdout.getvalue() == want, "a class without commands did not repeat the words", words=words, rc=rc, out=c.stdout.getvalue())
        check(not c.log, "an undocumented method was called", log=c.log)
