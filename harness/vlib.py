"""Common machinery of the checks: importing the code under test from /repo,
a deterministic event loop (virtual time, scripted keyboard), the worker pool,
verdicts, evidence files, replays and known findings.

Nothing here looks inside nessaid_cli: it uses the documented classes only.
The only third-party patch is on nessaid_readline (an installed dependency),
whose key source is replaced by a scripted one.
"""

import asyncio
import collections
import heapq
import io
import json
import os
import random
import resource
import selectors
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    """The property is broken: raised by oracles only."""


class Inconclusive(Exception):
    """The harness could not decide (its own limit was reached)."""


class Deadlock(Exception):
    """The event loop has nothing left that could ever wake it up."""


class FeedExhausted(Exception):
    """A session asked for more keys than its script has."""


# --------------------------------------------------------------------------
# Deterministic event loop

class _VirtualSelector(selectors.DefaultSelector):

    vloop = None

    def select(self, timeout=None):
        ready = super().select(0)
        if ready:
            return ready
        if timeout is None:
            raise Deadlock("event loop waits for something that can never happen")
        if timeout > 0 and self.vloop is not None:
            self.vloop._vtime += timeout
        return []


class DetLoop(asyncio.SelectorEventLoop):
    """Virtual time; executor jobs run inline; a deadlock is an error."""

    def __init__(self):
        self._vtime = 1000.0
        sel = _VirtualSelector()
        super().__init__(sel)
        sel.vloop = self
        self.executor_delay = None      # callable -> virtual seconds

    def time(self):
        return self._vtime

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def run():
            if fut.cancelled():
                return
            try:
                res = func(*args)
            except BaseException as e:      # noqa
                fut.set_exception(e)
            else:
                fut.set_result(res)

        delay = self.executor_delay() if self.executor_delay else 0
        if delay:
            self.call_later(delay, run)
        else:
            self.call_soon(run)
        return fut


_loop = None


def new_loop():
    global _loop
    if _loop is not None and not _loop.is_closed():
        try:
            for t in asyncio.all_tasks(_loop):
                t.cancel()
        except Exception:
            pass
        _loop.close()
    _loop = DetLoop()
    asyncio.set_event_loop(_loop)
    return _loop


def loop():
    if _loop is None or _loop.is_closed():
        return new_loop()
    return _loop


# what went wrong while keys were read (the line reader swallows exceptions there)
PENDING = []


def run(coro):
    try:
        return loop().run_until_complete(coro)
    finally:
        if PENDING:
            e = PENDING[0]
            del PENDING[:]
            raise e


# --------------------------------------------------------------------------
# Scripted keyboard

from nessaid_readline.async_readline import NessaidAsyncReadline   # noqa: E402
from nessaid_readline import key as rlkey                          # noqa: E402


class KeyFeed(io.StringIO):
    """The stdin of a CLI: hands out scripted keys, one step at a time.

    steps: list of strings (typed as they are, with carriage return), lists of
    raw keys, or callables(feed, readline) -> list of keys (observation points).
    """

    def __init__(self, steps=(), on_end=None):
        super().__init__()
        self.steps = collections.deque(steps)
        self.on_end = on_end
        self.reads = 0
        self.exhausted = False

    def next_keys(self, rl):
        try:
            return self._next_keys(rl)
        except FeedExhausted:
            raise
        except Exception as e:
            PENDING.append(e)
            raise

    def _next_keys(self, rl):
        self.reads += 1
        while self.steps:
            s = self.steps.popleft()
            if callable(s):
                s = s(self, rl)
                if not s:
                    continue
                return list(s)
            if isinstance(s, str):
                return list(s) + ["\r"]
            return list(s)
        if self.on_end is not None:
            r = self.on_end(self, rl)
            if r:
                return list(r)
        self.exhausted = True
        raise FeedExhausted("the session read past the end of its script")


def _readkeys(self):
    src = self._stdin
    if not hasattr(src, "next_keys"):
        raise FeedExhausted("keyboard read from something else than the configured stdin")
    return src.next_keys(self)


def _readkey(self):
    raise FeedExhausted("unexpected single key read")


NessaidAsyncReadline.readkeys = _readkeys
NessaidAsyncReadline.readkey = _readkey

from nessaid_cli.compiler import compile_grammar    # noqa: E402
from nessaid_cli.cli import NessaidCli              # noqa: E402
from nessaid_cli.cmd import NessaidCmd              # noqa: E402
from nessaid_cli.interface import CliInterface      # noqa: E402
from nessaid_cli.elements import EndOfInpuToken     # noqa: E402
from nessaid_cli import tokens as toks              # noqa: E402
from nessaid_cli.tokens import (                    # noqa: E402
    CliToken, StringToken, RangedStringToken, RangedIntToken, RangedDecimalToken,
    BooleanToken, AlternativeStringsToken, PathToken, NullTokenValue)
from nessaid_cli.utils import (                     # noqa: E402
    convert_to_cli_string, convert_to_python_string)

if not os.path.abspath(sys.modules["nessaid_cli"].__file__ or "").startswith(os.path.abspath(REPO)):
    print("ERROR: nessaid_cli was not imported from", REPO)
    sys.exit(3)

BUILTIN_TOKENS = [StringToken, RangedStringToken, RangedIntToken, RangedDecimalToken,
                  BooleanToken, AlternativeStringsToken, PathToken]


# --------------------------------------------------------------------------
# CLI under test

def snap(v, _open=()):
    """Immutable, type-exact picture of a value an action received."""
    if isinstance(v, (list, tuple, set, dict)):
        if id(v) in _open or len(_open) > 12:
            return ("cycle",)
        o = _open + (id(v),)
        if isinstance(v, list):
            return ("list",) + tuple([snap(x, o) for x in v])
        if isinstance(v, tuple):
            return ("tuple",) + tuple([snap(x, o) for x in v])
        if isinstance(v, set):
            return ("set",) + tuple(sorted((snap(x, o) for x in v), key=repr))
        return ("dict",) + tuple(sorted(((snap(k, o), snap(x, o)) for k, x in v.items()), key=repr))
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return str.__str__(v) if type(v) is not str else v
    if isinstance(v, int):
        return ("int", int(v))
    if isinstance(v, float):
        return ("float", repr(float(v)))
    if v is NullTokenValue:
        return ("null",)
    return ("obj", repr(v))


class VCli(NessaidCli):
    """Records every action call."""

    vclasses = BUILTIN_TOKENS

    def get_token_classes(self):
        return list(self.vclasses)

    async def match(self, *args, **kw):
        r = await super().match(*args, **kw)
        check(r is not None and hasattr(r, "result") and hasattr(r, "next_tokens"), "the match gave no result", got=repr(r))
        return r

    def ev(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        return "R%s" % (ident,)

    async def aev(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        await asyncio.sleep(0)
        return "R%s" % (ident,)

    def boom(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        raise RuntimeError("boom %s" % (ident,))

    async def aboom(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        await asyncio.sleep(0)
        raise RuntimeError("boom %s" % (ident,))

    def mklist(self, ident, *args):
        self.log.append((ident,) + tuple(snap(a) for a in args))
        return list(args)


def make_cli(spec, root="g", cls=VCli, steps=(), **kw):
    out, err = io.StringIO(), io.StringIO()
    c = cls(spec, loop=loop(), stdin=KeyFeed(steps), stdout=out, stderr=err, **kw)
    c.vout, c.verr = out, err
    c.log = []
    if root is not None:
        c.enter_grammar(root)
    return c


def do_match(c, tokens, **kw):
    """Final match of a token list; returns the ParsingResult; log cleared before."""
    del c.log[:]
    kw.setdefault("dry_run", False)
    kw.setdefault("last_token_complete", True)
    return run(c.match(list(tokens), **kw))


def stack(c):
    """the CLI objects running in the session of c, outermost first"""
    if hasattr(c, "_cli_stack"):
        return list(c._cli_stack)
    while c.parent:
        c = c.parent
    out = [c]
    while out[-1].child_cli:
        out.append(out[-1].child_cli)
    return [x for x in out if x.running]


def typed(text):
    """Keys of a text typed without carriage return."""
    return [ch for ch in text]


def session(c, steps, root="g", intro=None, limit=200000):
    """Runs the command loop of c over scripted steps; after the last one the
    loop (and any open context) is told to exit. Returns the number of reads."""
    feed = c.stdin
    feed.steps.clear()
    feed.steps.extend(steps)
    feed.reads = 0

    def leave(fd, rl):
        top = (stack(c) or [c])[-1]
        top.exit_loop()
        return ["\r"]

    if feed.on_end is None:
        feed.on_end = leave
    if isinstance(c, NessaidCmd):
        run(c.cmdloop(intro=intro))
    else:
        run(c.cmdloop(root, intro=intro))
    check(not feed.steps, "the session ended before its script", left=len(feed.steps))
    return feed.reads


def play(c, script, root="g"):
    """Runs the command loop of c with keys from a generator script(rl), which
    yields lists of keys and may look at the line buffer in between."""
    st = {}

    def on_end(feed, rl):
        if "gen" not in st:
            st["gen"] = script(rl)
        while True:
            try:
                keys = next(st["gen"])
            except StopIteration:
                top = (stack(c) or [c])[-1]
                top.exit_loop()
                st["done"] = True
                return ["\r"]
            if keys:
                return list(keys)
    feed = c.stdin
    feed.steps.clear()
    feed.on_end = on_end
    if isinstance(c, NessaidCmd):
        run(c.cmdloop())
    else:
        run(c.cmdloop(root))
    check(st.get("done"), "the session ended before its script")


# --------------------------------------------------------------------------
# Observations of one check

class Obs:

    def __init__(self):
        self.count = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.evals = 0

    def ev(self, n=1):
        self.evals += n

    def seen(self, key):
        self.distinct.add(hash(key) & 0xffffffffffffffff)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg + ("" if not detail else " | " + "; ".join(
            "%s=%r" % kv for kv in detail.items())))


# --------------------------------------------------------------------------
# Running cases

WATCHDOG_S = 40
STEP_BUDGET = 4000000


class _Watchdog:
    """After WATCHDOG_S seconds a case gets STEP_BUDGET more executed lines
    (logical steps; ordinary cases need far fewer in total); a case that uses
    them up does not terminate and is reported."""

    def __init__(self):
        self.steps = 0
        self.active = False
        self.report = None

    def arm(self, report):
        self.report = report
        self.steps = 0
        signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG_S)

    def disarm(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if self.active:
            sys.settrace(None)
            self.active = False

    def _fire(self, signum, frame):
        self.active = True
        f = frame
        while f is not None:
            f.f_trace = self._trace
            f = f.f_back
        sys.settrace(self._trace)

    def _trace(self, frame, event, arg):
        self.steps += 1
        if self.steps > STEP_BUDGET:
            stack = []
            f = frame
            while f is not None and len(stack) < 12:
                stack.append("%s:%d %s" % (f.f_code.co_filename, f.f_lineno, f.f_code.co_name))
                f = f.f_back
            self.report("did not terminate within its step budget", stack)
        return self._trace


def case_rng(pid, idx, seed=None):
    return random.Random("%s:%s:%s" % (SEED if seed is None else seed, pid, idx))


def _in_repo(tb):
    pkg = os.path.join(os.path.abspath(REPO), "nessaid_cli") + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def exc_in_repo(e):
    return _in_repo(e.__traceback__)


def _flatten(kind, e):
    return {"kind": kind, "msg": str(e)[:4000],
            "trace": traceback.format_exception(type(e), e, e.__traceback__)[-8:]}


def run_one(mod, idx, obs, seed=None):
    """Run one case; returns None or a dict describing the problem."""
    rng = case_rng(mod.PID, idx, seed)
    new_loop()
    del PENDING[:]
    try:
        mod.run_case(rng, idx, obs)
        return None
    except Violation as e:
        return _flatten("violation", e)
    except Inconclusive as e:
        return _flatten("inconclusive", e)
    except (Deadlock, FeedExhausted) as e:
        return {"kind": "violation", "msg": "%s: %s" % (type(e).__name__, e),
                "trace": traceback.format_exception(type(e), e, e.__traceback__)[-8:]}
    except RecursionError as e:
        d = _flatten("violation", e)
        d["msg"] = "unbounded recursion: " + d["msg"]
        return d
    except Exception as e:
        if exc_in_repo(e):
            d = _flatten("violation", e)
            d["msg"] = "unexpected %s: %s" % (type(e).__name__, e)
            return d
        return _flatten("error", e)


def _worker(mod, indices, wfd, tmo_at):
    out = os.fdopen(wfd, "w", buffering=1)
    real_stdout = sys.stdout
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    obs = Obs()
    wd = _Watchdog()
    n = 0
    for idx in indices:
        if time.time() > tmo_at:
            break

        def report(msg, stack, idx=idx):
            out.write(json.dumps({"idx": idx, "kind": "violation", "msg": msg, "trace": stack}) + "\n")
            out.flush()
            os._exit(0)

        wd.arm(report)
        try:
            d = run_one(mod, idx, obs)
        finally:
            wd.disarm()
        n += 1
        sys.stdout.seek(0), sys.stdout.truncate()
        sys.stderr.seek(0), sys.stderr.truncate()
        if d is not None:
            d["idx"] = idx
            out.write(json.dumps(d, default=str) + "\n")
            out.flush()
            if d["kind"] in ("violation", "error"):
                break
    out.write(json.dumps({
        "done": n, "evals": obs.evals, "count": dict(obs.count),
        "distinct": list(obs.distinct), "samples": obs.samples}, default=str) + "\n")
    out.flush()
    out.close()
    os._exit(0)


def known_findings(pid):
    """[{id, what}] of the findings listed as known for this property"""
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as fd:
            for line in fd:
                f = line.strip().split(" ", 3)
                if len(f) == 4 and f[0] == "known:" and f[1] == "property=" + pid and f[2].startswith("id="):
                    res.append({"id": f[2][3:], "what": f[3]})
    return res


def write_replay(pid, d):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, SEED, d.get("idx")))
    with open(path, "w") as fd:
        json.dump({"property": pid, "seed": SEED, "tier": TIER, "idx": d.get("idx"),
                   "msg": d.get("msg"), "trace": d.get("trace")}, fd, indent=1)
    return path


def main(mod):
    """One scratch directory holds everything a run writes besides its reports"""
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % mod.PID)
    tempfile.tempdir = scratch
    try:
        return _main(mod)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)


def _main(mod):
    t0 = time.time()
    pid = mod.PID
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fd:
            r = json.load(fd)
        obs = Obs()
        os.environ["VERIF_TIER"] = r["tier"]
        d = run_one(mod, r["idx"], obs, seed=r["seed"])
        print(json.dumps(d, indent=1) if d else "no violation")
        return 1 if d and d["kind"] == "violation" else 0
    if len(sys.argv) > 2 and sys.argv[1] == "--case":
        obs = Obs()
        d = run_one(mod, int(sys.argv[2]), obs)
        print(json.dumps(d, indent=1) if d else "no violation")
        print(obs.evals, obs.count, obs.samples)
        return 1 if d and d["kind"] == "violation" else 0

    ncases = mod.CASES[TIER]
    if os.environ.get("VERIF_CASES"):
        ncases = int(os.environ["VERIF_CASES"])
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    nproc = max(1, min(nproc, ncases))
    limit = 600 if TIER == "quick" else 5400
    tmo_at = t0 + limit

    kf_lines = []
    for e in known_findings(pid):
        still = mod.known_probe(e["id"]) if hasattr(mod, "known_probe") else False
        if still:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))

    if hasattr(mod, "prepare"):
        mod.prepare()

    pipes = []
    for w in range(nproc):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            for other, _ in pipes:
                try:
                    os.close(other)
                except OSError:
                    pass
            try:
                _worker(mod, range(w, ncases, nproc), wr, tmo_at)
            except BaseException:
                os.write(2, traceback.format_exc().encode())
            os._exit(7)
        os.close(wr)
        pipes.append((r, pid_))

    sel = selectors.DefaultSelector()
    bufs = {}
    for r, p in pipes:
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = b""
    problems = []
    dones = []
    stop = False
    while bufs:
        for k, _ in sel.select(1):
            data = os.read(k.fd, 1 << 20)
            if not data:
                sel.unregister(k.fd)
                rest = bufs.pop(k.fd)
                os.close(k.fd)
                if rest.strip():
                    problems.append({"kind": "error", "msg": "worker output cut"})
                continue
            bufs[k.fd] += data
            while b"\n" in bufs[k.fd]:
                line, bufs[k.fd] = bufs[k.fd].split(b"\n", 1)
                d = json.loads(line)
                if "done" in d:
                    dones.append(d)
                else:
                    problems.append(d)
                    if d["kind"] == "violation":
                        stop = True
        if stop:
            break
        if time.time() > tmo_at + 120:
            break
    for r, p in pipes:
        try:
            os.kill(p, signal.SIGKILL) if (stop or bufs) else None
        except ProcessLookupError:
            pass
    statuses = []
    for r, p in pipes:
        try:
            statuses.append(os.waitpid(p, 0)[1])
        except ChildProcessError:
            pass

    count = collections.Counter()
    distinct = set()
    evals = cases = 0
    samples = []
    for d in dones:
        cases += d["done"]
        evals += d["evals"]
        count.update(d["count"])
        distinct.update(d["distinct"])
        samples += d["samples"]

    violations = [d for d in problems if d["kind"] == "violation"]
    errors = [d for d in problems if d["kind"] == "error"]
    incon = [d for d in problems if d["kind"] == "inconclusive"]

    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": mod.RULE, "samples": samples[:4] or ["none"],
            "cases": cases, "cases_planned": ncases,
            "observed": dict(sorted(count.items())),
            "inconclusive_cases": len(incon),
            "known_findings_still_present": len(kf_lines),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1, default=str)

    for l in kf_lines:
        print(l)
    if violations:
        violations.sort(key=lambda d: d.get("idx", 0))
        d = violations[0]
        path = write_replay(pid, d)
        print("case", d.get("idx"), ":", d["msg"][:1500])
        for t in d.get("trace", [])[-4:]:
            print("   ", t.rstrip())
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("ERROR in the harness:", errors[0]["msg"])
        for t in errors[0].get("trace", []):
            print(t.rstrip())
        return 3
    if len(dones) < nproc:
        print("INCONCLUSIVE: a worker ended without an answer", statuses)
        return 4
    if incon and len(incon) > max(2, ncases // 50):
        print("INCONCLUSIVE:", len(incon), "of", ncases, "cases undecided;", incon[0]["msg"][:300])
        return 4
    for name, least in getattr(mod, "REQUIRED", {}).items():
        have = count.get(name, 0)
        need = max(1, least * cases // max(1, ncases)) if cases < ncases else least
        need = need if not os.environ.get("VERIF_CASES") else 0
        if have < need:
            print("INCONCLUSIVE: monitor %s observed only %d events (needs %d)" % (name, have, need))
            return 4
    print("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1fs" % (
        pid, cases, evals, len(distinct), time.time() - t0))
    print("  observed:", ", ".join("%s=%d" % kv for kv in sorted(count.items())))
    return 0
