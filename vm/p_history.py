"""C38-C41: properties about histories of calls."""
import atexit
import contextlib
import io
import os
import pickle
import random
import signal
import socket
import struct
import sys
import threading
import warnings

import numpy as np

import lie_nn as lie

from . import core, ops, specs
from .core import Violation
from .props import prop
from .specs import GROUPS

# ---------------------------------------------------------------------------------------------
# Zygote: a process that has imported the library and never called it. For each request it forks a child
# that performs one operation and sends back the result: what the operation gives without a history.
# ---------------------------------------------------------------------------------------------

_ADDR = None


def _send(s, x):
    b = pickle.dumps(x)
    s.sendall(struct.pack("<Q", len(b)) + b)


def _recv(s):
    def exact(n):
        b = b""
        while len(b) < n:
            c = s.recv(min(1 << 20, n - len(b)))
            if not c:
                raise EOFError
            b += c
        return b

    return pickle.loads(exact(struct.unpack("<Q", exact(8))[0]))


def start_zygote():
    global _ADDR
    if _ADDR:
        return
    srv = socket.socket(socket.AF_UNIX)
    name = f"\0vm-zygote-{os.getpid()}"
    srv.bind(name)
    srv.listen(256)
    parent = os.getpid()
    if os.fork() == 0:
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_IGN)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            srv.settimeout(2.0)
            while os.getppid() == parent:
                try:
                    c, _ = srv.accept()
                except (TimeoutError, socket.timeout):
                    continue
                if os.fork() == 0:
                    try:
                        srv.close()
                        c.settimeout(300)
                        with np.errstate(all="ignore"):
                            op = _recv(c)
                            try:
                                out = ("ok", ops.freeze(ops.perform(op, ops.prepare(op))))
                            except BaseException as e:
                                out = ("error", f"{type(e).__name__}: {str(e)[:200]}")
                            _send(c, out)
                    finally:
                        os._exit(0)
                c.close()
        finally:
            os._exit(0)
    srv.close()
    _ADDR = name


def pristine(op):
    """the result of the operation in a process without history"""
    if _ADDR is None:
        start_zygote()
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(200)
    try:
        s.connect(_ADDR)
        _send(s, op)
        st, out = _recv(s)
    except (EOFError, ConnectionError) as e:
        raise OSError(f"reference process: {e!r}")
    finally:
        s.close()
    if st != "ok":
        raise Violation(f"{op['op']} in a fresh process: {out}")
    return out


def rand_history(rng, n, heavy=2):
    # a few operations come back several times, the others are there to leave traces
    pool, h = [], 0
    while len(pool) < n:
        o = ops.rand_op(rng)
        if o["op"] in ops.HEAVY:
            h += 1
            if h > heavy:
                continue
        pool.append(o)
    return pool


def related(rng, op):
    """the same kind of operation for another argument, to confuse caches"""
    for _ in range(20):
        o = ops.rand_op(rng, [op["op"]])
        if o != op:
            return o
    return op


SENTINEL = 7.25


def scribble(x, keep=()):
    """what a caller may do to results of his; results that are views of his inputs are left alone"""
    for a in ops.arrays(x):
        if a.flags.writeable and a.size and not any(np.shares_memory(a, b) for b in keep):
            with contextlib.suppress(Exception):
                a[...] = SENTINEL if a.dtype.kind in "fc" else a[...] * 0 + 3


@prop("C38", "Seeded histories of 8 to 25 operations out of 34 kinds (generators, coefficients, products, "
      "reductions, bases with permutation symmetries, linear algebra, ...), with repetitions and "
      "interleaved iterators; every result is compared with the one of a process without history, results "
      "are overwritten by the caller in half of the histories, and kept and re-read at the end in the "
      "other half.", warmup=start_zygote)
class History:
    @staticmethod
    def gen(rng, tier):
        n = 900 if tier == "thorough" else 260
        out = []
        for i in range(n):
            k = int(rng.integers(4, 12))
            pool = rand_history(rng, k)
            pool += [related(rng, o) for o in pool[: k // 2] if o["op"] not in ops.HEAVY]
            seq = [int(x) for x in rng.integers(len(pool), size=int(rng.integers(8, 26)))]
            # each operation of the first ones appears at least twice
            seq += [0, min(1, len(pool) - 1), 0]
            out.append({"pool": pool, "seq": seq, "scribble": bool(i % 2),
                        "shared": bool(i // 2 % 2)})
        return out

    @staticmethod
    def run(case, obs):
        pool = case["pool"]
        want = {i: pristine(pool[i]) for i in sorted(set(case["seq"]))}
        kept, inputs = [], {}
        for step, i in enumerate(case["seq"]):
            op = pool[i]
            what = f"step {step}, {op['op']} {short(op)}"
            if i not in inputs or not case.get("shared"):
                inputs[i] = ops.prepare(op)
            got = ops.perform(op, inputs[i], obs.call)
            ops.compare(obs, got, want[i], what)
            obs.feature(op["op"], case["scribble"])
            if case["scribble"]:
                scribble(got, core.arrays_of(inputs[i]) if case.get("shared") else ())
            else:
                kept.append((what, got, ops.freeze(got)))
        for what, got, copy in kept:
            ops.compare(obs, got, copy, f"{what}: the result was changed by a later call", 0.0)
        iterators(case, obs)


def iterators(case, obs):
    """two iterators of the same class advance independently of each other"""
    rng = np.random.default_rng(len(case["seq"]))
    g = specs.pick(rng, ["SU2", "SO3", "O3", "SL2C", "SO13", "SU3", "SU4"])
    cls = GROUPS[g].cls
    a, b = cls.iterator(), cls.iterator()
    la, lb = [], []
    for _ in range(30):
        if rng.random() < 0.5:
            la.append(next(a))
        else:
            lb.append(next(b))
    n = min(len(la), len(lb))
    obs.equal(la[:n], lb[:n], f"two interleaved iterators of {g}")


def short(op):
    r = op.get("r")
    if isinstance(r, dict):
        return specs.describe(r)
    if isinstance(r, list):
        return ", ".join(specs.describe(x) for x in r)
    return str({k: v for k, v in op.items() if k != "op"})[:100]


@prop("C39", "Seeded sets of operations, executed by 2 to 6 threads at the same time with a switch "
      "interval of 1 to 20 microseconds and random delays at calls and line events; every result is "
      "compared with the one of a single-threaded process without history. A counter of thread switches "
      "within library calls shows the interleavings.", warmup=start_zygote)
class Threads:
    @staticmethod
    def gen(rng, tier):
        n = 500 if tier == "thorough" else 200
        names = [k for k in ops.NAMES if k not in ("reduce", "decompose", "iter")]  # global random state
        out = []
        for i in range(n):
            nt = int(rng.integers(2, 7))
            focus = specs.pick(rng, names)
            pool = []
            for _ in range(nt * 3):
                o = ops.rand_op(rng, [focus] if rng.random() < 0.5 else names)
                if o["op"] in ops.HEAVY and sum(x["op"] in ops.HEAVY for x in pool) >= 3:
                    continue
                pool.append(o)
            prog = [[int(x) for x in rng.integers(len(pool), size=4)] for _ in range(nt)]
            out.append({"pool": pool, "prog": prog, "us": int(rng.choice([1, 5, 20])),
                        "delay": bool(i % 3 == 0), "s": int(rng.integers(10**6))})
        return out

    @staticmethod
    def run(case, obs):
        pool, prog = case["pool"], case["prog"]
        want = {i: pristine(pool[i]) for i in sorted({x for p in prog for x in p})}
        inputs = {i: ops.prepare(pool[i]) for i in want}  # shared between the threads
        results = [[] for _ in prog]
        errors = []
        start = threading.Barrier(len(prog))
        trace = []  # owner of the library code, in the order of execution

        def tracer(t):
            rnd = random.Random(case["s"] * 31 + t)

            def line(frame, event, arg):
                if event == "line" and rnd.random() < 0.002:
                    threading.Event().wait(1e-4)
                return line

            def glob(frame, event, arg):
                if "lie_nn" in frame.f_code.co_filename and "verif" not in frame.f_code.co_filename:
                    trace.append(t)
                    return line if case["delay"] else None
                return None

            return glob

        def body(t):
            try:
                sys.settrace(tracer(t))
                start.wait()
                for i in prog[t]:
                    results[t].append((i, ops.perform(pool[i], inputs[i])))
            except BaseException as e:
                errors.append((t, i, e))
            finally:
                sys.settrace(None)

        old = sys.getswitchinterval()
        sys.setswitchinterval(case["us"] * 1e-6)
        try:
            ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(prog))]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            t, i, e = errors[0]
            raise Violation(f"{pool[i]['op']} {short(pool[i])} raised {type(e).__name__}: {str(e)[:150]} "
                            f"with {len(prog)} threads, not alone")
        for t, rs in enumerate(results):
            for i, got in rs:
                obs.events[pool[i]["op"]] += 1
                ops.compare(obs, got, want[i], f"{pool[i]['op']} {short(pool[i])} with {len(prog)} threads")
        sw = sum(a != b for a, b in zip(trace, trace[1:]))
        obs.events["thread switches between library frames"] += sw
        obs.feature("threads", len(prog), "switches>=", 10 ** (len(str(sw)) - 1) if sw else 0)


# ---------------------------------------------------------------------------------------------


def settings():
    """the global state that belongs to the user"""
    st = np.random.get_state()
    return {
        "np.geterr": np.geterr(),
        "np.printoptions": {k: str(v) for k, v in np.get_printoptions().items()},
        "np.random": core._h(st[1].tobytes(), st[2:]),
        "random": core._h(repr(random.getstate())),
        "warnings": [str(f) for f in warnings.filters],
        "cwd": os.getcwd(),
        "environ": core._h(sorted(os.environ.items())),
        "recursion": sys.getrecursionlimit(),
        "trace": sys.gettrace() is None,
        "files": sorted(os.listdir("/proc/self/fd"))[:0],
    }


def readonly(x, seen=None):
    """write-protect every array reachable from x"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        with contextlib.suppress(ValueError):
            x.flags.writeable = False
    elif isinstance(x, (list, tuple)):
        for y in x:
            readonly(y, seen)
    elif isinstance(x, dict):
        for y in x.values():
            readonly(y, seen)
    elif hasattr(x, "__dict__"):
        for y in vars(x).values():
            readonly(y, seen)


@prop("C40", "The 34 kinds of operations on seeded inputs, with writable and with write-protected arrays, under "
      "non-default global settings (error state, print options, random state, directory).")
class NoSideEffects:
    @staticmethod
    def gen(rng, tier):
        n = 150 if tier == "thorough" else 60
        return [{"o": ops.rand_op(rng, [k]), "ro": bool(i % 2), "s": int(rng.integers(10**6))}
                for k in ops.NAMES for i in range(n if k not in ops.HEAVY else n // 2)]

    @staticmethod
    def run(case, obs):
        op = case["o"]
        what = f"{op['op']} {short(op)}"
        inp = ops.prepare(op)
        want = ops.freeze(ops.perform(op, inp))
        inp = ops.prepare(op)
        before_inp = core.leaves(inp)
        if case["ro"]:
            readonly(inp)
        rng = np.random.default_rng(case["s"])
        old_print = np.get_printoptions()
        old_dir = os.getcwd()
        out = io.StringIO()
        uses_random = op["op"] in ("reduce", "decompose")
        try:
            np.set_printoptions(precision=int(rng.integers(3, 7)), suppress=bool(rng.integers(2)))
            os.chdir("/")
            np.random.seed(int(case["s"]))
            random.seed(int(case["s"]))
            state = {k: specs.pick(rng, ["ignore", "warn"]) for k in ("divide", "invalid", "over", "under")}
            with np.errstate(**state), \
                    warnings.catch_warnings(), contextlib.redirect_stdout(out):
                warnings.simplefilter("ignore")
                before = settings()
                got = ops.perform(op, inp, obs.call)
                after = settings()
                if uses_random:
                    other = dict(op, s=op["s"] + 1)
                    ops.perform(other, ops.prepare(other))
                    obs.check(settings()["np.random"] != after["np.random"],
                              f"{what}: leaves the random generator in a fixed state")
        finally:
            np.set_printoptions(**{k: v for k, v in old_print.items()
                                   if k in ("precision", "suppress", "threshold", "linewidth")})
            os.chdir(old_dir)
        for k in before:
            if k == "np.random" and uses_random:
                continue
            obs.equal(after[k], before[k], f"{what}: the setting {k} was changed")
        obs.equal(out.getvalue(), "", f"{what}: printed something")
        now = core.leaves(inp)
        for k in before_inp:
            obs.check(now.get(k) == before_inp[k], f"{what}: the input {k} was modified")
        ops.compare(obs, got, want, f"{what}: second call, write-protected: {case['ro']}")
        # the results belong to the caller
        scribble(got, core.arrays_of(inp))
        ops.compare(obs, ops.perform(op, inp), want, f"{what}: called again after the results were overwritten")
        obs.feature(op["op"], case["ro"])


def relayout(x, kind, rng):
    """the same values in another memory layout"""
    if isinstance(x, np.ndarray):
        if kind == "mixed":
            kind = specs.pick(rng, ["fortran", "strided", "negative", "axes", "as it is"])
        if kind == "axes" and x.ndim >= 2:  # contiguous after a permutation of the axes
            p = rng.permutation(x.ndim)
            return np.ascontiguousarray(x.transpose(p)).transpose(np.argsort(p))
        if kind == "fortran":
            return np.asfortranarray(x)
        if kind == "strided":
            big = np.full(tuple(2 * n for n in x.shape), 99, dtype=x.dtype)
            v = big[tuple(slice(1, None, 2) for _ in x.shape)]
            v[...] = x
            return v
        if kind == "negative":
            sl = tuple(slice(None, None, -1) for _ in x.shape)
            return np.array(x[sl], order="C")[sl]
        if kind == "complex" and x.dtype == np.float64 and x.ndim >= 2:
            return x.astype(complex)
        return x
    if isinstance(x, list):
        return [relayout(y, kind, rng) for y in x]
    if isinstance(x, tuple):
        return tuple(relayout(y, kind, rng) for y in x)
    if isinstance(x, (lie.GenericRep, specs.UserRep, lie.ReducedRep)):
        for k, v in list(vars(x).items()):
            if isinstance(v, np.ndarray) and not (kind == "complex" and k.lower() == "_a"):
                setattr(x, k, relayout(v, kind, rng))
    return x


ARRAY_OPS = [k for k in ops.NAMES if k not in ("iter", "rule", "str", "sn", "cg", "regular", "pow")]


@prop("C41", "The 27 kinds of operations that take arrays or representations made of arrays, on the same "
      "values stored in C order, in Fortran order, as a strided view, with negative strides, with permuted "
      "axes, and with another layout for each array.")
class Layout:
    @staticmethod
    def gen(rng, tier):
        n = 150 if tier == "thorough" else 60
        return [{"o": ops.rand_op(rng, [k]), "s": int(rng.integers(10**6)),
                 "k": ["fortran", "strided", "negative", "mixed", "axes", "mixed"][i % 6]}
                for k in ARRAY_OPS for i in range(n)]

    @staticmethod
    def run(case, obs):
        op = case["o"]
        what = f"{op['op']} {short(op)}, arrays in {case['k']} layout"
        want = ops.freeze(ops.perform(op, ops.prepare(op)))
        rng = np.random.default_rng(case.get("s", 0))
        inp = {k: relayout(v, case["k"], rng) for k, v in ops.prepare(op).items()}
        got = ops.perform(op, inp, obs.call)
        ops.compare(obs, got, want, what, 1e-7)
        obs.feature(op["op"], case["k"])
