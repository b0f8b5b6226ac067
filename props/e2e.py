"""Workload shared by the properties of the end-to-end test framework (C01-C05).

Programs under test, their callers and a backend, all written here, driven by a
JSON spec; the framework that runs, times, compares and reports them is real.
Every test carries a ``uid`` that shows in everything it computes, so that any
result is attributable to exactly one test.
"""

import io
import os
import re
import sys

import dill
import torch

from sim import core, kernel

E2E = "torch_mlir_e2e_test"


def fw():
    import importlib

    return importlib.import_module(E2E + ".framework")


def reporting():
    import importlib

    return importlib.import_module(E2E + ".reporting")


class UserError(Exception):
    pass


class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot pickle this")


EXC = {
    "user": UserError,
    "value": ValueError,
    "assert": AssertionError,
    "runtime": RuntimeError,
    "os": OSError,
    "notimpl": NotImplementedError,
}


def token(spec, phase):
    return f"<<{spec['name']}/{phase}/{spec['uid']}>>"


def act(spec, phase):
    """What the test's own code does in this phase."""
    b = spec.get("behave", {}).get(phase)
    if not b:
        return
    k = kernel.cur()
    if b.get("burn"):
        k.burn(b["burn"])
    do = b.get("do", "ok")
    if do == "ok":
        return
    if k.current.is_parent and do in ("crash", "kbd") and not b.get("anywhere"):
        return  # only worker processes die; the parent is not under attack
    k.run.log(f"t={k.current.clock:.3f} {k.current.name} {spec['name']}:{phase} does {do}")
    if do == "raise":
        k.run.fault("test code raises")
        raise EXC[b.get("exc", "user")](token(spec, phase))
    if do == "exit":
        k.run.fault("test code calls sys.exit")
        raise SystemExit(b["code"])
    if do == "crash":
        k.run.fault("process dies (signal or _exit)")
        raise kernel.SimCrash(b["code"])
    if do == "kbd":
        k.run.fault("KeyboardInterrupt in worker")
        raise KeyboardInterrupt()
    raise core.InvalidScenario(do)


class Sub(torch.nn.Module):
    def __init__(self, uid):
        super().__init__()
        self.uid = uid

    def forward(self, x):
        return x * 2 + self.uid


class Program(torch.nn.Module):
    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.uid = float(spec["uid"])
        self.count = 0
        self.sub = Sub(self.uid)
        self.register_buffer("acc", torch.zeros(3))
        if spec.get("seeded_param"):
            torch.manual_seed(1000 + spec["uid"])
            self.w = torch.randn(4)
        else:
            self.w = torch.arange(4, dtype=torch.float32) + self.uid

    def forward(self, x):
        return x + self.uid

    def ident(self, x):
        return x  # aliases its input

    def param(self, x):
        return x.sum() + self.w

    def inplace(self, x):
        x.add_(self.uid)
        return x

    def counter(self, x):
        self.count += 1
        return x * 0 + self.uid * 10 + 100 * self.count

    def buffer(self, x):
        self.acc += x.reshape(-1)[:1].expand(3)
        return self.acc.clone() + self.uid

    def tup(self, x):
        return (x + self.uid, (x * 2).to(torch.float64), int(self.uid))

    def lst(self, x):
        return [x + self.uid, x - self.uid]

    def dct(self, x):
        return {"a": x + self.uid, "b": [x * 3, float(self.uid) + 0.5]}

    def flt(self, x):
        return -(self.uid + 0.25)

    def flt0(self, x):
        return 0.0

    def boolean(self, x):
        return True

    def integer(self, x):
        return int(self.uid) * 7

    def string(self, x):
        return f"s{int(self.uid)}"

    def ints(self, x):
        return torch.arange(5) + int(self.uid)

    def bools(self, x):
        return x > 0.5

    def nan(self, x):
        y = x.clone() + self.uid
        y.view(-1)[0] = float("nan")
        return y

    def empty(self, x):
        return torch.zeros((0, 3)) + self.uid

    def scalar(self, x):
        return torch.tensor(self.uid)


    def meta(self, x):
        return x.to("meta")

    def mixed(self, x):
        return {"a": x, 1: x + self.uid}

    def complexes(self, x):
        return torch.complex(x, x + self.uid)


METHODS = [
    "forward", "ident", "param", "inplace", "counter", "buffer", "tup", "lst", "dct", "flt",
    "flt0", "boolean", "integer", "string", "ints", "bools", "nan", "empty", "scalar", "sub",
]


def _stage():
    k = kernel.cur()
    return k.current.__dict__.setdefault("stages", {})


class Factory:
    def __init__(self, spec):
        self.spec = spec

    def __call__(self):
        st = _stage()
        n = self.spec["name"]
        second = st.get(n) == "invoked"
        st[n] = "made"
        kernel.cur().__dict__.setdefault("touched", set()).add(n)
        act(self.spec, "factory2" if second else "factory1")
        return Program(self.spec)


class Invoker:
    def __init__(self, spec):
        self.spec = spec
        self.__name__ = spec["name"]

    def __call__(self, module, tu):
        spec = self.spec
        act(spec, "invoke")
        for call in spec["calls"]:
            kind = call.get("in", "rand")
            if kind == "rand":
                x = tu.rand(*call["shape"])
            elif kind == "range":
                x = tu.rand(*call["shape"], low=-5.0, high=float(spec["uid"]))
            else:
                x = tu.randint(*call["shape"], high=100).to(torch.float32)
            f = module if call["m"] == "forward" else getattr(module, call["m"])
            f(x)
        act(spec, "invoke_end")
        _stage()[spec["name"]] = "invoked"


class Backend:
    """A backend configuration.  ``transport(spec, trace)`` may damage what it
    returns; without it the backend is faithful."""

    def __init__(self, transport=None):
        self.transport = transport

    def compile(self, program, verbose=False):
        spec = program.spec
        act(spec, "compile")
        return dill.dumps((spec, program))

    def run(self, artifact, trace):
        f = fw()
        spec, program = dill.loads(artifact)
        act(spec, "run")
        out = []
        for item in trace:
            obj = program
            for attr in item.symbol.split("."):
                if attr:
                    obj = getattr(obj, attr)
            inputs = [f.clone_torch_script_value(i) for i in item.inputs]
            passed = [f.clone_torch_script_value(i) for i in item.inputs]
            out.append(f.TraceItem(symbol=item.symbol, inputs=inputs, output=obj(*passed)))
        act(spec, "run_end")
        if spec.get("damage"):
            out = damage(out, spec["damage"])
        return out


PHASES = ["factory1", "invoke", "invoke_end", "factory2", "compile", "run", "run_end"]
COMPILE_PHASES = PHASES[:5]


def make_tests(specs):
    F = fw()
    return [
        F.Test(
            unique_name=s["name"],
            program_factory=Factory(s),
            program_invoker=Invoker(s),
            timeout_seconds=s["timeout"],
        )
        for s in specs
    ]


def expect(spec):
    """Reference model: what this test, alone, comes to.

    ('ok',) ('error', which, token) ('timeout', which) ('death', code)
    """
    t, T = 0.0, spec["timeout"]
    for ph in PHASES:
        b = spec.get("behave", {}).get(ph)
        if not b:
            continue
        which = "compile" if ph in COMPILE_PHASES else "run"
        t += b.get("burn") or 0
        if T and t >= T:
            return ("timeout", which)
        do = b.get("do", "ok")
        if do == "raise":
            return ("error", which, token(spec, ph))
        if do == "exit":
            return ("exit", b["code"])
        if do in ("crash", "kbd"):
            return ("death", b.get("code", 1))
    return ("ok",)


def duration(spec):
    t = 0.0
    for ph in PHASES:
        b = spec.get("behave", {}).get(ph)
        if b:
            t += b.get("burn") or 0
    return min(t, spec["timeout"] or t)


def gen_calls(rng, n=None, methods=METHODS):
    out = []
    for _ in range(n if n is not None else rng.randint(1, 4)):
        out.append(
            {
                "m": rng.pick(methods),
                "shape": [rng.randint(1, 3) for _ in range(rng.randint(1, 2))],
                "in": rng.pick(["rand", "range", "int"]),
            }
        )
    return out


def gen_names(rng, n):
    """Names that stress ordering: prefixes, case, digits, underscores."""
    pool = set()
    stems = ["Add", "add", "AddModule_basic", "AddModule", "Z", "a_b", "A10", "A2", "A_", "mm", "Conv2d", "conv"]
    while len(pool) < n:
        s = rng.pick(stems)
        if rng.chance(0.6):
            s += rng.pick(["_basic", "1", "10", "2", "_", "X", "static", "_dyn"])
        if rng.chance(0.3):
            s += str(rng.randint(0, 30))
        pool.add(s)
    names = sorted(pool)
    rng.shuffle(names)
    return names


# ---------------------------------------------------------------- equality

def same(a, b):
    """Exact structural equality, NaN equal to itself, types included."""
    if type(a) is not type(b):
        return False
    if isinstance(a, torch.Tensor):
        if a.is_meta or b.is_meta:
            return a.is_meta and b.is_meta and a.dtype == b.dtype and a.shape == b.shape
        if a.is_complex():
            return b.is_complex() and same(torch.view_as_real(a), torch.view_as_real(b))
        return (
            a.dtype == b.dtype
            and a.shape == b.shape
            and bool(torch.equal(torch.nan_to_num(a.double(), nan=1.2345e300), torch.nan_to_num(b.double(), nan=1.2345e300)))
        )
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def same_trace(t1, t2):
    return len(t1) == len(t2) and all(
        x.symbol == y.symbol and same(list(x.inputs), list(y.inputs)) and same(x.output, y.output)
        for x, y in zip(t1, t2)
    )


def reference_trace(spec):
    """The golden trace of this test, computed here, not by the framework."""
    st = torch.get_rng_state()
    grad = torch.is_grad_enabled()
    try:
        program = Program(spec)
        F = fw()
        trace = []

        class T:
            def __init__(self, obj, path):
                self.obj, self.path = obj, path

            def __call__(self, *args):
                ins = [a.clone() for a in args]
                o = self.obj(*args)
                trace.append(F.TraceItem(symbol=".".join(self.path), inputs=ins, output=o))
                return o

            def __getattr__(self, n):
                return T(getattr(self.obj, n), self.path + [n])

        class TU:
            def __init__(self):
                torch.manual_seed(0)

            def rand(self, *sizes, low=0.0, high=1.0):
                return torch.empty(sizes).uniform_(low, high)

            def randint(self, *sizes, low=0, high=10, dtype=torch.int64):
                return torch.randint(low, high, sizes, dtype=dtype)

        tu = TU()
        for call in spec["calls"]:
            kind = call.get("in", "rand")
            if kind == "rand":
                x = tu.rand(*call["shape"])
            elif kind == "range":
                x = tu.rand(*call["shape"], low=-5.0, high=float(spec["uid"]))
            else:
                x = tu.randint(*call["shape"], high=100).to(torch.float32)
            root = T(program, [])
            (root if call["m"] == "forward" else getattr(root, call["m"]))(x)
        return trace
    finally:
        torch.set_rng_state(st)
        torch.set_grad_enabled(grad)


def describe(r):
    if r.compilation_error is not None:
        return "C:" + _short(r.compilation_error)
    if r.runtime_error is not None:
        return "R:" + _short(r.runtime_error)
    return f"T{len(r.trace)}/{len(r.golden_trace)}"


def _short(s):
    s = s.strip().splitlines()[-1] if s.strip() else ""
    s = re.sub(r"0x[0-9a-f]+", "0x", s)
    s = re.sub(r"line \d+", "line", s)
    return s[:120]


TIMED_OUT = re.compile(r"tim(ed|e)?[ -]?out", re.I)


def is_timeout(r):
    for which, text in (("compile", r.compilation_error), ("run", r.runtime_error)):
        if text is not None and TIMED_OUT.search(text):
            return which
    return None


def check_own(spec, r, where="", exact=True):
    """This result is the one this test comes to by itself."""
    exp = expect(spec)
    name = spec["name"]
    if exp[0] == "ok":
        if r.compilation_error is not None or r.runtime_error is not None:
            raise core.Violation(
                "healthy-test-reported-failed",
                f"{where}test {name!r} works, but its result is {describe(r)}",
            )
        if exact:
            ref = reference_trace(spec)
            if not same_trace(r.golden_trace, ref):
                raise core.Violation(
                    "wrong-golden-trace", f"{where}golden trace of {name!r} is not what the program computes"
                )
            if not same_trace(r.trace, ref):
                raise core.Violation(
                    "wrong-trace", f"{where}trace of {name!r} is not what the backend returned"
                )
    elif exp[0] == "error":
        text = r.compilation_error if exp[1] == "compile" else r.runtime_error
        other = r.runtime_error if exp[1] == "compile" else r.compilation_error
        if text is None or other is not None:
            raise core.Violation(
                "failure-misfiled", f"{where}{name!r} raises in its {exp[1]} phase, result is {describe(r)}"
            )
        if exp[2] not in text:
            raise core.Violation(
                "failure-text-lost", f"{where}{name!r}: the raised message is not in the result: {describe(r)}"
            )
    elif exp[0] == "timeout":
        if is_timeout(r) != exp[1]:
            raise core.Violation(
                "timeout-misreported",
                f"{where}{name!r} exceeds its limit in the {exp[1]} phase, result is {describe(r)}",
            )
    if (r.compilation_error is not None or r.runtime_error is not None) and (
        r.trace is not None or r.golden_trace is not None
    ):
        raise core.Violation("failed-result-has-trace", f"{where}{name!r}: {describe(r)} and a trace")


# ---------------------------------------------------------------- damage

def _leaves(v, path=()):
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from _leaves(x, path + (i,))
        yield path, v
    elif isinstance(v, dict):
        for kk, x in v.items():
            yield from _leaves(x, path + (kk,))
        yield path, v
    else:
        yield path, v


def _replace(v, path, new):
    if not path:
        return new
    if isinstance(v, tuple):
        return tuple(_replace(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v))
    if isinstance(v, list):
        return [_replace(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v)]
    if isinstance(v, dict):
        return {kk: _replace(x, path[1:], new) if kk == path[0] else x for kk, x in v.items()}
    raise core.InvalidScenario("path")


def damage(trace, specs):
    """What arrives instead of what the backend computed."""
    k = kernel.cur()
    for d in specs:
        trace2 = damage_one(trace, d)
        if trace2 is not None:
            trace = trace2
            k.run.fault("transport: " + d["kind"])
    return trace


def damage_one(trace, d):
    kind = d["kind"]
    n = len(trace)
    if kind == "truncate":  # the last answers are lost
        keep = min(d["a"], n - 1)
        return trace[:keep] if n else None
    if kind == "lose":
        if not n:
            return None
        i = d["a"] % n
        return trace[:i] + trace[i + 1 :]
    if kind == "duplicate":
        if not n:
            return None
        i = d["a"] % n
        return trace[: i + 1] + trace[i:]
    if kind == "swap":
        if n < 2:
            return None
        i = d["a"] % (n - 1)
        if trace[i].symbol == trace[i + 1].symbol and same(trace[i].output, trace[i + 1].output):
            return None
        t = list(trace)
        t[i], t[i + 1] = t[i + 1], t[i]
        if same_trace(t, trace):
            return None
        return t
    if kind == "symbol":
        if not n:
            return None
        i = d["a"] % n
        return trace[:i] + [trace[i]._replace(symbol=trace[i].symbol + "x")] + trace[i + 1 :]
    if not n:
        return None
    i = d["a"] % n
    item = trace[i]
    leaves = list(_leaves(item.output))
    path, v = leaves[d["b"] % len(leaves)]
    new = damage_value(v, kind, d.get("c", 0))
    if new is None:
        return None
    new = None if isinstance(new, NoneMarker) else new
    if kind == "none_value" and not path and False:
        return None
    if type(new) is type(v) and same(new, v):
        return None
    out = _replace(item.output, path, new)
    return trace[:i] + [item._replace(output=out)] + trace[i + 1 :]


class NoneMarker:
    pass


# Perturbations are 100 times the comparison tolerance or more: what counts as
# numerically close is the framework's business, not this property's.
def damage_value(v, kind, c):
    if kind == "none_value":
        return NoneMarker()
    if kind == "meta":  # a tensor without storage
        return v.to("meta") if isinstance(v, torch.Tensor) and not v.is_meta else None
    if kind == "mixed_keys":  # a dict whose keys have no order
        return {**v, 3: 1} if isinstance(v, dict) else None
    if kind == "complex":
        return v.to(torch.complex64) if isinstance(v, torch.Tensor) and not v.is_meta else None
    if isinstance(v, torch.Tensor):
        if kind == "bitflip" or kind == "perturb":
            if v.numel() == 0:
                return None
            w = v.clone()
            j = c % v.numel()
            flat = w.reshape(-1)
            if w.dtype == torch.bool:
                flat[j] = ~flat[j]
            elif w.dtype.is_floating_point:
                if torch.isnan(flat[j]):
                    flat[j] = 1.0
                else:
                    flat[j] = flat[j] + (1.0 + flat[j].abs()) * 0.2 * (1 if c % 2 else -1)
            else:
                # the smallest possible damage may hide in the relative
                # tolerance of big integers; take a big one
                flat[j] = flat[j] + 1 + flat[j].abs()
            return flat.reshape(v.shape)
        if kind == "nan":
            if v.numel() == 0 or not v.dtype.is_floating_point:
                return None
            w = v.clone().reshape(-1)
            if torch.isnan(w[c % w.numel()]):
                return None
            w[c % w.numel()] = float("nan")
            return w.reshape(v.shape)
        if kind == "zero":
            w = torch.zeros_like(v)
            if v.numel() and (v.to(torch.float64).abs().nan_to_num(nan=9.0) > 0.2).any():
                return w
            return None
        if kind == "negate":
            if v.dtype == torch.bool or v.numel() == 0 or not (v.to(torch.float64).abs() > 0.2).any():
                return None
            return -v
        if kind == "dtype":
            return v.to(torch.float64 if v.dtype != torch.float64 else torch.float32)
        if kind == "shape":
            return v.unsqueeze(0)
        if kind == "broadcast":
            return v.reshape(-1)[:1].reshape(()) if v.numel() > 1 else v.unsqueeze(0)
        if kind == "shorten":
            return v[:-1] if v.dim() and v.shape[0] > 0 else None
        if kind == "stringify":
            return str(v.shape)
        return None
    if isinstance(v, bool):
        if kind in ("perturb", "bitflip", "negate"):
            return not v
        if kind == "stringify":
            return str(v)
        return None
    if isinstance(v, int):
        if kind in ("perturb", "bitflip"):
            return v + 1 + (c % 5)
        if kind == "negate":
            return -v if v else None
        if kind == "dtype":
            return float(v)
        if kind == "stringify":
            return str(v)
        return None
    if isinstance(v, float):
        if kind in ("perturb", "bitflip"):
            return v + (1.0 + abs(v)) * 0.2 * (1 if c % 2 else -1)
        if kind == "negate":
            return -v if v else None
        if kind == "zero":
            return 0.0 if abs(v) > 1e-3 else None
        if kind == "nan":
            return float("nan") if v == v else None
        if kind == "dtype":
            return int(v) if v == v and abs(v) != float("inf") else None
        if kind == "stringify":
            return str(v)
        return None
    if isinstance(v, str):
        if kind in ("perturb", "bitflip"):
            return v + "x"
        if kind == "shorten":
            return v[:-1] if v else None
        if kind == "dtype":
            return 0
        return None
    if isinstance(v, (list, tuple)):
        if kind == "shorten" and len(v) > 1:
            return v[:-1]
        if kind == "duplicate_elem" and v:
            return v + v[-1:]
        if kind == "dtype":
            if isinstance(v, tuple) and len(v) == 1:
                return None  # 1-tuples are unwrapped on purpose
            return tuple(v) if isinstance(v, list) else list(v)
        if kind == "swap_elem" and len(v) > 1 and not same(v[0], v[-1]):
            w = list(v)
            w[0], w[-1] = w[-1], w[0]
            return tuple(w) if isinstance(v, tuple) else w
        return None
    if isinstance(v, dict):
        if kind == "shorten" and v:
            w = dict(v)
            w.pop(sorted(w)[-1])
            return w
        if kind == "duplicate_elem":
            return {**v, "zz": 1}
        if kind == "swap_elem" and len(v) > 1:
            ks = sorted(v)
            w = dict(v)
            if same(w[ks[0]], w[ks[1]]):
                return None
            w[ks[0]], w[ks[1]] = w[ks[1]], w[ks[0]]
            return w
        return None
    return None


TRACE_DAMAGE = ["truncate", "lose", "duplicate", "swap", "symbol"]
# answers (or goldens) that comparison code may choke on
AWKWARD_METHODS = ["meta", "mixed", "complexes"]
AWKWARD_DAMAGE = ["meta", "mixed_keys", "complex"]
VALUE_DAMAGE = [
    "perturb", "bitflip", "nan", "zero", "negate", "dtype", "shape", "broadcast", "shorten",
    "stringify", "duplicate_elem", "swap_elem", "none_value",
]


def recorded_defects(spec):
    """Which recorded defects of the comparison code (known_findings.json) this
    test's answers meet."""
    k = kernel.Kernel(core.Run(), {})
    with kernel.use(k):
        ref = reference_trace(spec)
        got = damage(reference_trace(spec), spec.get("damage") or [])
    out = set()
    if len(ref) != len(got):
        out.add("call-count")

    def walk(g, v):
        if v is None:
            out.add("unsupported-value")
        if isinstance(g, float):
            if not g > 0 or (isinstance(v, float) and v != v):
                out.add("float-compare")
        for t in (g, v):
            if isinstance(t, torch.Tensor) and t.is_meta:
                out.add("incomparable-value")
            if isinstance(t, dict) and len({type(x) for x in t}) > 1:
                out.add("incomparable-value")
        if isinstance(g, (list, tuple)):
            v = v if isinstance(v, (list, tuple)) else [v]
            for i in range(max(len(g), len(v))):
                walk(g[i] if i < len(g) else 0, v[i] if i < len(v) else 0)
        elif isinstance(g, dict):
            v = v if isinstance(v, dict) else {0: v}
            for i in list(g) + [i for i in v if i not in g]:
                walk(g.get(i, 0), v.get(i, 0))
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(0, x)

    for i in range(max(len(ref), len(got))):
        walk(ref[i].output if i < len(ref) else 0, got[i].output if i < len(got) else 0)
    return out


SAFE_METHODS = [m for m in METHODS if m not in ("flt", "flt0")]


def quiet():
    """Captures what the framework prints."""
    return io.StringIO()


class captured:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


def setup():
    kernel.install()
    import torch_mlir_e2e_test.framework
    import torch_mlir_e2e_test.reporting


def isolate_ok(ok):
    return ok
