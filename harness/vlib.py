"""Shared machinery: TLC runner, term evaluation, comparison, evidence, violations."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
REPO_SRC = "/repo/src"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class MachineryError(Exception):
    """The verification machinery itself failed (never a verdict)."""


class Stop(Exception):
    """Enough violations were collected."""


# --------------------------------------------------------------------- files
def write_replay(pid, obj):
    os.makedirs(OUT, exist_ok=True)
    obj = dict(obj, seed=SEED, tier=TIER)
    for n in range(10000):
        path = os.path.join(OUT, f"{pid}-{n}.json")
        try:
            os.close(os.open(path, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
            break
        except FileExistsError:
            continue
    with open(path, "w") as f:
        json.dump(jsonable(obj), f, indent=1)
    return path


def write_evidence(pid, coverage, wall, violations, level="model_checking", assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(jsonable(dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=coverage,
                                assumptions=list(assumptions), wall_s=round(wall, 2), violations=violations)), f, indent=1)


def jsonable(x):
    try:
        import numpy as np
    except ImportError:
        np = None
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if np is not None:
        if isinstance(x, np.ndarray):
            return jsonable(x.tolist())
        if isinstance(x, np.generic):
            return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


# ----------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.cases = []
        self.out = ""
        self.rejected = None


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v  # raw TLA+ text (quote strings yourself)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(i) for i in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(i) for i in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_value(x)}" for k, x in v.items()) + "]"
    raise MachineryError(f"cannot express {v!r} in TLA+")


def run_tlc(module, constants=None, invariants=(), properties=(), constraint=None, spec="Spec", simulate=None,
            depth=None, postcondition=None, files=None, workers=None, timeout=700, expect_reject=False, heap="3g",
            view=None, seed=None):
    """Run TLC on /verif/spec/<module>.tla and collect the cases it emits.

    A case is a line  "@@{...json...}"  printed by the specification (PrintT("@@" \\o ToJson(x))).
    ``simulate`` = number of random behaviours (with seed) instead of exhaustive search.
    ``expect_reject``: trace validation; a failed postcondition/invariant is returned in ``.rejected``.
    """
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), "w") as f:
                f.write(text)
        # constants go through a wrapper module so that any TLA+ expression is allowed
        consts = constants or {}
        wrapper = "MC_" + module
        body = [f"---- MODULE {wrapper} ----", f"EXTENDS {module}"]
        cfg = [f"SPECIFICATION {spec}", "CHECK_DEADLOCK FALSE"]
        for k, v in consts.items():
            body.append(f"const_{k} == {tla_value(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        body.append("====")
        with open(os.path.join(work, wrapper + ".tla"), "w") as f:
            f.write("\n".join(body) + "\n")
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {p}" for p in properties]
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        with open(os.path.join(work, wrapper + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-Djava.io.tmpdir=" + work, "-cp", TLAJARS, "tlc2.TLC",
               "-workers", str(workers or 4), "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 50), "-seed", str(seed if seed is not None else SEED)]
            if not workers:
                cmd[cmd.index("-workers") + 1] = "1"
        cmd += ["-config", wrapper + ".cfg", wrapper + ".tla"]
        p = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        r = TLCResult()
        rest = []
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                s = json.loads(line) if '\\' in line else line[1:-1]
                r.cases.append(json.loads(s[2:]))
            elif line.startswith("@@"):
                r.cases.append(json.loads(line[2:]))
            else:
                rest.append(line)
        r.out = "\n".join(rest)
        if not simulate:  # the workers emit in an order of their own
            texts = [(len(t), t) for t in (json.dumps(k) for k in r.cases)]
            r.cases = [r.cases[i] for i in sorted(range(len(texts)), key=texts.__getitem__)]
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out):
            pass
        if m:
            r.generated = int(m.group(1).replace(",", ""))
            r.distinct = int(m.group(2).replace(",", ""))
        m = None
        for m in re.finditer(r"The number of states generated: ([\d,]+)", r.out):
            pass
        if m:
            r.generated = r.distinct = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m.group(1))
        bad = re.search(r"(Error:.*|.*is violated.*)", r.out)
        if p.returncode != 0 or bad:
            if expect_reject and re.search(r"(POSTCONDITION|Postcondition|postcondition|is violated|Invariant)", r.out):
                r.rejected = "\n".join(rest[-60:])
                return r
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + "\n".join(rest[-60:]) + p.stderr[-2000:])
        if r.generated == 0:
            raise MachineryError(f"TLC explored nothing in {module}:\n" + r.out[-3000:])
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


# --------------------------------------------------------------------- check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.counts = {}
        self.violations = []
        self.findings_hit = set()
        self.assumptions = []
        self.tlc_runs = []
        self.known = load_known(pid)
        self.max_violations = 5

    # specification side
    def tlc(self, module, **kw):
        r = run_tlc(module, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.tlc_runs.append(dict(module=module, distinct=r.distinct, generated=r.generated, cases=len(r.cases),
                                  mode="simulate" if kw.get("simulate") else "exhaustive"))
        return r

    def validated(self, n=1, kind=None, sample=None):
        self.traces += n
        if kind is not None:
            self.counts[kind] = self.counts.get(kind, 0) + n
        if sample is not None and len(self.samples) < 4:
            self.samples.append(jsonable(sample))

    def require(self, kind, minimum=1):
        """Vacuity guard: this kind of case must have been exercised."""
        if self.violations:
            return
        if self.counts.get(kind, 0) < minimum:
            raise MachineryError(f"vacuous: only {self.counts.get(kind, 0)} cases of kind {kind}")

    def parts(self, *fns, limit=8):
        """Run the functions fn(check) in forked processes, at most ``limit`` at a time, and merge what they found.

        (Most of the time of a check is numba compiling different kernels, which is independent work.)
        The parent must not have executed any parallel numba code before.
        """
        sys.stdout.flush()
        sys.stderr.flush()
        todo, running, failures = list(enumerate(fns)), {}, []
        while todo or running:
            while todo and len(running) < limit:
                n, fn = todo.pop(0)
                fd, name = tempfile.mkstemp(prefix="part-")
                os.close(fd)
                pid = os.fork()
                if pid == 0:
                    rc = 3
                    try:
                        sub = Check(self.pid)
                        err = guarded(sub, fn)
                        res = dict(states=sub.states, transitions=sub.transitions, traces=sub.traces, samples=sub.samples, counts=sub.counts,
                                   violations=sub.violations, findings=sorted(sub.findings_hit), tlc_runs=sub.tlc_runs, err=err)
                        with open(name, "w") as f:
                            json.dump(jsonable(res), f)
                        rc = 0
                    except BaseException:  # noqa: BLE001
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(rc)
                running[pid] = (n, name)
            pid, status = os.wait()
            if pid not in running:
                continue
            n, name = running.pop(pid)
            try:
                if os.WIFSIGNALED(status):
                    if os.WTERMSIG(status) in (4, 6, 7, 8, 11):
                        self.violation(f"part {n}: the process was ended by signal {os.WTERMSIG(status)}")
                    else:
                        failures.append(f"part {n} was ended by signal {os.WTERMSIG(status)}")
                elif os.WEXITSTATUS(status) != 0:
                    failures.append(f"part {n} failed")
                else:
                    with open(name) as f:
                        r = json.load(f)
                    self.states += r["states"]
                    self.transitions += r["transitions"]
                    self.traces += r["traces"]
                    self.samples = (self.samples + r["samples"])[:6]
                    for k, v in r["counts"].items():
                        self.counts[k] = self.counts.get(k, 0) + v
                    self.violations += [tuple(v) for v in r["violations"]]
                    self.findings_hit |= set(r["findings"])
                    self.tlc_runs += r["tlc_runs"]
                    if r["err"]:
                        failures.append(f"part {n}: {r['err']}")
            finally:
                os.unlink(name)
        if failures:
            raise MachineryError("; ".join(failures))

    # verdict side
    def violation(self, what, key=None, **replay):
        """Report a mismatch between specification and implementation (or a listed finding)."""
        if key is not None and key in self.known:
            if key not in self.findings_hit:
                self.findings_hit.add(key)
                print(f"KNOWN-FINDING: property={self.pid} {self.known[key]}", flush=True)
            return
        path = write_replay(self.pid, dict(property=self.pid, what=what, **replay))
        self.violations.append((what, path))
        print(f"  mismatch: {what}", flush=True)
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        if len(self.violations) >= self.max_violations:
            raise Stop()

    def close(self, got, want, what, rtol=1e-9, atol=0.0, key=None, scale=None, **replay):
        """|got - want| <= atol + rtol*max(|want|, scale), shape included, NaN equal to NaN."""
        import numpy as np

        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.violation(f"{what}: shape {g.shape}, specified {w.shape}", key=key, got=g, want=w, **replay)
            return False
        s = np.abs(w) if scale is None else np.maximum(np.abs(w), scale)
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= atol + rtol * s) | (np.isnan(g) & np.isnan(w)) | (g == w)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            gb = np.atleast_1d(g)[tuple(bad)]
            wb = np.atleast_1d(w)[tuple(bad)]
            self.violation(f"{what}: got {gb!r}, specified {wb!r} (at {bad}, {int((~ok).sum())} of {ok.size} differ)", key=key,
                           got=g if g.size < 200 else float(gb), want=w if w.size < 200 else float(wb), **replay)
            return False
        return True

    def equal(self, got, want, what, key=None, **replay):
        if got != want:
            self.violation(f"{what}: got {got!r}, specified {want!r}", key=key, got=got, want=want, **replay)
            return False
        return True

    def true(self, cond, what, key=None, **replay):
        if not cond:
            self.violation(what, key=key, **replay)
            return False
        return True

    def call(self, what, fn, *a, key=None, **kw):
        """Call implementation code that the specification says must succeed; None and a violation if it raises."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **kw)
        except Stop:
            raise
        except Exception as e:  # noqa: BLE001
            self.violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}", key=key, trace=traceback.format_exc()[-3000:])
            return None

    def raises(self, what, excs, fn, *a, key=None, **kw):
        """Call implementation code that the specification says must be refused with one of the exceptions."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn(*a, **kw)
        except excs:
            return True
        except Exception as e:  # noqa: BLE001
            self.violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}, specified {excs}", key=key,
                           trace=traceback.format_exc()[-3000:])
            return False
        self.violation(f"{what}: accepted, specified to be refused with {excs}", key=key, got=r)
        return False

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(no case sampled)"], cases_by_kind=self.counts, tlc_runs=self.tlc_runs)
        write_evidence(self.pid, cov, time.time() - self.t0, len(self.violations), assumptions=self.assumptions)
        print(f"{self.pid} {TIER}: {self.states} distinct states, {self.transitions} transitions, {self.traces} cases replayed, "
              f"{len(self.violations)} violations, {time.time() - self.t0:.1f} s", flush=True)
        return 1 if self.violations else 0


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {e["key"]: e["what"] for e in json.load(f) if e["property"] == pid and e["status"] == "known"}


def prepare_imports():
    sys.path.insert(0, REPO_SRC)
    if not os.path.exists(os.path.join(REPO_SRC, "harmonica", "_version.py")):
        import types

        m = types.ModuleType("harmonica._version")
        m.version = m.__version__ = "0.0.0"
        m.__version_tuple__ = m.version_tuple = (0, 0, 0)
        m.__commit_id__ = m.commit_id = None
        sys.modules["harmonica._version"] = m


def from_repo(tb_exc):
    """True when the exception was raised while code of the repository was running."""
    tb = tb_exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO_SRC)):
            return True
        tb = tb.tb_next
    return False


def guarded(c, fn):
    """Run fn(c); an exception from the repository's code is a violation, the machinery's own are returned as text."""
    try:
        fn(c)
    except Stop:
        pass
    except MachineryError as e:
        return str(e)
    except Exception as e:  # noqa: BLE001
        if from_repo(e):
            try:
                c.violation(f"unexpected {type(e).__name__} from harmonica: {str(e)[:200]}", trace=traceback.format_exc()[-4000:])
            except Stop:
                pass
        else:
            traceback.print_exc()
            return f"{type(e).__name__}: {e}"
    return None


def run_check(pid):
    prepare_imports()
    c = Check(pid)
    try:
        try:
            import harmonica  # noqa: F401
        except Exception as e:  # noqa: BLE001
            c.violation(f"harmonica cannot be imported: {e!r}", trace=traceback.format_exc())
            return c.finish()
        if not os.path.realpath(harmonica.__file__).startswith(os.path.realpath(REPO_SRC)):
            raise MachineryError(f"harmonica imported from {harmonica.__file__}")
        mod = importlib.import_module("checks." + pid)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Stop:
        return c.finish()
    err = guarded(c, mod.check)
    if err:
        print("MACHINERY ERROR:", err)
        if not c.violations:
            return 2
    return c.finish()


# --------------------------------------------------------------------- terms
def ev(t, env):
    """Evaluate a term of the specification's term language in extended precision.

    Terms (see spec/Terms.tla): [op, args...].  ``env`` binds variable names to longdouble arrays/scalars.
    """
    import numpy as np

    L = np.longdouble
    cache = {}

    def e(t):
        k = id(t)
        if k in cache:
            return cache[k]
        op = t[0]
        if op == "q":
            r = L(t[1]) / L(t[2])
        elif op == "v":
            r = env[t[1]]
        elif op == "pi":
            r = L("3.14159265358979323846264338327950288")
        elif op == "add":
            r = e(t[1])
            for x in t[2:]:
                r = r + e(x)
        elif op == "sum":
            r = L(0)
            for x in t[1]:
                r = r + e(x)
        elif op == "mul":
            r = e(t[1])
            for x in t[2:]:
                r = r * e(x)
        elif op == "sub":
            r = e(t[1]) - e(t[2])
        elif op == "neg":
            r = -e(t[1])
        elif op == "div":
            r = e(t[1]) / e(t[2])
        elif op == "pow":
            r = e(t[1]) ** t[2]
        elif op == "sqrt":
            r = np.sqrt(e(t[1]))
        elif op == "exp":
            r = np.exp(e(t[1]))
        elif op == "ln":
            r = np.log(e(t[1]))
        elif op == "sin":
            r = np.sin(e(t[1]))
        elif op == "cos":
            r = np.cos(e(t[1]))
        elif op == "atan2":
            r = np.arctan2(e(t[1]), e(t[2]))
        elif op == "abs":
            r = np.abs(e(t[1]))
        elif op == "lnplus":  # ln(x + sqrt(x^2 + s)) for s >= 0 without the factor that cancels between corners when s = 0
            x, s = e(t[1]), e(t[2])
            r_ = np.sqrt(x * x + s)
            with np.errstate(all="ignore"):
                r = np.where(x >= 0, np.log(np.where(x >= 0, x + r_, 1)),
                             np.where(s > 0, np.log(np.where(s > 0, s, 1)), 0) - np.log(np.where(x < 0, r_ - x, 1)))
            # x = 0 and s = 0 only occurs multiplied by zero (potential, acceleration) or at singular points
            r = np.where((x == 0) & (s == 0), 0, r)
        elif op == "atanq":  # atan(num/den) with the value 0 where den = 0
            n, d = e(t[1]), e(t[2])
            with np.errstate(all="ignore"):
                r = np.where(d == 0, 0, np.arctan(n / np.where(d == 0, 1, d)))
        elif op == "atanside":  # atan(num/den) with the one-sided limit den -> side * 0 where den = 0
            n, d, side = e(t[1]), e(t[2]), t[3]
            with np.errstate(all="ignore"):
                r = np.where(d == 0, np.sign(n) * side * L("1.57079632679489661923132169163975144"),
                             np.arctan(n / np.where(d == 0, 1, d)))
        elif op == "rd":
            from scipy.special import elliprd

            r = elliprd(*(np.asarray(e(x), dtype=float) for x in t[1:])).astype(L)
        elif op == "ite":  # ite(cond >= 0, a, b)
            r = np.where(e(t[1]) >= 0, e(t[2]), e(t[3]))
        else:
            raise MachineryError(f"unknown term operator {op}")
        cache[k] = r
        return r

    return e(t)


def rng(salt=0):
    import numpy as np

    return np.random.default_rng([SEED, salt])
