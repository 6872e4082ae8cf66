"""Runner shared by all checks: seeds, tiers, workers, counting, shrinking, replay files, evidence, known findings."""

from __future__ import annotations

import ast
import contextlib
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from vlib import boot  # noqa: E402,F401  (sets up sys.path)

from vlib.img import BudgetExceeded  # noqa: E402

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402

with contextlib.suppress(Exception):
    import hypothesis.internal.conjecture.engine as _engine

    _engine.MAX_SHRINKING_SECONDS = 60


class Violation(AssertionError):
    """The code under test broke the property."""


class Hang(BaseException):
    """The code under test used implausibly much processor time on one case (see CASE_CPU_SECONDS)."""


CASE_CPU_SECONDS = 40
WORKER_MEMORY = 3 << 30


def _on_timer(signum, frame):
    # fires again every second: what it raises may get lost, for example when the stack is full
    raise Hang("still busy after implausibly much processor time")


def _from_library(e: BaseException) -> str | None:
    """Where in the code under test the error came from, or None if it is the harness' own."""
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if f.filename.endswith("vlib/img.py"):
            continue  # a device complaining about how it is used
        if f.filename.startswith(VERIF + os.sep):
            return None
        if f.filename.startswith(boot.REPO + os.sep):
            return f"{os.path.basename(f.filename)}:{f.lineno}"
    return None


def fail(msg: str) -> None:
    raise Violation(msg)


def expect(cond: bool, msg: str) -> None:
    if not cond:
        raise Violation(msg)


def short(value: object, limit: int = 160) -> str:
    if isinstance(value, (bytes, bytearray)) and len(value) > 40:
        return f"<{len(value)} bytes {bytes(value[:16]).hex()}...>"
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + "..."


def same(got: object, want: object, what: str) -> None:
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


@contextlib.contextmanager
def subject(what: str):
    """Run code of the library where the property says it has to work: any error of it is a violation."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if boot.REPO in f.filename), "?")
        raise Violation(f"{what}: unexpected {type(e).__name__}: {short(str(e))} (at {where})") from e


def attempt(fn, *args, **kwargs):
    """Call the library where an error is a legitimate answer.  Returns (value, error)."""
    try:
        return fn(*args, **kwargs), None
    except Violation:
        raise
    except Exception as e:
        return None, e


class Ctx:
    """Per-case context handed to a property function: labels for measuring what was generated."""

    def __init__(self, part: str):
        self.part = part
        self.labels: set[str] = set()
        self.trivial = False

    def label(self, *names: str) -> None:
        for name in names:
            if name:
                self.labels.add(name)

    def mark_trivial(self) -> None:
        self.trivial = True


class Part:
    """One generator + one oracle.  ``strategy`` yields plain data (a spec), ``fn(ctx, spec)`` raises Violation."""

    def __init__(self, name, strategy, fn, quick=200, thorough=None, corners=()):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.corners = corners


class Check:
    def __init__(self, pid: str, rule: str, parts: list[Part], known=(), assumptions=(), workers: int = 4):
        self.pid = pid
        self.rule = rule
        self.parts = parts
        # known: list of (finding id, probe) - probe() returns None if it no longer fails, or the text of what fails
        self.known = list(known)
        self.assumptions = list(assumptions)
        self.workers = workers

    # ---------------------------------------------------------------- running
    def main(self) -> None:
        args = sys.argv[1:]
        try:
            if args and args[0] == "--replay":
                code = self.replay(args[1])
            else:
                code = self.run()
        except SystemExit:
            raise
        except BaseException:
            traceback.print_exc()
            print(f"ERROR: harness error in the check of {self.pid}")
            code = 3
        sys.stdout.flush()
        sys.exit(code)

    def run(self) -> int:
        start = time.time()
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)

        results = self._run_workers(tier, seed)

        evaluations = sum(r["evaluations"] for r in results)
        nontrivial = set().union(*(r["nontrivial"] for r in results))
        labels = Counter()
        per_part = Counter()
        for r in results:
            labels.update(r["labels"])
            per_part.update(r["per_part"])
        samples = []
        for r in results:
            samples.extend(r["samples"])
        harness = [r["harness_error"] for r in results if r["harness_error"]]
        failures = [r["failure"] for r in results if r["failure"]]

        known_lines, known_fail = self._probe_known()
        if known_fail:
            failures.append(known_fail)

        replay = None
        if failures:
            failures.sort(key=lambda f: len(f["case"]))
            replay = self._write_replay(failures[0], tier, seed)

        evidence = {
            "property": self.pid,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontrivial),
                "rule": self.rule,
                "samples": samples[:12],
                "per_part": dict(sorted(per_part.items())),
                "classes": dict(sorted(labels.items())),
                "known_findings_seen": known_lines,
                "repo": boot.REPO,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - start, 3),
            "violations": len(failures),
        }
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + ".tmp", "w") as fh:
            json.dump(evidence, fh, indent=1, sort_keys=True)
            fh.write("\n")
        os.replace(path + ".tmp", path)

        for line in known_lines:
            print(f"KNOWN-FINDING: property={self.pid} {line}")
        print(
            f"{self.pid} tier={tier} seed={seed}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, "
            f"{evidence['wall_s']}s"
        )
        if failures:
            print(failures[0]["message"])
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if harness:
            for text in harness[:1]:
                print(text)
            print(f"ERROR: harness error in the check of {self.pid}")
            return 3
        return 0

    def _run_workers(self, tier: str, seed: int) -> list[dict]:
        n = self.workers
        if n <= 1 or os.environ.get("VERIF_WORKERS") == "1":
            return [self._work(tier, seed, w, n) for w in range(n)]
        ctx = multiprocessing.get_context("fork")
        procs = []
        for w in range(n):
            recv, send = ctx.Pipe(duplex=False)
            proc = ctx.Process(target=self._worker, args=(send, tier, seed, w, n), daemon=True)
            proc.start()
            send.close()
            procs.append((proc, recv))
        results = []
        for proc, recv in procs:
            try:
                results.append(recv.recv())
            except EOFError:
                proc.join()
                results.append(_empty(f"worker died with exit code {proc.exitcode}"))
            proc.join()
        return results

    def _worker(self, pipe, tier: str, seed: int, worker: int, n: int) -> None:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
            result = self._work(tier, seed, worker, n)
        except BaseException:
            result = _empty(traceback.format_exc())
        pipe.send(result)
        pipe.close()

    def _work(self, tier: str, seed: int, worker: int, n: int) -> dict:
        # what the library prints is not part of any result
        with open(os.devnull, "w") as sink, contextlib.redirect_stdout(sink):
            return self._search(tier, seed, worker, n)

    def _search(self, tier: str, seed: int, worker: int, n: int) -> dict:
        res = _empty(None)
        signal.signal(signal.SIGVTALRM, _on_timer)
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        only = os.environ.get("VERIF_PART")
        for pidx, part in enumerate(self.parts):
            if only and part.name != only:
                continue
            total = part.quick if tier == "quick" else part.thorough
            count = max(1, int(total * scale) // n)
            last: dict = {}

            def body(spec):  # noqa: B023 - only used within this iteration
                ctx = Ctx(part.name)
                res["evaluations"] += 1
                res["per_part"][part.name] += 1
                try:
                    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS, 1)
                    try:
                        part.fn(ctx, spec)
                    finally:
                        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                except (Violation, Hang, BudgetExceeded) as e:
                    last["spec"] = spec
                    last["message"] = str(e)
                    raise
                except Exception as e:
                    where = _from_library(e)
                    if where is None:
                        raise
                    last["spec"] = spec
                    last["message"] = f"unexpected {type(e).__name__}: {short(str(e))} (at {where})"
                    raise Violation(last["message"]) from e
                for lab in ctx.labels:
                    res["labels"][f"{part.name}: {lab}"] += 1
                if not ctx.trivial:
                    text = repr(spec)
                    digest = hashlib.blake2b((part.name + text).encode(), digest_size=8).digest()
                    if digest not in res["nontrivial"]:
                        res["nontrivial"].add(digest)
                        taken = sum(x["part"] == part.name for x in res["samples"])
                        if worker == 0 and taken < 2 and res["per_part"][part.name] >= (5, 40)[taken]:
                            res["samples"].append(
                                {"part": part.name, "case": text[:1500], "classes": sorted(ctx.labels)}
                            )

            try:
                for cidx, corner in enumerate(part.corners):
                    if cidx % n == worker:
                        body(corner)

                test = given(part.strategy)(body)
                test = settings(
                    max_examples=count,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    report_multiple_bugs=False,
                    print_blob=False,
                    phases=[Phase.generate, Phase.target, Phase.shrink],
                    suppress_health_check=list(HealthCheck),
                )(test)
                test = hypothesis.seed((seed * 1000003 + worker * 8191 + pidx * 131) & 0xFFFFFFFF)(test)
                test()
            except Violation as e:
                res["failure"] = _failure(part.name, last.get("spec"), last.get("message", str(e)))
                break
            except BaseException as e:
                # hypothesis may wrap (flaky, multiple); a recorded violation is still a violation
                if last and "spec" in last:
                    res["failure"] = _failure(part.name, last["spec"], last["message"])
                else:
                    res["harness_error"] = f"part {part.name}: {type(e).__name__}\n" + traceback.format_exc()
                break
        return res

    def _probe_known(self):
        lines = []
        listed = known_findings()
        for fid, probe in self.known:
            entry = listed.get(fid)
            try:
                seen = probe()
            except Violation as e:
                return lines, _failure("known:" + fid, None, str(e))
            if seen is None:
                continue
            if entry is None or entry["property"] != self.pid:
                return lines, _failure("known:" + fid, None, f"{seen} (not in known_findings.txt)")
            lines.append(f"[{fid}] {entry['text']}")
        return lines, None

    def _write_replay(self, failure: dict, tier: str, seed: int) -> str:
        directory = os.path.join(VERIF, "replays")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, f"{self.pid}-{tier}-{seed}.json")
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": self.pid,
                    "part": failure["part"],
                    "message": failure["message"],
                    "case": failure["case"],
                    "how": f"cd {VERIF} && ./run.sh {self.pid} --replay {path}",
                },
                fh,
                indent=1,
            )
            fh.write("\n")
        return path

    def replay(self, path: str) -> int:
        with open(path) as fh:
            data = json.load(fh)
        if data["part"].startswith("known:"):
            _, failure = self._probe_known()
            if failure:
                print(failure["message"])
                print(f"VIOLATION property={self.pid} replay={path}")
                return 1
            print("replay: no violation")
            return 0
        part = next(p for p in self.parts if p.name == data["part"])
        spec = ast.literal_eval(data["case"])
        signal.signal(signal.SIGVTALRM, _on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS, 1)
        try:
            part.fn(Ctx(part.name), spec)
        except Exception as e:
            if not isinstance(e, Violation) and _from_library(e) is None:
                raise
            print(str(e))
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        except (Hang, BudgetExceeded) as e:
            print(str(e))
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print("replay: no violation")
        return 0


def _empty(error) -> dict:
    return {
        "evaluations": 0,
        "nontrivial": set(),
        "labels": Counter(),
        "per_part": Counter(),
        "samples": [],
        "failure": None,
        "harness_error": error,
    }


def _failure(part: str, spec: object, message: str) -> dict:
    return {"part": part, "case": repr(spec), "message": message}


def known_findings() -> dict[str, dict]:
    """Parse the committed list.  Lines: ``finding: id=<ID> property=<PID> <text>`` (``fixed:`` lines suppress nothing)."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            _, fid, prop, text = line.split(" ", 3)
            out[fid.removeprefix("id=")] = {"property": prop.removeprefix("property="), "text": text}
    return out
