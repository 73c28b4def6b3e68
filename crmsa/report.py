"""Findings, evidence files, known findings, and the command line every check shares."""

from __future__ import annotations

import json
import pickle
import os
import subprocess
import sys
import threading
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

from .model import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRMSA_REPO", "/repo")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


@dataclass
class Finding:
    rule: str
    construct: str  # function / class / call site description, without line numbers: the key
    loc: str
    msg: str
    trace: list = field(default_factory=list)

    @property
    def key(self) -> str:
        return f"{self.rule}|{self.construct}"


class Ctx:
    """What a check records while it runs."""

    def __init__(self, prog: Program, tier: str, seed: int) -> None:
        self.p = prog
        self.tier = tier
        self.seed = seed
        self.findings: dict[str, Finding] = {}
        self.rules: dict[str, str] = {}
        self.counts: dict[str, int] = {}
        self.samples: list = []
        self.functions: set = set()
        self.sites: set = set()
        self.undecided: list = []
        self.errors: list = []
        self.truncated: list = []
        self.assumptions: list = []

    def rule(self, rid: str, text: str) -> None:
        self.rules[rid] = text

    def count(self, k: str, n: int = 1) -> None:
        self.counts[k] = self.counts.get(k, 0) + n

    def report(self, rule: str, construct: str, loc: str, msg: str, trace: Optional[list] = None) -> None:
        f = Finding(rule, construct, loc, msg, trace or [])
        self.findings.setdefault(f.key, f)

    def undec(self, what: str) -> None:
        self.count("undecided")
        if what not in self.undecided and len(self.undecided) < 60:
            self.undecided.append(what)

    def sample(self, s: Any) -> None:
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def need(self, cond: bool, what: str) -> None:
        """An anchor or instance-count floor: failing it is an error of the analysis."""
        if not cond:
            raise AnalysisBroken(what)

    def guard(self, what: str, fn: Callable[[], Any]) -> Any:
        """Runs one obligation; an internal failure leaves it undecided rather than failing the run."""
        from .interp import Budget

        try:
            return fn()
        except Budget:
            self.truncated.append(what)
        except AnalysisBroken:
            raise
        except RecursionError:
            self.truncated.append(what + " (recursion)")
        except Exception as e:  # pylint: disable=broad-except
            tb = traceback.format_exc().strip().splitlines()
            self.errors.append(f"{what}: {type(e).__name__}: {e} @ {tb[-3].strip() if len(tb) > 2 else ''}")
            if os.environ.get("CRMSA_DEBUG"):
                traceback.print_exc()
        return None


    def spread(self, items: list, fn: Callable[[Any], Any]) -> None:
        """Runs fn on every item (guarded), in parallel processes; what each records is merged in the order of the items."""
        n = min(int(os.environ.get("CRMSA_JOBS", "0") or 0) or os.cpu_count() or 1, max(1, len(items) // 8))
        if n <= 1:
            for x in items:
                self.guard(str(x)[:80], lambda x=x: fn(x))
            return
        pipes = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = []
                    for i in range(w, len(items), n):
                        c = Ctx(self.p, self.tier, self.seed)
                        c.rules = self.rules
                        keep = self.__dict__
                        self.__dict__ = c.__dict__
                        try:
                            self.guard(str(items[i])[:80], lambda: fn(items[i]))
                        finally:
                            self.__dict__ = keep
                        fs = [(f.rule, f.construct, f.loc, f.msg, [str(t) for t in f.trace]) for f in c.findings.values()]
                        out.append((i, fs, c.counts, [repr_safe(x) for x in c.samples], c.functions, c.sites, c.undecided, c.errors, c.truncated))
                    with os.fdopen(wr, "wb") as fh:
                        pickle.dump(out, fh)
                    code = 0
                except AnalysisBroken as e:
                    with os.fdopen(wr, "wb") as fh:
                        pickle.dump(str(e), fh)
                    code = 0
                except BaseException:  # pylint: disable=broad-except
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            pipes.append((pid, r))
        got: list = []
        broken: Optional[str] = None
        for pid, r in pipes:
            with os.fdopen(r, "rb") as fh:
                raw = fh.read()
            _, st = os.waitpid(pid, 0)
            if st != 0 or not raw:
                broken = broken or "a worker process ended early"
                continue
            x = pickle.loads(raw)
            if isinstance(x, str):
                broken = x
            else:
                got += x
        if broken is not None:
            raise AnalysisBroken(broken)
        for _, fs, counts, samples, functions, sites, und, errors, trunc in sorted(got, key=lambda g: g[0]):
            for f in fs:
                self.report(*f)
            for k, v in counts.items():
                if k != "undecided":
                    self.count(k, v)
            for s in samples:
                self.sample(s)
            self.functions |= functions
            self.sites |= sites
            for u in und:
                self.undec(u)
            self.errors += errors
            self.truncated += trunc


def repr_safe(x: Any) -> Any:
    try:
        return json.loads(json.dumps(x))
    except (TypeError, ValueError):
        return str(x)


CHECKS: dict[str, Callable[[Ctx], str]] = {}


def check(pid: str):
    """Registers a check: a function that analyses ctx.p, records findings and returns an explanation of its coverage."""

    def deco(f: Callable[[Ctx], str]):
        CHECKS[pid] = f
        return f

    return deco


def load_known(pid: str) -> dict[str, str]:
    out: dict[str, str] = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN, encoding="utf-8") as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, text = line[len("known: "):].partition(" :: ")
            parts = head.split(" ", 1)
            if parts[0] == f"property={pid}" and len(parts) == 2 and parts[1].startswith("key="):
                out[parts[1][4:].strip()] = text
    return out


def run_check(pid: str, repo: str = REPO, write: bool = not os.environ.get("CRMSA_NOWRITE"), tier: Optional[str] = None) -> int:
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        prog = Program(repo)
        ctx = Ctx(prog, tier, seed)
        expl = CHECKS[pid](ctx)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    known = load_known(pid)
    new = [f for f in ctx.findings.values() if f.key not in known]
    old = [f for f in ctx.findings.values() if f.key in known]
    cov: dict[str, Any] = {
        "explanation": expl,
        "rules": ctx.rules,
        "modules_parsed": len(prog.mods),
        "source_digest": prog.digest[:16],
        "functions_analysed": len(ctx.functions),
        "counts": ctx.counts,
        "samples": ctx.samples,
        "undecided": ctx.undecided,
        "truncated": ctx.truncated,
        "internal_errors": ctx.errors,
        "findings": [{"key": f.key, "loc": f.loc, "msg": f.msg} for f in ctx.findings.values()],
        "known_findings_present": [f.key for f in old],
    }
    if ctx.sites:
        cov["call_sites"] = len(ctx.sites)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    rep = os.path.join(VERIF, "evidence", f"{pid}.report.txt")
    if write:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    lines = []
    for f in new:
        lines.append(f"{f.loc}: [{f.rule}] {f.construct}: {f.msg}")
        if f.rule in ctx.rules:
            lines.append(f"    rule: {ctx.rules[f.rule]}")
        for t in f.trace[-25:]:
            lines.append(f"    path: {t}")
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.key}: {known[f.key] or f.msg}")
    print(f"{pid}: {len(ctx.functions)} functions, {ctx.counts}, undecided={len(ctx.undecided)} truncated={len(ctx.truncated)} "
          f"errors={len(ctx.errors)} {time.time() - t0:.1f}s")
    if os.environ.get("CRMSA_DEBUG"):
        for e in ctx.errors + ctx.truncated + ctx.undecided:
            print("   ?", e)
    if new:
        if write:
            with open(rep, "w", encoding="utf-8") as fh:
                fh.write("\n".join(lines) + "\n")
        print("\n".join([x for x in lines if not x.startswith("    path:")][:60]))
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if write and os.path.exists(rep):
        os.remove(rep)
    return 0


def main(argv: list) -> int:
    from . import checks  # noqa: F401  (registers)

    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    res: list = []

    def body() -> None:
        try:
            if argv and argv[0] == "selftest":
                prog = Program(REPO)
                print(f"{len(CHECKS)} checks registered, {len(prog.mods)} modules parsed")
                res.append(0 if prog.mods else 2)
            elif argv and argv[0] == "all":
                # One process per check: the value tables are interned per program.
                from concurrent.futures import ThreadPoolExecutor

                def one(pid: str) -> tuple:
                    p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), pid], capture_output=True,
                                       text=True, check=False)
                    return pid, p.returncode, p.stdout, p.stderr

                threading.stack_size(0)
                rc = 0
                with ThreadPoolExecutor(os.cpu_count() or 2) as ex:
                    for pid, r, out, err in ex.map(one, sorted(argv[1:] or CHECKS)):
                        print(out.strip() + (err.strip()[-1500:] if err else ""))
                        print(f"== {pid}: {r}")
                        rc = max(rc, r)
                res.append(rc)
            else:
                res.append(run_check(argv[0]))
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
            res.append(3)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    return res[0]
