"""Bounded exhaustive exploration engine.

A property module supplies a finite, deterministic list of cases (`cases(tier)`) and executes one
case on the real code (`run(case, ctx)`), checking an invariant or a reference model on every
step. The engine enumerates all cases (never samples), spreads them over worker processes,
aggregates measured coverage, writes the evidence file, and turns each violation into a replayable
JSON artefact.
"""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# --------------------------------------------------------------------------------------
# Enumeration helpers.
# --------------------------------------------------------------------------------------


def deviations(dims, bound):
    """All assignments of `dims` (name -> [default, alternatives...]) with <= bound deviations.

    Ordered by number of deviations, so the first counterexample is the simplest.
    """
    names = list(dims)
    base = {n: dims[n][0] for n in names}
    for d in range(bound + 1):
        for subset in itertools.combinations(names, d):
            for alts in itertools.product(*[dims[n][1:] for n in subset]):
                c = dict(base)
                c.update(zip(subset, alts))
                yield c


def product(dims):
    names = list(dims)
    for vals in itertools.product(*[dims[n] for n in names]):
        yield dict(zip(names, vals))


def words(alphabet, lengths):
    for n in lengths:
        for w in itertools.product(alphabet, repeat=n):
            yield list(w)


# --------------------------------------------------------------------------------------
# Recording of one case.
# --------------------------------------------------------------------------------------


class Ctx:
    """Records what one case executed and found."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fail = []
        self.max_err = 0.0

    def step(self, n=1):
        """Counts `n` executed calls of the code under test."""
        self.transitions += n

    def state(self, *key):
        """Registers a canonical state; returns True when it is new."""
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        new = h not in self.states
        self.states.add(h)
        return new

    def outcome(self, *key):
        self.outcomes.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def true(self, cond, msg):
        self.traces += 1
        if not bool(cond):
            self.fail.append(str(msg))
        return bool(cond)

    def close(self, got, want, tol, msg, scale=None):
        """|got - want| <= tol * scale, elementwise-max norm; scale defaults to max(1, |want|)."""
        import numpy as np

        self.traces += 1
        try:
            got = np.asarray(got)
            want = np.asarray(want)
        except Exception as e:  # pragma: no cover
            self.fail.append(f"{msg}: not arrays ({e})")
            return False
        if got.shape != want.shape:
            self.fail.append(f"{msg}: shape {got.shape} instead of {want.shape}")
            return False
        if got.size == 0:
            return True
        if scale is None:
            m = np.max(np.abs(want))
            scale = max(1.0, float(m)) if np.isfinite(m) else 1.0
        err = float(np.max(np.abs(got - want))) / scale
        if not err <= tol:
            self.fail.append(f"{msg}: relative error {err:.3g} > {tol:.1g}")
            return False
        self.max_err = max(self.max_err, err / tol)
        return True

    def equal(self, got, want, msg):
        """Bit-wise equality (nan equal to nan)."""
        import numpy as np

        self.traces += 1
        got = np.asarray(got)
        want = np.asarray(want)
        ok = (
            got.shape == want.shape
            and got.dtype == want.dtype
            and got.tobytes() == want.tobytes()
        )
        if not ok:
            self.fail.append(
                f"{msg}: not identical (shapes {got.shape} {want.shape}, dtypes {got.dtype} {want.dtype})"
            )
        return ok

    def raises(self, fn, msg, exc=None):
        """`fn()` must raise (any exception, or one of `exc`)."""
        self.traces += 1
        self.step()
        try:
            r = fn()
        except Exception as e:
            if exc is not None and not isinstance(e, exc):
                self.fail.append(f"{msg}: raised {type(e).__name__} instead of {exc}: {e}")
                return False
            return True
        self.fail.append(f"{msg}: accepted (returned {type(r).__name__}) instead of being rejected")
        return False


_MODS = {}


def _load(pid):
    if pid not in _MODS:
        _MODS[pid] = importlib.import_module(f"mc.props.{pid.lower()}")
    return _MODS[pid]


def run_case(pid, case):
    mod = _load(pid)
    ctx = Ctx()
    t = time.time()
    try:
        mod.run(case, ctx)
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        ctx.fail.append(f"exception on a valid input: {type(e).__name__}: {e}\n{tb}")
    return dict(
        states=ctx.states,
        transitions=ctx.transitions,
        traces=ctx.traces,
        outcomes=ctx.outcomes,
        fail=ctx.fail,
        max_err=ctx.max_err,
        t=time.time() - t,
    )


def _run_chunk(pid, chunk, deadline, known=()):
    """Worker entry: runs the cases of one chunk; returns [(index, result or None if skipped)]."""
    out = []
    for idx, case in chunk:
        if time.time() > deadline:
            out.append((idx, None))
            continue
        r = run_case(pid, case)
        out.append((idx, r))
        if r["fail"] and case_id(case) not in known:
            # The exploration stops at the first violation of the chunk.
            break
    return out


def _init_worker():
    from mc import env

    env.load()


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                _, rest = line.split("case=", 1)
                cid, what = rest.split(" ", 1)
                out[cid] = what
    return out


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    ap.add_argument("--profile", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    from mc import env

    env.load()
    mod = _load(pid)

    if a.replay:
        art = json.load(open(a.replay))
        r = run_case(pid, art["case"])
        print(json.dumps(art["case"]))
        for f in r["fail"]:
            print("FAIL", f)
        print("reproduced" if r["fail"] else "not reproduced")
        return 1 if r["fail"] else 0

    cases = list(mod.cases(tier))
    keys = [case_id(c) for c in cases]
    if len(set(keys)) != len(keys):
        seen = {}
        cases = [seen.setdefault(k, c) for k, c in zip(keys, cases) if k not in seen]
        keys = [case_id(c) for c in cases]
    if a.list:
        for k, c in zip(keys, cases):
            print(k, json.dumps(c))
        return 0

    group = getattr(mod, "group", lambda c: "")
    max_chunk = getattr(mod, "MAX_CHUNK", 40)
    groups = collections.OrderedDict()
    for i, c in enumerate(cases):
        groups.setdefault(str(group(c)), []).append((i, c))
    chunks = []
    for g, items in groups.items():
        n = max(1, -(-len(items) // max_chunk))
        size = -(-len(items) // n)
        for j in range(0, len(items), size):
            chunks.append(items[j : j + size])
    weight = getattr(mod, "weight", lambda c: 1.0)
    chunks.sort(key=lambda ch: -sum(weight(c) for _, c in ch))
    if seed != 1:  # The seed permutes the order of exploration, nothing else.
        import random

        random.Random(seed).shuffle(chunks)

    jobs = a.jobs or min(getattr(mod, "JOBS", 7), max(1, (os.cpu_count() or 4) - 1), len(chunks))
    limit = 780.0 if tier == "quick" else float(os.environ.get("VERIF_LIMIT", "20000"))
    deadline = t0 + limit
    known = known_findings(pid)
    results = {}
    stop = False
    pending_chunks = list(chunks)
    for attempt in range(3):
        if not pending_chunks or stop:
            break
        todo, pending_chunks = pending_chunks, []
        n = jobs if attempt == 0 else max(1, jobs // (2 * attempt))
        ctxm = mp.get_context("spawn")
        ex = cf.ProcessPoolExecutor(n, mp_context=ctxm, initializer=_init_worker)
        futs = {ex.submit(_run_chunk, pid, ch, deadline, tuple(known)): ch for ch in todo}
        done_chunks = []
        try:
            for f in cf.as_completed(futs):
                for idx, r in f.result():
                    results[idx] = r
                    if r is not None and r["fail"] and keys[idx] not in known:
                        stop = True
                done_chunks.append(id(futs[f]))
                if stop:
                    break
        except cf.process.BrokenProcessPool:
            pending_chunks = [ch for f, ch in futs.items() if id(ch) not in done_chunks]
            print(f"note: a worker died; retrying {len(pending_chunks)} chunks", flush=True)
        finally:
            procs = list((ex._processes or {}).values()) if stop else []
            for p in procs:
                p.terminate()
            ex.shutdown(wait=not stop, cancel_futures=True)
    if pending_chunks and not stop:
        print("error: workers keep dying", file=sys.stderr)
        return 2

    violations, known_hit = [], []
    for idx in sorted(results):
        r = results[idx]
        if r is not None and r["fail"]:
            if keys[idx] in known:
                known_hit.append(idx)
            else:
                violations.append(idx)

    done = [i for i, r in results.items() if r is not None]
    states = set().union(*[results[i]["states"] for i in done]) if done else set()
    outcomes = set().union(*[results[i]["outcomes"] for i in done]) if done else set()
    skipped = len(cases) - len(done)
    cov = dict(
        states=len(states) if states else len(done),
        transitions=sum(results[i]["transitions"] for i in done),
        traces_validated_against_impl=sum(results[i]["traces"] for i in done),
        cases=len(done),
        distinct_outcomes=len(outcomes),
        exhaustive=(skipped == 0 and not violations),
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
        worst_error_over_tolerance=max([results[i]["max_err"] for i in done] or [0.0]),
        samples=[cases[i] for i in sorted(done)[:: max(1, len(done) // 5)]][:6],
    )
    if skipped:
        cov["not_explored_cases"] = skipped
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=cov,
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if a.profile:
        slow = sorted(done, key=lambda i: -results[i]["t"])[:15]
        for i in slow:
            print(f"{results[i]['t']:7.2f}s", json.dumps(cases[i]))
        print("cpu total", round(sum(results[i]["t"] for i in done), 1))
    print(
        f"{pid} tier={tier} cases={len(done)}/{len(cases)} states={cov['states']} transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} outcomes={len(outcomes)} "
        f"worst_err/tol={cov['worst_error_over_tolerance']:.2g} wall={ev['wall_s']}s"
    )
    for i in known_hit:
        print(f"KNOWN-FINDING: property={pid} {known[keys[i]]}")
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for i in violations[:5]:
            path = os.path.join(rdir, f"{pid}_{keys[i]}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=pid,
                        case=cases[i],
                        case_id=keys[i],
                        failures=results[i]["fail"][:20],
                        replay_cmd=f"/verif/check {pid} --replay {path}",
                    ),
                    f,
                    indent=1,
                )
            print("case", json.dumps(cases[i]))
            for m in results[i]["fail"][:4]:
                print("   ", m[:1500])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
