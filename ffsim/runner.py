"""
Runs the simulated executions of one property and decides.

  runner.py PROP                     the check (VERIF_SEED, VERIF_TIER)
  runner.py PROP --replay FILE       re-run a replay file
  runner.py PROP --digests FILE ...  write the event-log hash of every run
"""
import argparse
import ctypes
import hashlib
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import threading
import time
from collections import Counter

from ffsim import env

HANG = 90.0  # seconds of wall clock without the end of one run


class Proc:
    """A worker process with its output lines."""
    def __init__(self, envv, args, stdin=None):
        self.p = subprocess.Popen([env.PY, "-m", "ffsim.worker", *map(str, args)], env=envv,
                                  cwd=env.VERIF, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        self.q = queue.Queue()
        self.err = []
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._readerr, daemon=True).start()
        if stdin:
            self.p.stdin.write(stdin.encode())
            self.p.stdin.close()
        self.last = time.monotonic()
        self.current = None

    def _read(self):
        for line in self.p.stdout:
            try:
                self.q.put(json.loads(line))
            except ValueError:
                pass
        self.q.put(None)

    def _readerr(self):
        for line in self.p.stderr:
            self.err.append(line.decode(errors="replace"))
            del self.err[:-60]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


def sweep_scratch(pids):
    """Remove scratch folders of workers that were killed."""
    base = env.scratch_base()
    for name in os.listdir(base):
        if name.startswith("ffsim."):
            path = os.path.join(base, name)
            try:
                owner = int(open(os.path.join(path, ".pid")).read())
            except (OSError, ValueError):
                continue
            if owner in pids:
                shutil.rmtree(path, ignore_errors=True)


class Check:
    def __init__(self, prop, seed, tier, workers):
        self.prop, self.seed, self.tier, self.workers = prop, seed, tier, workers
        self.mod = importlib.import_module("ffsim.props." + prop.lower())
        self.shim = env.build_shim()
        self.src = env.build_source()
        self.pids = set()

    def env(self, hashseed="0"):
        return env.worker_env(self.src, self.shim, hashseed)

    def spawn(self, args, stdin=None, hashseed="0"):
        p = Proc(self.env(hashseed), args, stdin)
        self.pids.add(p.p.pid)
        return p

    # -- one plan in a fresh process ----------------------------------------------------
    def one(self, args, stdin=None, timeout=HANG * 2):
        """("v", violation, record) | ("ok", None, record) | ("crash"|"hang"|"harness", text, None)"""
        p = self.spawn(args, stdin)
        end = time.monotonic() + timeout
        rec = None
        best = None
        try:
            while True:
                try:
                    m = p.q.get(timeout=max(0.01, end - time.monotonic()))
                except queue.Empty:
                    if best:
                        return "v", best["v"], best
                    return "hang", f"no result within {timeout:.0f} s", None
                if m is None:
                    break
                if m["t"] == "harness":
                    return "harness", m["error"], None
                if m["t"] == "best":
                    best = m
                if m["t"] in ("one", "shrunk", "violation"):
                    rec = m
                elif m["t"] == "done" and rec is None:
                    rec = {"v": None}
        finally:
            p.kill()
        if rec is None:
            if best:
                return "v", best["v"], best
            return "crash", f"process ended with {p.p.returncode}: " + "".join(p.err)[:1500], None
        return ("v" if rec["v"] else "ok"), rec["v"], rec

    # -- the batch ------------------------------------------------------------------------
    def batch(self, count, deadline, hashseed="0", first=None):
        """`first`: the run at which each worker begins; on a violation it says where to go on behind it."""
        procs = []
        if first is None:
            first = list(range(self.workers))
        for k in range(self.workers):
            pr = self.spawn(["batch", self.prop, self.seed, self.tier, first[k], self.workers, count, deadline],
                            hashseed=hashseed)
            pr.index = k
            pr.first = first[k]
            procs.append(pr)
        agg = {"runs": 0, "events": 0, "sigs": set(), "samples": [], "probes": Counter(),
               "fired": Counter(), "calls": Counter(), "digests": {}}
        live = list(procs)
        bad = None
        harness = None
        while live and not bad and not harness:
            progressed = False
            for pr in list(live):
                while True:
                    try:
                        m = pr.q.get_nowait()
                    except queue.Empty:
                        break
                    progressed = True
                    pr.last = time.monotonic()
                    if m is None:
                        live.remove(pr)
                        if not getattr(pr, "finished", False):
                            pr.p.wait()
                            bad = ("crash", pr.current, None,
                                   {"class": "crash", "detail": f"the process died with status "
                                    f"{pr.p.returncode} " + "".join(pr.err)[:1500]}, pr.first)
                        break
                    if m["t"] == "start":
                        pr.current = m["i"]
                    elif m["t"] == "harness":
                        harness = m
                        pr.finished = True
                    elif m["t"] == "violation":
                        bad = ("violation", m["i"], m["plan"], m["v"], pr.first)
                    elif m["t"] == "done":
                        pr.finished = True
                        for k in ("runs", "events"):
                            agg[k] += m[k]
                        agg["sigs"].update(m["sigs"])
                        agg["samples"] += m["samples"]
                        agg["digests"].update(dict(m["digests"]))
                        for k in ("probes", "fired", "calls"):
                            agg[k].update(m[k])
                if pr in live and pr.current is not None and time.monotonic() - pr.last > HANG:
                    bad = ("hang", pr.current, None,
                           {"class": "hang", "detail": f"a run did not end within {HANG:.0f} s"}, pr.first)
            if not progressed:
                time.sleep(0.02)
        # let finished workers hand in their totals
        if bad:
            t = time.monotonic()
            for pr in live:
                while time.monotonic() - t < 0.3:
                    try:
                        m = pr.q.get(timeout=0.05)
                    except queue.Empty:
                        continue
                    if m is None or m["t"] == "done":
                        break
        for pr in procs:
            pr.kill()
            if pr.current is not None:
                first[pr.index] = count if getattr(pr, "finished", False) else pr.current
        if bad:
            first[bad[1] % self.workers] = bad[1] + self.workers
        return agg, bad, harness, first

    # -- from a suspected violation to a replay file -----------------------------------------
    def confirm(self, bad, history=True):
        """Returns the replay record, or None if nothing could be confirmed."""
        from ffsim import worker
        kind, i, plan, v, first = bad
        if plan is None:
            plan = worker.plan_of(self.mod, self.seed, self.tier, i)
        text = json.dumps(plan)
        base = {"property": self.prop, "seed": worker.seed_of(self.seed, self.prop, i)}
        st, v2, rec = self.one(["one", self.prop], text)
        if st in ("crash", "hang"):
            return dict(base, plan=plan, violation={"class": st, "detail": v2})
        if st == "v":
            out = dict(base, plan=plan, violation=v2, trace=rec.get("trace"))
            st, v3, rec = self.one(["shrink", self.prop, 40], text, timeout=150)
            if st == "v" and rec:
                st4, v4, rec4 = self.one(["one", self.prop], json.dumps(rec["plan"]))
                if st4 == "v":
                    out = dict(base, plan=rec["plan"], violation=v4, trace=rec4.get("trace"),
                               original_plan=plan, shrink_steps=rec.get("steps"))
            return out
        # needs what earlier runs left behind in the process
        hist = [self.seed, self.tier, first, self.workers, i + 1, 10000]
        if history:
            st, v2, rec = self.one(["history", self.prop, *hist], timeout=150)
            if st in ("v", "crash"):
                if not isinstance(v2, dict):
                    v2 = {"class": st, "detail": v2}
                return dict(base, history=hist, violation=v2)
        return None

    def replay(self, rec):
        if "history" in rec:
            st, v, r = self.one(["history", self.prop, *rec["history"]], timeout=600)
            return ("harness", v, r) if st == "hang" else (st, v, r)
        return self.one(["one", self.prop], json.dumps(rec["plan"]))


def write_replay(prop, rec):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(rec, indent=1, sort_keys=True)
    path = os.path.join(d, f"{prop}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def evidence(chk, agg, wall, violations, count, extra):
    mod = chk.mod
    secs = max(wall, 1e-9)
    fired = {k: v for k, v in sorted((agg["fired"] + Counter(
        {k[6:]: v for k, v in agg["probes"].items() if k.startswith("fault:")})).items())}
    ev = {
        "property": chk.prop, "tier": chk.tier, "seed": chk.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["sigs"]),
            "rule": mod.RULE,
            "samples": agg["samples"][:3],
            "simulated_runs": agg["runs"],
            "runs_planned": count,
            "runs_per_hour": round(agg["runs"] / secs * 3600),
            "seeds_per_hour": round(agg["runs"] / secs * 3600),
            "simulated_time_events": agg["events"],
            "simulated_time_note": "the package reads no clock; simulated time is the count of "
                                   "simulator events (system calls on simulated files and, where "
                                   "a run is traced, bytecodes of the package)",
            "system_calls": dict(sorted(agg["calls"].items())),
            "faults_fired": fired,
            "probes": {k: v for k, v in sorted(agg["probes"].items()) if not k.startswith("fault:")},
            "components_real": ["finalfusion (all Python and Cython code, from /repo)", "numpy", "toml",
                                "CPython io stack", "tmpfs for file contents"],
            "components_stubbed": mod.STUBS,
            "source": chk.src,
            **extra,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{chk.prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(tmp, os.path.join(d, f"{chk.prop}.json"))


def known_findings(prop):
    """Open findings (fixed ones suppress nothing)."""
    path = os.path.join(env.VERIF, "known_findings.txt")
    out = []
    try:
        for line in open(path):
            if line.startswith("open: "):
                p, rest = line[6:].split(" ", 1)
                if p == f"property={prop}":
                    cls, what = rest.strip().split(" :: ", 1)
                    out.append((cls, what))
    except OSError:
        pass
    return out


def fixed_addresses():
    """
    No address space randomisation in the processes started from here on: which addresses (and with them
    id()s) are used again is then part of the repeatable execution.
    """
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass


def main():
    fixed_addresses()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--hashseed", default="0")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    workers = a.workers or min(8, os.cpu_count() or 8)
    t0 = time.monotonic()
    chk = Check(a.prop, seed, tier, workers)
    if a.replay:
        rec = json.load(open(a.replay))
        st, v, _ = chk.replay(rec)
        sweep_scratch(chk.pids)
        if st == "ok":
            print(f"replay of {a.replay}: property={a.prop} held")
            return 0
        if st == "harness":
            sys.stderr.write(v)
            return 3
        if not isinstance(v, dict):
            v = {"class": st, "detail": v}
        print(f"{v['class']}: {v['detail']}")
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    count = a.runs or chk.mod.RUNS[tier]
    deadline = 240 if tier == "quick" else 1500
    print(f"ffsim {a.prop} seed={seed} tier={tier} workers={workers} runs={count} source={chk.src}",
          flush=True)
    code, violations = 0, 0
    first, rec, odd = None, None, []
    while True:
        left = deadline - (time.monotonic() - t0)
        agg, bad, harness, first = chk.batch(count, max(left, 5), a.hashseed, first)
        if harness or not bad:
            break
        rec = chk.confirm(bad, len(odd) < 2)
        if rec is not None:
            break
        # what earlier runs left in the process may be different each time (addresses, say); the search
        # goes on in new processes for a violation that repeats
        odd.append(bad)
        if len(odd) > 20 or time.monotonic() - t0 > deadline:
            break
    if harness:
        sys.stderr.write("harness error (no verdict):\n" + harness["error"] +
                         json.dumps(harness.get("plan"))[:2000] + "\n")
        code = 3
    elif rec or odd:
        if rec is None:
            for b in odd:
                sys.stderr.write(f"run {b[1]} reported {b[3]} but did not repeat\n")
            code = 3
        else:
            path = write_replay(a.prop, rec)
            v = rec["violation"]
            print(f"seed {rec['seed']}: {v['class']}: {v['detail']}")
            for line in (rec.get("trace") or [])[:40]:
                print("  " + line)
            print(f"VIOLATION property={a.prop} replay={path}")
            code, violations = 1, 1
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(agg["digests"]):
                f.write(f"{i} {agg['digests'][i]}\n")
    wall = time.monotonic() - t0
    evidence(chk, agg, wall, violations, count, {})
    if code == 0:
        for cls, what in known_findings(a.prop):
            st, v, _ = chk.one(["one", a.prop], json.dumps(chk.mod.known_plan(cls)))
            if st in ("v", "crash", "hang"):
                print(f"KNOWN-FINDING: property={a.prop} {cls}: {what}")
        print(f"held on {agg['runs']} runs, {agg['events']} events, {len(agg['sigs'])} distinct "
              f"behaviours, {sum(agg['fired'].values())} faults fired, {wall:.1f} s")
    sweep_scratch(chk.pids)
    return code


if __name__ == "__main__":
    sys.exit(main())
