#!/usr/bin/env python3
"""Runs the runtime monitor(s) that decide one property against /repo's current working tree.

usage: check.py PROPERTY [quick|thorough]
       check.py PROPERTY --replay FILE

exit 0: the property held on everything observed
exit 1: a violation was observed (a line "VIOLATION property=<id> replay=<path>" is printed)
exit 2: no verdict (the harness could not be built, or observed too little)
"""
import array
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import builder  # noqa: E402
from specs import SPECS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = max(1, min(8, os.cpu_count() or 1))
HZ = os.sysconf("SC_CLK_TCK")

ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
}


def cpu_seconds(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / HZ
    except (OSError, IndexError, ValueError):
        return 0.0


class Worker:
    def __init__(self, run, argv_prefix, seed, begin, end, stride, tier, workdir, tag, env, verbose=False):
        self.run = run
        self.begin, self.end, self.stride = begin, end, stride
        self.status = os.path.join(workdir, f"{tag}.status")
        self.out = os.path.join(workdir, f"{tag}.out")
        self.log = os.path.join(workdir, f"{tag}.log")
        argv = argv_prefix + [str(seed), str(begin), str(end), str(stride), self.status, self.out, tier]
        if verbose:
            argv.append("verbose")
        self.logf = open(self.log, "wb")
        scratch = os.path.join(workdir, f"{tag}.cwd")
        os.makedirs(scratch, exist_ok=True)
        e = dict(os.environ)
        e.update(ENV_SAN)
        e.update(env)
        e["VH_SCRATCH"] = scratch
        self.p = subprocess.Popen(argv, stdout=self.logf, stderr=subprocess.STDOUT, env=e, cwd=scratch,
                                  stdin=subprocess.DEVNULL, start_new_session=True)
        self.last_idx = None
        self.cpu_at_idx = 0.0
        self.hung = False
        self.timed_out = False
        self.stopped = False
        self.wall_at_idx = time.time()

    def read_status(self):
        try:
            with open(self.status, "rb") as f:
                b = f.read(8192)
            idx = int.from_bytes(b[:8], "little")
            done = int.from_bytes(b[8:16], "little")
            note = b[16:].split(b"\0", 1)[0].decode("utf8", "replace")
            return idx, done, note
        except OSError:
            return None, 0, ""

    def poll(self, cpu_limit):
        rc = self.p.poll()
        if rc is not None:
            self.logf.close()
            return rc
        idx, done, _ = self.read_status()
        cpu = cpu_seconds(self.p.pid)
        key = (idx, done)
        if key != self.last_idx:
            self.last_idx = key
            self.cpu_at_idx = cpu
            self.wall_at_idx = time.time()
        elif cpu - self.cpu_at_idx > cpu_limit or (time.time() - self.wall_at_idx > 180 and cpu - self.cpu_at_idx < 1):
            self.hung = True
            self.kill()
            return self.p.returncode
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()
        self.logf.close()


def run_workers(workers, cpu_limit, deadline):
    live = list(workers)
    stop = False
    while live:
        for w in list(live):
            rc = w.poll(cpu_limit)
            if rc is not None:
                live.remove(w)
                if rc != 0:
                    stop = True
        if stop:
            # A violation was seen: let nothing else run for long.
            t_end = time.time() + 3
            while live and time.time() < t_end:
                for w in list(live):
                    if w.poll(cpu_limit) is not None:
                        live.remove(w)
                time.sleep(0.05)
            for w in live:
                w.stopped = True
                w.kill()
            return
        if time.time() > deadline:
            for w in live:
                w.timed_out = True
                w.kill()
            return
        time.sleep(0.05)


def sanitizer_summary(log):
    try:
        with open(log, "rb") as f:
            text = f.read(400000).decode("utf8", "replace")
    except OSError:
        return "", ""
    m = re.search(r"(ERROR: (?:Address|Leak)Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                  r"[^\n]*Assertion[^\n]*|[^\n]*hard rss limit[^\n]*|[^\n]*terminate called[^\n]*|==\d+== (?:Invalid|Conditional|Use of uninit|Mismatched|Syscall)[^\n]*)", text)
    return (m.group(1).strip() if m else ""), text[-6000:]


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_match(prop, v):
    for k in load_known():
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if k["key"] == v["key"] and re.search(k["match"], v["msg"]):
            return k
    return None


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in SPECS:
        print("usage: check.py PROPERTY [quick|thorough|--replay FILE]; properties: " + " ".join(sorted(SPECS)))
        return 2
    prop = sys.argv[1]
    replay = None
    tier = "quick"
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            with open(sys.argv[3]) as f:
                replay = json.load(f)
            tier = replay["tier"]
        else:
            tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        seed = replay["seed"]
    spec = SPECS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=f"vh_{prop}_")
    try:
        return run_spec(prop, spec, tier, seed, replay, t0, outdir, workdir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def run_spec(prop, spec, tier, seed, replay, t0, outdir, workdir):
    runs = spec["runs"]
    b = builder.Builder(REPO, HERE)
    prefixes = []
    try:
        keep = []
        for r in runs:
            try:
                prefixes.append(b.build_run(r))
                keep.append(r)
            except builder.BuildError as e:
                if not r.get("optional") or replay:
                    raise
                print(f"note: the additional run {r['name']} could not be built and is left out: {str(e)[-300:]}")
        runs = keep
    except builder.BuildError as e:
        print(f"NO-VERDICT property={prop}: harness could not be built against the current tree\n{e}")
        return 2
    t_build = time.time() - t0

    budget = spec.get("budget_s", {}).get(tier, 500 if tier == "quick" else 6000)
    deadline = time.time() + budget
    cpu_limit = spec.get("cpu_limit_s", 30)

    if replay:
        r = [x for x in runs if x["name"] == replay["run"]][0]
        pref, env = prefixes[runs.index(r)]
        w = Worker(r, pref, seed, replay["case"], replay["case"] + 1, 1, tier, workdir, "replay", env, True)
        run_workers([w], cpu_limit * 2, deadline)
        with open(w.log, "rb") as f:
            sys.stdout.write(f.read().decode("utf8", "replace"))
        print("exit code", w.p.returncode, "hung" if w.hung else "")
        return 1 if (w.hung or w.p.returncode != 0) else 0

    evaluations = 0
    counters = {}
    samples = []
    distinct = set()
    violations = []
    known_seen = []
    cases_done = 0
    cases_planned = 0
    inconclusive = []

    for ri, r in enumerate(runs):
        pref, env = prefixes[ri]
        n = r["cases"][tier]
        nw = min(r.get("workers", NPROC), max(1, n))
        cases_planned += n
        pending = [(k, n, nw) for k in range(nw)]
        gen = 0
        while pending and not violations:
            workers = [Worker(r, pref, seed, bg, en, sd, tier, workdir, f"{r['name']}_{gen}_{i}", env)
                       for i, (bg, en, sd) in enumerate(pending)]
            gen += 1
            pending = []
            run_workers(workers, cpu_limit, deadline)
            # Workers that ended by themselves first: a confirmed violation makes the rest unnecessary.
            for w in sorted(workers, key=lambda w: (w.stopped or w.timed_out, w.hung)):
                if violations:
                    break
                idx, done, note = w.read_status()
                res = None
                try:
                    with open(w.out) as f:
                        res = json.load(f)
                except (OSError, ValueError):
                    pass
                if res:
                    cases_done += res["cases"]
                    evaluations += res["evaluations"]
                    for k, v in res["counters"].items():
                        counters[f"{r['name']}.{k}"] = counters.get(f"{r['name']}.{k}", 0) + v
                    if len(samples) < 6:
                        samples += res["samples"]
                    try:
                        a = array.array("Q")
                        with open(w.out + ".bin", "rb") as f:
                            a.frombytes(f.read())
                        distinct.update(a)
                    except (OSError, ValueError):
                        pass
                else:
                    cases_done += done
                rc = w.p.returncode
                v = None
                if w.stopped:
                    cases_done -= done  # run again
                    pending.append((w.begin, w.end, w.stride))
                    continue
                if w.timed_out and not w.hung:
                    inconclusive.append("wall-clock budget reached")
                    continue
                if w.hung:
                    # Re-run that one case alone before calling it a hang.
                    w2 = Worker(r, pref, seed, idx, idx + 1, 1, tier, workdir, f"{r['name']}_h{idx}", env)
                    run_workers([w2], cpu_limit, time.time() + 900)
                    if w2.hung:
                        v = {"key": "hang", "case": idx, "note": note,
                             "msg": f"no progress within {cpu_limit} s of CPU time (twice), normal cases take well under a second"}
                    else:
                        inconclusive.append(f"case {idx} was slow once")
                        pending.append((idx + w.stride, w.end, w.stride))
                elif rc == 3 and res and "violation" in res:
                    v = res["violation"]
                elif rc == 2:
                    print(f"NO-VERDICT property={prop}: harness error\n{sanitizer_summary(w.log)[1]}")
                    return 2
                elif rc != 0:
                    head, tail = sanitizer_summary(w.log)
                    confirmed = bool(head) and "hard rss" not in head
                    if not confirmed:
                        w2 = Worker(r, pref, seed, idx, idx + 1, 1, tier, workdir, f"{r['name']}_c{idx}", env)
                        run_workers([w2], cpu_limit, time.time() + 900)
                        confirmed = w2.hung or w2.p.returncode not in (0, 2)
                        if confirmed and not head:
                            head = sanitizer_summary(w2.log)[0]
                    if confirmed:
                        v = {"key": "crash", "case": idx, "note": note, "log": tail,
                             "msg": f"process died (status {rc}): {head}"}
                    else:
                        inconclusive.append(f"worker ended with status {rc} at case {idx}, not reproducible")
                        pending.append((idx + w.stride, w.end, w.stride))
                if v:
                    k = known_match(prop, v)
                    if k:
                        if k["id"] not in [x["id"] for x in known_seen]:
                            known_seen.append(k)
                        pending.append((v["case"] + w.stride, w.end, w.stride))
                    else:
                        v["run"] = r["name"]
                        violations.append(v)
            pending = [p for p in pending if p[0] < p[1]]
            if time.time() > deadline:
                break
        if violations:
            break

    wall = time.time() - t0
    for k in known_seen:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    rc = 0
    if violations:
        v = violations[0]
        path = os.path.join(outdir, f"replay_{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1)
        print(f"violated: {v['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif evaluations < spec.get("min_evaluations", 1) or cases_done < 0.3 * cases_planned:
        print(f"NO-VERDICT property={prop}: observed too little ({cases_done}/{cases_planned} cases, "
              f"{evaluations} evaluations) {inconclusive[:3]}")
        rc = 2
    else:
        for need in spec.get("must_observe", []):
            if not counters.get(need):
                print(f"NO-VERDICT property={prop}: the monitor never observed {need}")
                rc = 2

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"],
            "samples": samples[:6] or ["none"],
            "counters": counters,
            "cases": cases_done,
            "cases_planned": cases_planned,
            "build_s": round(t_build, 1),
            "inconclusive": inconclusive[:10],
        },
        "assumptions": spec.get("assumptions", []),
        "violations": [{"key": v["key"], "msg": v["msg"][:800]} for v in violations],
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f"OK property={prop} tier={tier} seed={seed} cases={cases_done} evaluations={evaluations} "
              f"distinct={len(distinct)} wall={wall:.1f}s (build {t_build:.1f}s)"
              + (f" inconclusive={len(inconclusive)}" if inconclusive else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main())
