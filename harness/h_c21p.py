"""C21 from Python: pymatching.cli and the installed console script run the same commands as the C++ entry point."""
import os
import sys

import numpy as np
import pymatching
import stim
from pymatching import Matching

from pyvh import count, evaluated, fail, nontrivial, note, run_cases, sample


def model(r):
    n = r.randint(1, 9)
    no = r.choice([1, 1, 2, 3, 8, 9, 20])
    lines = []
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or r.random() < 0.2:
                lines.append((r.uniform(0.01, 0.4), [f"D{i}", f"D{j}"]))
        if i in (0, n - 1) or r.random() < 0.2:
            lines.append((r.uniform(0.01, 0.4), [f"D{i}"]))
    text = ""
    for p, t in lines:
        obs = [f"L{k}" for k in range(no) if r.random() < 0.3]
        text += f"error({p:.5f}) {' '.join(t + obs)}\n"
    return text + f"detector D{n - 1}\nlogical_observable L{no - 1}\n", n, no


def pack(rows, fmt):
    if fmt == "01":
        return "".join("".join(str(int(b)) for b in row) + "\n" for row in rows).encode()
    return b"".join(np.packbits(np.array(row, dtype=np.uint8), bitorder="little").tobytes() for row in rows)


def opened(d):
    """Open descriptors of files in the scratch directory."""
    k = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            k += os.readlink("/proc/self/fd/" + f).startswith(d + os.sep)
        except OSError:
            pass
    return k


def cli(args):
    if hasattr(pymatching, "cli"):
        try:
            return pymatching.cli(command_line_args=args)
        except Exception as e:
            fail("raise", f"pymatching.cli({args}) raised {e!r}")
    fail("absent", "pymatching.cli does not exist")


def case(r, idx):
    d = os.path.realpath(os.environ.get("VH_SCRATCH", "."))
    text, n, no = model(r)
    shots = r.choice([1, 2, 5, 17, 60])
    dens = r.random()
    det = np.array([[r.random() < dens for _ in range(n)] for _ in range(shots)], dtype=np.uint8)
    m = Matching(stim.DetectorErrorModel(text))
    want = np.array([m.decode(row) for row in det], dtype=np.uint8)
    appended = r.random() < 0.5
    fin = r.choice(["01", "b8"])
    flip = np.array([[r.random() < 0.2 for _ in range(no)] for _ in range(shots)], dtype=np.uint8)
    obs = want ^ flip
    rows = np.hstack([det, obs]) if appended else det
    p = {k: os.path.join(d, f"c21p_{os.getpid()}_{k}") for k in ("dem", "in", "out", "obs")}
    with open(p["dem"], "w") as f:
        f.write(text)
    with open(p["in"], "wb") as f:
        f.write(pack(rows, fin))
    which = r.randrange(3)
    groups = [["--dem", p["dem"]], ["--in", p["in"]], ["--in_format", fin], ["--out", p["out"]]]
    if appended:
        groups.append(["--in_includes_appended_observables"])
    try:
        if which < 2:
            cmd = "predict"
            fout = r.choice(["01", "b8"])
            groups.append(["--out_format", fout])
            expect = pack(want, fout)
        else:
            cmd = "count_mistakes"
            if not appended:
                fo = r.choice(["01", "b8"])
                with open(p["obs"], "wb") as f:
                    f.write(pack(obs, fo))
                groups += [["--obs_in", p["obs"]], ["--obs_in_format", fo]]
            expect = f"{int(flip.any(axis=1).sum())} / {shots}\n".encode()
        r.shuffle(groups)
        args = [cmd] + [x for g in groups for x in g]
        before = opened(d)
        note((args, text, det.tolist()))
        if which == 1:
            # the console script: arguments are taken from sys.argv
            from pymatching._cli_argv import cli_argv
            old = sys.argv
            sys.argv = ["pymatching"] + args
            try:
                cli_argv()
            except SystemExit as e:
                if e.code not in (None, 0):
                    fail("script", f"console script exits with {e.code} on {args}\n{text}")
            finally:
                sys.argv = old
            count("console-script-runs")
        else:
            rc = cli(args)
            if rc != 0:
                fail("code", f"pymatching.cli({args}) returned {rc}\n{text}")
        got = b"(no file)"
        if os.path.exists(p["out"]):
            with open(p["out"], "rb") as f:
                got = f.read()
        after = opened(d)
        if after > before:
            fail("open", f"{args} left {after - before} of the files it opened open")
        evaluated(shots)
        if got != expect:
            fail("output", f"{args} wrote {got[:200]!r}, expected {expect[:200]!r} for shots {det.tolist()[:20]} of\n{text}")
        count(f"{cmd}-{fin}")
        if shots > 1:
            nontrivial("c21p", cmd, text, det.tobytes(), fin, appended)
        if idx % 97 == 0:
            sample(f"{cmd} on {shots} shots of {n} detectors: {expect[:40]!r}")
        if r.random() < 0.1:
            bad = r.choice([["predcit"] + args[1:], args + ["--no_such_option"], [], args])
            if bad is args:
                with open(p["dem"], "a") as f:
                    f.write("no_such_instruction D0\n")
            sys.stderr.flush()
            keep = os.dup(2)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            try:
                try:
                    rc = pymatching.cli(command_line_args=bad)
                except ValueError:
                    rc = 1
            finally:
                os.dup2(keep, 2)
                os.close(keep)
                os.close(null)
            if opened(d) > before:
                fail("open", f"the refused call {bad} left {opened(d) - before} of the files it opened open")
            if rc == 0:
                fail("refusal", f"pymatching.cli({bad}) reported success")
            count("refusals")
            evaluated()
    finally:
        for f in p.values():
            if os.path.exists(f):
                os.unlink(f)


run_cases("C21p", case)
