"""Protocol between check.py and the monitors written in Python (the same as vh.h's run_cases)."""
import hashlib
import json
import mmap
import os
import random
import sys
import traceback


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class State:
    def __init__(self):
        self.cases = self.evaluations = 0
        self.counters = {}
        self.samples = []
        self.hashes = set()
        self.mm = None
        self.note_text = ""


S = State()
tier = "quick"
verbose = False


def fail(key, msg):
    raise Violation(key, msg)


def count(k, n=1):
    S.counters[k] = S.counters.get(k, 0) + n


def evaluated(n=1):
    S.evaluations += n


def sample(s):
    if len(S.samples) < 4:
        S.samples.append(str(s)[:600])


def nontrivial(*parts):
    S.hashes.add(int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "little"))


def note(s):
    S.note_text = str(s)[:8000]
    b = S.note_text.encode("utf8", "replace")[:8000] + b"\0"
    S.mm[16:16 + len(b)] = b
    if verbose:
        print("note:", s)


def run_cases(name, fn):
    global tier, verbose
    seed, begin, end, stride = (int(x) for x in sys.argv[1:5])
    status, out, tier = sys.argv[5:8]
    verbose = len(sys.argv) > 8
    with open(status, "wb") as f:
        f.write(b"\0" * 8192)
    fh = open(status, "r+b")
    S.mm = mmap.mmap(fh.fileno(), 8192)
    violation = None
    rc = 0
    done = 0
    for idx in range(begin, end, stride):
        S.mm[0:8] = idx.to_bytes(8, "little")
        S.mm[16:17] = b"\0"
        h = hashlib.blake2b(f"{name}/{seed}/{idx}".encode(), digest_size=16).digest()
        try:
            fn(random.Random(int.from_bytes(h, "little")), idx)
        except Violation as v:
            violation = {"case": idx, "key": v.key, "msg": v.msg[:4000], "note": S.note_text}
            print("violated:", v.msg)
            rc = 3
            break
        except Exception:
            traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])
            inside = any((os.sep + "pymatching" + os.sep) in fr.filename for fr in tb)
            if inside:
                # An exception nobody declared came out of the library on an input it must accept.
                violation = {"case": idx, "key": "exception", "note": S.note_text,
                             "msg": ("unexpected " + traceback.format_exc())[-3000:]}
                rc = 3
            else:
                rc = 2
            break
        S.cases += 1
        done += 1
        S.mm[8:16] = done.to_bytes(8, "little")
    res = {"cases": S.cases, "evaluations": S.evaluations, "counters": S.counters, "samples": S.samples}
    if violation:
        res["violation"] = violation
    with open(out, "w") as f:
        json.dump(res, f)
    with open(out + ".bin", "wb") as f:
        for h in S.hashes:
            f.write(h.to_bytes(8, "little"))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
