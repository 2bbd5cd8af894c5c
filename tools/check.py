#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property.

exit 0: the property held on everything explored
exit 1: VIOLATION, with a replay
exit 2: no answer (the harness does not build, the specification failed)
"""
import argparse
import concurrent.futures as cf
import json
import os
import random
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import vlib
from vlib import Inconclusive, log, VERIF

REPLAYS = os.path.join(VERIF, "replays")

# name: models (name, depth quick, depth thorough), number of replayed
# transitions and of random scripts for both tiers
TERM = {
    "C04": dict(mc=[("C04", 3, 4)], n=(2500, 40000), rnd=(500, 12000)),
    "C05": dict(mc=[("C05", 1, 2)], n=(4000, 60000), rnd=(350, 10000)),
    "C06": dict(mc=[("C06", 1, 2)], n=(3500, 60000), rnd=(350, 10000)),
    "C07": dict(mc=[("C07", 4, 6)], n=(2500, 40000), rnd=(500, 12000)),
    "C08": dict(mc=[("C08", 1, 2), ("C08v", 1, 2)], n=(1500, 20000),
                rnd=(350, 10000)),
    "C09": dict(mc=[("C09", 4, 6)], n=(3500, 50000), rnd=(400, 12000)),
    "C10": dict(mc=[("C10", 2, 3)], n=(3000, 50000), rnd=(600, 15000)),
    "C11": dict(mc=[("C11", 4, 5)], n=(2500, 50000), rnd=(600, 15000)),
    "C12": dict(mc=[("C12", 4, 5)], n=(2500, 50000), rnd=(700, 15000)),
    "C02": dict(mc=[("C02", 2, 4)], n=(4000, 60000), rnd=(700, 15000),
                probe=["in 41", "in 07"]),
    "C03": dict(mc=[("C03", 2, 3)], n=(4500, 70000), rnd=(700, 15000),
                probe=["in 41"]),
    "C14": dict(mc=[("C14", 2, 3)], n=(3500, 50000), rnd=(500, 12000),
                probe=["in 78", "in 1b5b4b"]),
    "C15": dict(mc=[("C15", 3, 4)], n=(3000, 50000), rnd=(600, 15000),
                probe=["in 71", "in c3a9", "in 1b5b39393b393948", "in 0a",
                       "in 1b38"]),
    "C16": dict(mc=[("C16", 3, 5)], n=(3500, 50000), rnd=(500, 15000),
                probe=["in 71", "in c3a9", "in 71"]),
    "C17": dict(mc=[("C17", 3, 5)], n=(3500, 50000), rnd=(600, 15000),
                probe=["in 1b5b366e"]),
    "C18": dict(mc=[("C18", 1, 1)], n=(4000, 30000), rnd=(700, 20000),
                probe=["in 05", "key 97 97 0 97"]),
    "C19": dict(mc=[("C19", 4, 6)], n=(3500, 50000), rnd=(600, 15000),
                probe=["mouse 1 1 9 9 0 1 0"]),
    "C20": dict(mc=[("C20", 3, 4)], n=(3500, 50000), rnd=(500, 12000),
                probe=["in 1b5c", "in 41"]),
    "C27": dict(mc=[("C27", 3, 4)], n=(2500, 40000), rnd=(600, 12000),
                flags="f"),
}

# ------------------------------------------------------------ classification

API = {}
for tags, hist, names in [
        ("C10", "C10", "resize"), ("C05 C06", "C04 C05 C06", "margins"),
        ("C07", "C07", "maxsb clearsb sbup sbdown sbpgup sbpgdown sbreset"),
        ("C14", "C14", "defattr pal cpal"), ("C15", "C15",
                                             "reset vreset vhard"),
        ("C04", "", "write"), ("C04 C06", "", "newline"),
        ("C06", "", "scrollup scrolldown inslines dellines inschars "
         "delchars"),
        ("C05", "", "moveto moveleft moveright lineend linehome"),
        ("C05 C06", "", "moveup movedown"),
        ("C09", "C09", "settab rsttab rstall"), ("C09", "", "tabr tabl"),
        ("C08", "", "erasecur erasechars ecte ehtc eline estc ects escr"),
        ("C12", "C12", "selstart seltarget selreset selcopy"),
        ("C18", "C18", "key bs"), ("C19", "C19", "mouse setmcb"),
        ("C20", "C20", "setosc")]:
    for n in names.split():
        API[n] = (frozenset(tags.split()), frozenset(hist.split()))

FLAG = {1: "C04", 2: "C04", 4: "C05", 8: "C14", 16: "C14", 32: "C07",
        64: "C11"}
FINAL = {}
for t, fs in [("C05", "ABCDEFGHadef`"), ("C08", "JKX"), ("C06", "@PLMST"),
              ("C09", "ZI"), ("C17", "cn"), ("C15 C16", "p")]:
    for f in fs:
        FINAL[f] = t
MODE = {"4": "C04", "?7": "C04", "20": "C04 C18", "?6": "C05", "?5": "C14",
        "?25": "C14", "?47": "C11", "?1047": "C11", "?1048": "C11 C15",
        "?1049": "C11 C15", "?1": "C18", "12": "C17", "?9": "C19",
        "?1002": "C19", "?1003": "C19", "?1006": "C19", "?1016": "C19"}


def classify(line):
    """(tags, hist) of an operation"""
    f = line.split()
    if f[0] in ("setflags", "resetflags"):
        t = frozenset(v for k, v in FLAG.items() if int(f[1]) & k)
        return t, t
    if f[0] != "in":
        return API.get(f[0], (frozenset(), frozenset()))
    b = bytes.fromhex(f[1] if len(f) > 1 else "")
    t, h = set(), set()
    s = b.decode("latin-1").replace("\xc2\x9b", "\x1b[").replace("\x9b",
                                                                 "\x1b[")
    for m in re.finditer(r"\x1b\[([<=>?]*)([\d;:]*)([ -/]*)([@-~])", s):
        pre, ps, inter, fin = m.groups()
        if fin in "hl":
            for p in ps.split(";"):
                x = MODE.get(("?" if "?" in pre else "") + p, "")
                t |= set(x.split())
                h |= set(x.split())
        elif fin == "r":
            t |= {"C05", "C06"}
            h |= {"C04", "C05", "C06"}
        elif fin == "m":
            t |= {"C14"}
            h |= {"C14"}
        elif fin == "g":
            t |= {"C09"}
            h |= {"C09"}
        else:
            t |= set(FINAL.get(fin, "C03").split())
            if fin == "p":
                h |= {"C15", "C16"}
    for m in re.finditer(r"\x1b([ -/]*)([0-Z\\^-~])", s):
        inter, fin = m.groups()
        if inter and inter[0] in "()*+":
            t |= {"C16"}
            h |= {"C16"}
        elif not inter:
            x = ("C05 C06" if fin in "DEM" else "C09" if fin == "H" else
                 "C15" if fin in "78c" else "C16" if fin in "NOno|}~" else
                 "C17" if fin == "Z" else "C18" if fin in "=>" else "C03")
            t |= set(x.split())
            if fin not in "DEMZ":
                h |= set(x.split())
    rest = re.sub(r"\x1b\[[<=>?]*[\d;:]*[ -/]*[@-~]|\x1b[ -/]*[0-Z\\^-~]", "",
                  s)
    for c in rest:
        if c == "\t":
            t |= {"C09"}
        elif c in "\n\v\f":
            t |= {"C05", "C06", "C04"}
        elif c in "\r\b":
            t |= {"C05"}
        elif c in "\x0e\x0f":
            t |= {"C16"}
            h |= {"C16"}
        elif c >= " ":
            t |= {"C04"}
    return frozenset(t), frozenset(h)


# operations that only show another part of the content
def reveals(line):
    f = line.split()
    if f[0] in ("setflags", "resetflags"):
        return int(f[1]) & (64 + 8 + 16) != 0
    if f[0] == "in":
        return bool(re.search("3f(31303)?(34[79]|3437|3438)", f[1])) \
            if len(f) > 1 else False
    return f[0] in ("sbup", "sbdown", "sbpgup", "sbpgdown", "sbreset",
                    "resize", "selcopy")


FIELD = {"sb": {"C07"}, "copy": {"C12"}, "mouse": {"C19"}}


def stream(ops):
    """the bytes of all inputs"""
    return b"".join(bytes.fromhex(o[0].split()[1]) for o in ops
                    if o[0].startswith("in ") and len(o[0].split()) > 1)


def plain(b):
    """only text, well-formed control sequences without anything unusual and
    controls outside of them"""
    s = b.decode("latin-1")
    s = re.sub("\x1b\\[[?>]?[0-9;]{0,20}[@-LPSTXZ`acdefghilmnr]|"
               "\x1b[!(-+][0-9A-Za-z<>=~]|\x1b[6-9=>DEHMNOZclmno|}~]", "", s)
    return not re.search("[\x1b\x18\x1a]|\xc2[\x80-\x9f]", s)


def aspects(fail):
    """what differs in the cells of the first row that differs"""
    d = fail.get("detail")
    if not isinstance(d, dict):
        return set()
    r = set()
    for a, c in zip(d.get("rowspec", []), d.get("rowreal", [])):
        if a == c or not a:
            continue
        r |= {n for n, x, y in zip(("ch", "width", "attr", "len"), a, c)
              if x != y}
    return r


def drawing(fail):
    """is the first row that differs only drawn differently?"""
    d = fail["detail"]
    ps = [(a, c) for a, c in zip(d.get("rowspec", []), d.get("rowreal", []))
          if a != c and a]
    for a, c in ps:
        if a[1] != c[1] or {a[0], c[0]} - {0, 32} and a[0] != c[0] or \
           a[2][:11] + a[2][12:] != c[2][:11] + c[2][12:]:
            return False
    return bool(ps)


def attributed(P, ops, fail):
    """ops: minimal script, the last operation differs"""
    last = ops[-1]
    diffs = set(fail.get("diffs", []))
    asp = aspects(fail)
    b = stream(ops)
    if last[0].startswith("in "):
        lb = stream([last])
        if P == "C02" and max(lb + b"\0") > 127 and (
                "ch" in asp or diffs & {"cursor", "events"}):
            return "field"
        if P == "C16" and asp and asp <= {"ch", "width", "len"}:
            return "field"
        if P == "C14" and asp == {"attr"}:
            return "field"
    if P == "C14" and asp == {"attr"} and any("C14" in o[1] for o in ops):
        return "field"
    if P == "C27" and ("view" in diffs and drawing(fail) or
                       diffs <= {"ids", "draw"}):
        return "field"
    # only the view is moved, and what is shown is nowhere
    if P == "C27" and diffs == {"view"} and last[0].startswith("sb") and \
       not fail["detail"].get("some", True):
        return "field"
    if P == "C03" and not plain(b):
        return "sequence"
    if P in last[1]:
        return "operation"
    for d in diffs:
        if P in FIELD.get(d, ()):
            return "field"
    if "events" in diffs:
        d = fail["detail"]
        kinds = {e[0] for e in d["espec"]} | {e[0] for e in d["ereal"]}
        if P == "C17" and "w" in kinds and last[0].split()[0] == "in":
            return "field"
        if P == "C20" and "o" in kinds or P == "C19" and "m" in kinds:
            return "field"
    if any(P in o[2] for o in ops):
        return "history"
    # the operation that crashes is not known
    if "crash" in diffs and (
            any(P in o[1] for o in ops) or
            P == "C02" and max(b + b"\0") > 127 or
            P == "C07" and any(o[0].startswith("maxsb ") for o in ops) or
            P == "C17" and b"\5" in b or
            P == "C20" and re.search(b"\x1b\\]|\x9d", b)):
        return "history"
    if reveals(last[0]) and any(P in o[1] for o in ops):
        return "history"
    return None


def parse_paths(out):
    paths, alpha, starts = [], None, None
    for ln in out.split("\n"):
        if ln.startswith('"PATH '):
            paths.append(json.loads(json.loads(ln)[5:]))
        elif ln.startswith('"ALPHABET '):
            alpha = json.loads(json.loads(ln)[9:])
        elif ln.startswith('"STARTS '):
            starts = json.loads(json.loads(ln)[7:])
    return alpha, starts, sorted(paths)


# ------------------------------------------------------------------- running

class Runner:
    def __init__(self, P, tier, seed):
        self.P = P
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.binary = None
        self.module = "Trace"
        self.flags = ""
        self.parts = False
        self.own = None
        self.carry = None

    def idx(self):
        return 0 if self.tier == "quick" else 1

    def rng(self, *a):
        return random.Random("%s-%s-%s" % (self.P, self.seed, a))

    # ---- other models
    def small(self, module, consts, props, expect=None, timeout=None,
              what=None, extra="", spec="Spec"):
        """check a model; with expect, that invariant has to fail"""
        cfg = os.path.join(vlib.tmp(), "small-%d" % time.time_ns())
        with open(cfg + ".cfg", "w") as f:
            f.write("CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in
                                            consts.items()))
            f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
            f.write("".join("%s\n" % p for p in props) + extra)
        rc, out, st = vlib.tlc(module, cfg=cfg, timeout=timeout or
                               (200 if self.tier == "quick" else 3000))
        if expect:
            if rc == 0 or expect not in out:
                raise Inconclusive("model %s %s: %s is not violated" %
                                   (module, consts, expect))
            self.cov.setdefault("broken_models_rejected", []).append(
                "%s: %s" % (module, what or consts))
            return out
        if rc != 0:
            i = out.find("Error:")
            raise Inconclusive("model %s: %s: %s" % (module, rc,
                                                     out[i:i + 6000]))
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)
        self.cov.setdefault("models", []).append(
            dict(st, model=module, constants={k: str(v) for k, v in
                                              consts.items()}))
        return out

    def emitting(self, module, consts, timeout=None, props=()):
        """check a model that prints its alphabet and paths"""
        out = self.small(module, consts,
                         ["VIEW View", "INVARIANT Ok", "INVARIANT EmitPath"]
                         + (["PROPERTY Laws"] if module not in ("Pty", "Refs") else [])
                         + list(props), timeout=timeout)
        return parse_paths(out)

    # ---- the model
    def model(self, name, depth, emit=True, extra="", timeout=None, workers=None):
        cfg = os.path.join(vlib.tmp(), "MC-%s" % name)
        with open(cfg + ".cfg", "w") as f:
            f.write('CONSTANTS\n P = "%s"\n Depth = %d\n Emitting = %s\n%s'
                    'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT Ok\nINVARIANT EmitPath\nPROPERTY Laws\n' %
                    (name, depth, "TRUE" if emit else "FALSE", extra))
        rc, out, st = vlib.tlc("MC", cfg=cfg, workers=workers, timeout=timeout or
                               (200 if self.tier == "quick" else 3600))
        if rc != 0:
            i = out.find("Error:")
            raise Inconclusive("model %s: %s: %s" % (name, rc,
                                                     out[i:i + 6000]))
        self.cov["states"] += st.get("states", 0)
        self.cov["transitions"] += st.get("transitions", 0)
        self.cov.setdefault("models", []).append(dict(st, model=name,
                                                      max_depth=depth))
        return parse_paths(out)

    def transitions(self, name, alpha, starts, paths, depth, n, probe=()):
        """scripts: paths to states and one more operation, and operations
        that show what cannot be seen otherwise"""
        r = self.rng("mc", name)
        lines = [opline(o) for o in alpha]
        cls = [classify(x) for x in lines]
        tr = [(p, k) for p in paths if len(p) <= depth
              for k in range(1, len(alpha) + 1)]
        self.cov.setdefault("model_transitions", 0)
        self.cov["model_transitions"] += len(tr)
        if len(tr) > n:
            tr = r.sample(tr, n)
        for p, k in tr:
            ops = [(opline(o), frozenset(), frozenset())
                   for o in starts[p[0] - 1]]
            for j in p[1:] + [k]:
                # more than fits anywhere
                x = lines[j - 1].split(" ")
                if x[0] != "in":
                    x = [str(r.choice(gen.HUGE)) if y == "1000000000" else y
                         for y in x]
                ops.append((" ".join(x),) + cls[j - 1])
            ops += [(x, frozenset(), frozenset()) for x in probe]
            yield ops

    # ---- conformance
    def run(self, scripts, count=True, timeout=40):
        """scripts: list of ops lists -> list of failures
        (script, dict with step, diffs...)"""
        sc = [("s%d" % i, self.flags, [o[0] for o in s])
              for i, s in enumerate(scripts)]
        good, bad = vlib.harness_parallel(self.binary, sc, timeout)
        fails = []
        for k, why in bad.items():
            ops = scripts[int(k[1:])]
            fails.append((ops, {"step": len(ops) - 1, "diffs": ["crash"],
                                "detail": why, "crash": True}))
        if good and self.parts:
            traces, where = [], {}
            for s in sc:
                for tr in json.loads(good.get(s[0], '{"parts":[]}'))["parts"]:
                    traces.append(json.dumps(tr))
                    where[tr["id"]] = [e["n"] for e in tr["steps"]]
            mm, st = vlib.validate(traces, module=self.module)
            # one for each script, in its own terms
            first = {}
            for k, d in mm.items():
                d["part"] = int(k.split(".")[1])
                d["step"] = where[k][d["step"]]
                x = first.setdefault(k.split(".")[0], d)
                if d["step"] < x["step"]:
                    first[k.split(".")[0]] = d
            mm = first
        elif good:
            mm, st = vlib.validate([good[s[0]] for s in sc if s[0] in good],
                                   module=self.module)
        if good:
            if count:
                self.cov["traces_validated_against_impl"] += len(good)
                self.cov["steps_validated"] = \
                    self.cov.get("steps_validated", 0) + st.get("states", 0)
            for k, d in mm.items():
                ops = scripts[int(k[1:])]
                fails.append((ops[:d["step"] + 1], d))
        return fails

    def minimise(self, ops, fail, budget=100):
        """smaller script that also fails"""
        t0 = time.time()
        timeout = 10 if fail.get("detail") == "timeout" else 40
        size = max(1, (len(ops) - 1) // 2)
        while time.time() - t0 < budget:
            cands, cuts = [], []
            for a in range(1, len(ops) - 1, size):
                b = min(a + size, len(ops) - 1)
                cands.append(ops[:a] + ops[b:])
                cuts.append((a, b))
            if not cands:
                break
            res = {}
            for o, f in self.run(cands, False, timeout):
                for i, c in enumerate(cands):
                    if c is o or (len(o) <= len(c) and c[:len(o)] == o):
                        res.setdefault(i, (o, f))
            if res:
                # all at once, if that works
                gone = set()
                for i in res:
                    gone |= set(range(*cuts[i]))
                cand = [o for j, o in enumerate(ops) if j not in gone]
                got = self.run([cand], False, timeout) if len(res) > 1 else []
                if got and len(got[0][0]) < len(ops):
                    ops, fail = got[0]
                else:
                    ops, fail = min(res.values(), key=lambda x: len(x[0]))
                size = min(size, max(1, (len(ops) - 1) // 2))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
        return ops, fail

    def judge(self, fails):
        """is one of the failures a violation of the property?"""
        P = self.P
        seen = {}

        def key(x):
            ops, f = x
            return (P not in ops[-1][1], not any(P in o[2] for o in ops),
                    len(ops))
        for ops, f in sorted(fails, key=key):
            sig = (ops[-1][0].split()[0], str(f["diffs"]))
            if seen.get(sig, 0) >= 2 or sum(seen.values()) >= 8:
                continue
            if time.time() - self.t0 > (500 if self.tier == "quick"
                                        else 3000):
                break
            seen[sig] = seen.get(sig, 0) + 1
            again = self.run([ops], count=False)
            if not again and self.carry and not f.get("crash"):
                both = self.carried(ops)
                if both:
                    return both, f, "interference"
            if not again:
                # crashes can depend on the traces before
                self.notes.append("not reproducible: %s" % f["diffs"])
                if not f.get("crash"):
                    continue
                again = [(ops, f)]
            ops, f = self.minimise(*again[0])
            why = self.own(ops, f) if self.own else attributed(P, ops, f)
            if why:
                return ops, f, why
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(repr((ops, f))[:1500] + "\n")
            self.notes.append("difference that belongs to another property: "
                              "%s at %s" % (f["diffs"], ops[-1][0][:60]))
        return None

    def carried(self, ops):
        """a script that another one makes fail that ran before in the same
        process: terminals are independent of those before them, too"""
        first = next((k for k, s in enumerate(self.carry)
                      if s[:len(ops)] == ops), None)
        if first is None:
            return None
        n = max(1, min(vlib.NCPU, len(self.carry) // 8 + 1))
        before = [self.carry[k] for k in range(first % n, first, n)]
        while before:
            # all of them, then some of them
            size = len(before)
            parts = [before] if size == 1 else \
                [before[:size // 2], before[size // 2:]]
            for part in parts:
                if self.after(part, ops):
                    break
            else:
                return None
            before = part
            if len(before) == 1:
                return before[0] + [op("E"), op("T next " + self.flags)] + ops
        return None

    def after(self, part, ops):
        sc = [("p%d" % k, self.flags, [o[0] for o in s])
              for k, s in enumerate(part)] + \
            [("p%d" % len(part), self.flags, [o[0] for o in ops])]
        good, _ = vlib.run_harness(self.binary, sc)
        x = good.get("p%d" % len(part))
        if not x:
            return False
        tr = [json.dumps(t) for t in json.loads(x)["parts"]] \
            if self.parts else [x]
        return bool(vlib.validate(tr, module=self.module)[0])

    def violation(self, ops, f, why):
        text = "# property %s (%s)\n# differs: %s\n" % (
            self.P, why, " ".join(f["diffs"]))
        text += "# %s\n" % json.dumps(f["detail"])[:3000]
        text += "# replay: feed this to the harness %s\n" % \
            os.path.basename(self.binary)
        text += "T replay %s\n" % self.flags
        text += "\n".join(o[0] for o in ops) + "\nE\n"
        return self.report(text, "script")

    def report(self, text, ext):
        os.makedirs(REPLAYS, exist_ok=True)
        fn = os.path.join(REPLAYS, "%s-%s-%d.%s" % (self.P, self.tier,
                                                    self.seed, ext))
        with open(fn, "w") as g:
            g.write(text)
        self.evidence(violation=fn)
        print("VIOLATION property=%s replay=%s" % (self.P, fn), flush=True)
        return 1

    def sample(self, scripts, k=2):
        r = self.rng("sample")
        for s in r.sample(scripts, min(k, len(scripts))):
            self.cov["samples"].append([o[0][:200] for o in s][:60])

    def evidence(self, violation=None):
        ev = {"property": self.P, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 1)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:20]
        if violation:
            ev["coverage"]["violation"] = violation
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.P + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def opline(o):
    """a line of a script from an operation of the specification"""
    if o[0] == "in":
        return "in " + bytes(o[1]).hex()
    if o[0] in ("write", "defattr", "cpal"):
        return o[0] + " " + " ".join(
            str(x) for y in o[1:] for x in (y if isinstance(y, list) else [y]))
    return " ".join(str(x) for x in o)


def tagged(line):
    return (line,) + classify(line)


def check_term(R):
    P = R.P
    conf = TERM[P]
    i = R.idx()
    R.binary, = vlib.build("term")
    R.flags = conf.get("flags", "")
    scripts = []
    for name, dq, dt in conf["mc"]:
        d = (dq, dt)[i]
        alpha, starts, paths = R.model(name, d)
        scripts += list(R.transitions(name, alpha, starts, paths, d,
                                      conf["n"][i] // len(conf["mc"]),
                                      conf.get("probe", ())))
    if P == "C18":
        # the keys do not change the state: all of them, one after the other
        n = len(scripts)
        syms = sorted({a[1] for a in alpha if a[0] == "key"})
        for st in starts:
            head = [tagged(opline(o)) for o in st]
            for m in range(32):
                if i or m < 16:
                    scripts.append(head + [tagged("key %d 0 %d -1" % (k, m))
                                           for k in syms])
        for st in starts if i else starts[::7]:
            head = [tagged(opline(o)) for o in st]
            for m in range(16):
                for f in "key %d %d %d %d", "key 1 %d %d %d":
                    scripts.append(head + [tagged(
                        f % ((c,) * f.startswith("key %") + (c, m, c)))
                        for c in range(32, 127)])
        R.cov["key_product_scripts"] = len(scripts) - n
    R.cov["model_scripts"] = len(scripts)
    nrnd = conf["rnd"][i]
    for j in range(nrnd):
        rr = R.rng("rnd", j)
        scripts.append(gen.resize_script(rr) if P == "C10" and j % 8 == 0 else
                       gen.tall_script(rr) if P == "C06" and j % 5 == 0 else
                       gen.tabs_script(rr) if P == "C09" and j % 25 == 0 else
                       gen.script(conf.get("profile", P), rr, 40))
    R.cov["random_scripts"] = nrnd
    R.sample(scripts)
    fails = []
    step = 6000
    for k in range(0, len(scripts), step):
        fails += R.run(scripts[k:k + step])
        if fails:
            v = R.judge(fails)
            if v:
                return R.violation(*v)
            fails = []
    if P == "C02":
        v = encoder(R)
        if v:
            return R.violation(*v)
    R.evidence()
    return 0


def encoder(R):
    """characters to UTF-8, directly"""
    R.binary, = vlib.build("data")
    R.module = "SymbolTrace"
    R.own = lambda ops, f: "encoder"
    r = R.rng("enc")
    cs = [c + d for c in [0, 0x80, 0x800, 0xd800, 0xe000, 0xfdd0, 0xfdf0,
                          0x10000, 0x110000, 0x200000, 0x4000000, 0x7ffffffe]
          for d in range(-2, 3)]
    cs += [p * 0x10000 + d for p in range(18) for d in (0, 1, 0xfffd, 0xfffe,
                                                        0xffff)]
    cs += [r.choice([r.randrange(0x800), r.randrange(0x10000),
                     r.randrange(0x110000), r.randrange(1 << 31)])
           for _ in range((2000, 100000)[R.idx()])]
    cs = [min(c, 0x7fffffff) for c in cs] + [-1, -2, -2147483647]
    lines = ["enc %d" % c for c in cs]
    for _ in range((300, 5000)[R.idx()]):
        lines.append(("fail 1\n" if r.random() < .05 else "") + "encall " +
                     " ".join(str(r.choice(cs)) for _ in
                              range(r.randrange(0, 8))))
    lines = "\n".join(lines).split("\n")
    scripts = [[op(x) for x in lines[k:k + 40]]
               for k in range(0, len(lines), 40)]
    R.cov["encoder_calls"] = len(lines)
    return R.judge(R.run(scripts))


# ---------------------------------------------------------------- C01: chunks

C01_PROFILES = ("C02 C03 C02 C03 C14 C15 C16 C17 C20 C20 C04 C05 C11 C18 "
                "ANY").split()


def segments(lines):
    """consecutive inputs become one: list of lines and of bytes"""
    r = []
    for x in lines:
        if not x.startswith("in "):
            r.append(x)
        else:
            b = bytes.fromhex(x[3:])
            if r and isinstance(r[-1], bytes):
                r[-1] += b
            else:
                r.append(b)
    return r


def variants(segs, rng, more=2):
    """scripts with the same operations and differently cut inputs"""
    cut = [list(gen.chunked(s, rng, more)) if isinstance(s, bytes) else s
           for s in segs]
    return [[y for c in cut
             for y in (["in " + p.hex() for p in c[j]]
                       if isinstance(c, list) else [c])]
            for j in range(2 + more)]


def run_groups(R, groups):
    """groups of scripts that have to be equivalent -> failing groups"""
    sc = [("g%d.%d" % (i, j), "", v) for i, g in enumerate(groups)
          for j, v in enumerate(g)]
    good, bad = vlib.harness_parallel(R.binary, sc)
    fails, lines, where = [], [], []
    for i, g in enumerate(groups):
        ids = ["g%d.%d" % (i, j) for j in range(len(g))]
        crashed = [k for k in ids if k in bad]
        if crashed and len(crashed) < len(ids):
            j = ids.index(crashed[0])
            o = next(n for n, k in enumerate(ids) if k not in bad)
            fails.append((g, (o, j), {"diffs": ["crash"],
                                      "detail": bad[crashed[0]]}))
        elif crashed:
            R.notes.append("all variants crash: %s" % bad[crashed[0]])
        elif all(k in good for k in ids):
            lines.append("[" + ",".join(good[k] for k in ids) + "]")
    if lines:
        mm, st = vlib.validate(lines, module="Chunks")
        R.cov["traces_validated_against_impl"] += sum(
            1 for k in good)
        R.cov["groups"] = R.cov.get("groups", 0) + len(lines)
        for k, d in mm.items():
            i, j = map(int, k[1:].split("."))
            fails.append((groups[i], (0, j), d))
    return fails


def check_chunks(R):
    i = R.idx()
    R.binary, = vlib.build("term")
    d = (3, 4)[i]
    alpha, starts, paths = R.model("C01", d)
    groups = []
    r = R.rng("cut")
    for ops in R.transitions("C01", alpha, starts, paths, d,
                             (2500, 30000)[i],
                             probe=["in 41", "in 1b5b366e"]):
        lines = [o[0] for o in ops]
        n = len(lines)
        v = variants(segments(lines), r, 0)
        groups.append([lines] + [x for x in v if x != lines])
    for j in range((450, 9000)[i]):
        rr = R.rng("rnd", j)
        for _ in range(20):
            s = [o[0] for o in gen.script(rr.choice(C01_PROFILES), rr, 30)]
            if any(x.startswith("in ") for x in s):
                break
        s += ["in 41", "in 1b5b366e"]
        groups.append(variants(segments(s), rr, 2))
    R.cov["groups_generated"] = len(groups)
    for g in R.rng("sample").sample(groups, 2):
        R.cov["samples"].append([v[:40] for v in g[:2]])
    for k in range(0, len(groups), 2500):
        fails = run_groups(R, groups[k:k + 2500])
        for g, (a, b), f in sorted(fails, key=lambda x: sum(
                map(len, x[0][0])))[:6]:
            again = run_groups(R, [[g[a], g[b]]])
            if not again:
                R.notes.append("not reproducible: %s" % f["diffs"])
                continue
            ga, gb, f = shrink_group(R, g[a], g[b], again[0][2])
            text = "# property %s\n# differs: %s\n# %s\n" % (
                R.P, " ".join(f["diffs"]), json.dumps(f["detail"])[:3000])
            text += "# the same bytes, cut differently\n"
            for n, v in (("a", ga), ("b", gb)):
                text += "T %s\n%s\nE\n" % (n, "\n".join(v))
            return R.report(text, "script")
    R.evidence()
    return 0


def shrink_group(R, a, b, f, budget=60):
    """remove parts from both scripts as long as they differ.  An item is a
    byte or another operation; which cuts follow an item stays the same."""
    t0 = time.time()

    def items(v):
        r = []
        for x in v:
            if x.startswith("in "):
                bs = bytes.fromhex(x[3:])
                for n, c in enumerate(bs):
                    r.append([c, n == len(bs) - 1])
            else:
                r.append([x, True])
        return r

    def script(its):
        r, cur = [], None
        for x, cut in its:
            if isinstance(x, str):
                if cur:
                    r.append("in " + cur.hex())
                cur = None
                r.append(x)
                continue
            cur = (cur or b"") + bytes([x])
            if cut:
                r.append("in " + cur.hex())
                cur = None
        if cur:
            r.append("in " + cur.hex())
        return r
    ia, ib = items(a), items(b)
    size = max(1, len(ia) // 2)
    while time.time() - t0 < budget:
        cands = [(ia[:p] + ia[p + size:], ib[:p] + ib[p + size:])
                 for p in range(1, len(ia), size)]
        if not cands:
            break
        got = run_groups(R, [[script(x), script(y)] for x, y in cands])
        if got:
            g, _, f = got[0]
            n = next(i for i, (x, y) in enumerate(cands)
                     if [script(x), script(y)] == g)
            ia, ib = cands[n]
        elif size == 1:
            break
        else:
            size //= 2
    return script(ia), script(ib), f


# ------------------------------------------------------------------ C13: ages

AGE_MODELS = ["C04", "C05", "C06", "C07", "C08", "C08v", "C09", "C10", "C11",
              "C12", "C14", "C15", "C16"]


def op(line):
    return (line, frozenset(), frozenset())


def check_age(R):
    i = R.idx()
    age = dict(Values="{0,1}", MaxAge=3, Rule='"good"')
    inv = ["INVARIANT NeverStale"]
    R.small("Age", dict(age, Lines="{1,2}", Columns="{1}", Buffers=2), inv)
    R.small("Age", dict(age, Lines="{1}", Columns="{1,2}", Buffers=2), inv)
    if i:
        R.small("Age", dict(age, Lines="{1,2}", Columns="{1,2}", Buffers=1),
                inv)
        R.small("Age", dict(age, Lines="{1,2}", Columns="{1}", Buffers=2,
                            MaxAge=4), inv)
    for rule in "noinc", "noline", "noscreen", "noreset":
        R.small("Age", dict(age, Lines="{1,2}", Columns="{1,2}", Buffers=2,
                            Rule='"%s"' % rule), inv, expect="NeverStale",
                what=rule)
    normal, narrow = vlib.build("term", "term8")
    R.module = "AgeTrace"
    R.flags = "a"
    R.own = lambda ops, f: ("picture" if set(f["diffs"]) &
                            {"stale", "stale2"} else None)
    scripts = []
    with cf.ThreadPoolExecutor(4) as ex:
        models = list(ex.map(lambda n: (n,) + R.model(n, (1, 2)[i],
                                                      timeout=900, workers=2),
                             AGE_MODELS))
    for name, alpha, starts, paths in models:
        for ops in R.transitions(name, alpha, starts, paths, (1, 2)[i],
                                 (350, 4000)[i]):
            scripts.append(ops[:-1] + [op("draw"), ops[-1], op("draw")])
    R.cov["model_scripts"] = len(scripts)
    wrap = []
    for j in range((1200, 25000)[i]):
        rr = R.rng("rnd", j)
        p = rr.choice(["ANY"] * 4 + ["C04", "C06", "C07", "C08", "C10", "C11",
                                     "C12", "C14", "C15"])
        vte = None
        out = []
        q = rr.choice([.15, .4, .8])
        fill = j % 3 == 0
        for o in gen.script(p, rr, 40):
            if vte is None:
                vte = o[0].split()[3] != "0"
            out.append(o)
            if not vte and rr.random() < .02:
                out.append(op("%ssetflags %d" % (rr.choice(["", "", "re"]),
                                                 rr.randrange(128))))
            if fill and rr.random() < .12:
                n = rr.choice([rr.randrange(1, 260), rr.randrange(230, 256)])
                out.append(op("in " + "0d" * n if vte else
                              "homes %d" % n))
            if rr.random() < q:
                out.append(op("draw"))
        out.append(op("draw"))
        (wrap if fill else scripts).append(out)
    R.cov["random_scripts"] = (1200, 25000)[i]
    R.sample(scripts + wrap)
    for binary, what in (normal, scripts), (narrow, wrap), (narrow, scripts):
        R.binary = binary
        if binary == narrow and what is scripts and not i:
            break
        for k in range(0, len(what), 6000):
            v = R.judge(R.run(what[k:k + 6000]))
            if v:
                return R.violation(*v)
    R.evidence()
    return 0


# ----------------------------------------------------- C28: several terminals

def check_sessions(R):
    i = R.idx()
    R.binary, = vlib.build("term")
    R.flags = "m"
    R.parts = True
    d = (2, 3)[i]

    def consts(rule="good", depth=d):
        return dict(Depth=depth, Rule='"%s"' % rule)
    alpha, starts, paths = parse_paths(R.small(
        "Sessions", consts(), ["VIEW View", "INVARIANT Ok", "PROPERTY Quiet",
                               "INVARIANT EmitPath"]))
    for rule in "parser", "palette", "saved":
        R.small("Sessions", consts(rule, 3), ["VIEW View", "INVARIANT Ok"],
                expect="Invariant Ok is violated", what=rule)

    def lines(ops):
        out, k = [], None
        for o in ops:
            if o[0] != k:
                out.append(op("S %d" % (o[0] - 1)))
                k = o[0]
            x = opline(o[1])
            out.append((x,) + classify(x))
        return out
    r = R.rng("mc")
    tr = [(p, k) for p in paths if len(p) <= d
          for k in range(1, len(alpha) + 1)]
    R.cov["model_transitions"] = len(tr)
    n = (2500, 40000)[i]
    scripts = []
    for p, k in r.sample(tr, min(n, len(tr))):
        ops = starts[p[0] - 1] + [alpha[j - 1] for j in p[1:] + [k]]
        # show what is hidden
        scripts.append(lines(ops + [[j, ["in", [55, 109, 65, 27, 91, 54, 110]]]
                                    for j in (1, 2)]))
    R.cov["model_scripts"] = len(scripts)
    nr = (500, 12000)[i]
    for j in range(nr):
        rr = R.rng("rnd", j)
        todo = []
        same = [None, gen.focus(rr), rr.choice(C01_PROFILES)][j % 3]
        for k in range(rr.choice([2, 2, 2, 3, 4])):
            s = []
            cut = rr.choice([0, .3, 1])
            prof = same or rr.choice(C01_PROFILES +
                                     ["C10", "C12", "C19", "C07"])
            for o in gen.script(prof, rr, 25):
                b = bytes.fromhex(o[0][3:]) if o[0].startswith("in ") else b""
                if len(b) > 1 and rr.random() < cut:
                    m = rr.randrange(1, len(b))
                    s += [("in " + b[:m].hex(),) + o[1:],
                          ("in " + b[m:].hex(),) + o[1:]]
                else:
                    s.append(o)
            todo.append((k, s))
        out, last = [], -1
        while todo:
            k, s = rr.choice(todo)
            if k != last:
                out.append(op("S %d" % k))
                last = k
            for _ in range(rr.choice([1, 1, 2, 5])):
                if s:
                    out.append(s.pop(0))
            if not s:
                todo.remove((k, s))
        scripts.append(out)
    R.cov["random_scripts"] = nr
    R.sample(scripts)

    def own(ops, f):
        # each of them alone: the first operation of a script is kept
        cur, per = 0, {}
        for o in ops:
            if o[0].startswith("S "):
                cur = int(o[0][2:])
            else:
                per.setdefault(cur, []).append(o)
        alone = any(R.run([v], count=False) for v in per.values())
        return None if alone else "interference"
    R.own = own
    for k in range(0, len(scripts), 6000):
        R.carry = scripts[k:k + 6000]
        v = R.judge(R.run(R.carry))
        if v:
            return R.violation(*v)
    R.evidence()
    return 0


# ------------------------------------------- C21 C22 C23: the data structures

def check_data(R, module, models, broken, replay, rnd, only=None):
    """models: (module, constants for both tiers); replay: makes scripts of
    a path; rnd: makes a random script"""
    i = R.idx()
    R.binary, = vlib.build("data")
    R.module = module
    R.own = lambda ops, f: "difference"
    scripts = []
    for name, consts, n in models:
        alpha, starts, paths = R.emitting(name, consts[i])
        d = consts[i]["Depth"]
        r = R.rng("mc", name, consts[i])
        tr = [(p, k) for p in paths if len(p) <= d
              for k in range(1, len(alpha) + 1)]
        R.cov["model_transitions"] = R.cov.get("model_transitions",
                                               0) + len(tr)
        if len(tr) > n[i]:
            tr = r.sample(tr, n[i])
        for p, k in tr:
            ops = [alpha[j - 1] for j in p[1:] + [k]]
            for lines in replay(r, starts[p[0] - 1], ops):
                scripts.append([op(x) for x in lines])
    for name, consts, expect, what in broken:
        R.small(name, consts, ["VIEW View", "INVARIANT Ok", "PROPERTY Laws"],
                expect=expect, what=what)
    R.cov["model_scripts"] = len(scripts)
    nr = rnd[1 + i]
    for j in range(nr):
        scripts.append([op(x) for x in rnd[0](R.rng("rnd", j))])
    R.cov["random_scripts"] = nr
    R.sample(scripts)
    for k in range(0, len(scripts), 8000):
        v = R.judge(R.run(scripts[k:k + 8000]))
        if v:
            return R.violation(*v)
    R.evidence()
    return 0


def check_ring(R):
    def c(depth, mx=9, rule="good"):
        return dict(MinSize=4, MaxSize=mx, Limit=24, Depth=depth,
                    Rule='"%s"' % rule)

    def replay(r, start, ops):
        lines = []
        for o in ops:
            n = max(0, o[1] * 1024 + r.choice([0, 0, -1, 1])) \
                if len(o) > 1 and o[1] else 0
            v = r.randrange(251)
            if o[0] == "failpush":
                lines += ["fail 1", "push %d %d" % (v, n)]
            elif o[0] == "push":
                lines.append("push %d %d" % (v, n))
            elif o[0] == "pull":
                lines.append("pull %d" % n)
            else:
                lines.append(o[0])
        lines.append("copy %d" % r.choice([0, 1, 1024, 4096, 20000, 50000]))
        return [lines]
    return check_data(
        R, "RingTrace", [("Ring", (c(9), c(14, 10)), (5000, 60000))],
        [("Ring", c(9, rule="keepstart"), "Laws", "start kept"),
         ("Ring", c(9, rule="nowrap"), "Laws", "no wrap-around")],
        replay, (gen.ring_script, 800, 15000))


def check_htable(R):
    def c(s, depth, rule="good"):
        return dict(W=7, Set=s, Depth=depth, Rule='"%s"' % rule)

    def replay(r, start, ops):
        shift = r.choice([0, 0, 0, 4, 20, 50])
        high = r.choice([0, 0, 0, 1 << 58, 0x7f << 57])
        lines = ["elem %d %d %d" % ((e[1] << shift) | high, e[2], e[3])
                 for e in start]
        keys = sorted({(e[2], e[3]) for e in start})
        for o in ops:
            if o[0] == "insfail":
                lines += ["fail 1", "ins %d" % (o[1] - 1)]
            elif o[0] == "ins":
                lines.append("ins %d" % (o[1] - 1))
            else:
                lines.append(" ".join(map(str, o)))
        lines += ["find %d %d" % k for k in keys] + ["visit"]
        return [lines]
    return check_data(
        R, "HtableTrace",
        [("Htable", (c(1, 6), c(1, 8)), (2500, 30000)),
         ("Htable", (c(2, 6), c(2, 8)), (2500, 30000)),
         ("Htable", (c(3, 5), c(3, 7)), (2500, 30000))],
        [("Htable", c(2, 6, "zerostart"), "Ok", "rehash from the start"),
         ("Htable", c(1, 6, "nocommon"), "violated", "bits not put back"),
         ("Htable", c(1, 6, "noreveal"), "Ok", "no bit of its own"),
         ("Htable", c(1, 6, "zero"), "Ok", "no mark for removed entries")],
        replay, (gen.htable_script, 600, 12000))


def check_array(R):
    def c(depth, mx=6, rule="good"):
        return dict(MaxLen=mx, Depth=depth, Rule='"%s"' % rule)

    def replay(r, start, ops):
        lines = ["anew %d %d" % (r.choice([1, 2, 3, 4, 8, 24]), o[1])
                 for o in start]
        for o in ops:
            if o[0].startswith("fail"):
                lines.append("fail 1")
            k = o[0].replace("fail", "")
            lines.append("apush %d" % r.randrange(1, 256) if k == "push" else
                         " ".join(["a" + k] + [str(x) for x in o[1:]]))
        lines += ["ahuge %d" % r.randrange(4), "aresize 20"]
        return [lines]
    return check_data(
        R, "ArrayTrace", [("Array", (c(8), c(12, 9)), (4000, 40000))],
        [("Array", c(8, rule="growzero"), "is violated", "zero only what is new"),
         ("Array", c(8, rule="lost"), "is violated", "content not kept"),
         ("Array", c(8, rule="early"), "is violated", "failure half done")],
        replay, (gen.array_script, 800, 15000))


def check_symbols(R):
    def c(depth):
        return dict(Depth=depth, Chars="{97, 98, 769}")

    def replay(r, start, ops):
        lines = [" ".join(map(str, o)) for o in start]
        for o in ops[:-1]:
            lines.append(" ".join(map(str, o)))
        last = " ".join(map(str, ops[-1]))
        tail = [x for k in range(len(ops))
                for x in ("get @%d" % k, "width @%d" % k)]
        out = [lines + [last] + tail]
        k = r.randrange(1, 5)
        if k < 4:
            out.append(lines + ["fail %d" % k, last] + tail + [last])
        return out
    return check_data(
        R, "SymbolTrace", [("MCSymbols", (c(3), c(4)), (3000, 40000))], [],
        replay, (gen.symbol_script, 500, 10000))


# -------------------------------------------------------------- C24: terminals

def check_pty(R):
    i = R.idx()
    R.binary, = vlib.build("pty")
    R.module = "PtyTrace"

    def own(ops, f):
        if "kernel" in f["diffs"]:
            raise Inconclusive("the simulated kernel is not that of the "
                               "specification: %s" % [o[0] for o in ops])
        return "difference"
    R.own = own

    def c(depth, rule="good", cap=3, faults=2):
        return dict(Cap=cap, Depth=depth, Rule='"%s"' % rule, Faults=faults)
    d = (10, 14)[i]
    alpha, starts, paths = R.emitting("Pty", c(d))
    R.small("Pty", c(16 if i else 12, faults=3), ["VIEW View",
                                                  "INVARIANT Ok"])
    # everything arrives in the end
    live = c(8 if i else 6, cap=2, faults=1)
    R.small("Pty", live, ["VIEW LiveView", "PROPERTY Transferred"],
            spec="Live")
    for rule, what in [("noarm", "not registered again"),
                       ("readonly", "registered again only for reading"),
                       ("oneread", "two reads are taken for all"),
                       ("onewrite", "two writes are taken for all"),
                       ("badctl", "registration is not renewed"),
                       ("pullall", "partial write taken for a full one"),
                       ("intrdone", "an interruption is taken for the end")]:
        R.small("Pty", c(12, rule), ["VIEW View", "INVARIANT Ok"],
                expect="Ok", what=what)
    r = R.rng("mc")
    tr = [p + [k] for p in paths if len(p) <= d
          for k in range(1, len(alpha) + 1)]
    R.cov["model_transitions"] = len(tr)
    n = (2500, 40000)[i]
    if len(tr) > n:
        tr = r.sample(tr, n)
    scripts = []
    for p in tr:
        u = r.choice([1, 100, 4000, 8000, 9000, 16383, 20000])
        lines = ["bridge", "open 0", "add 0"]
        late = []       # during a dispatch
        busy, calls = None, 0
        for k in p[1:]:
            o = alpha[k - 1]
            if o[0] in ("write", "disp", "call"):
                if busy:
                    lines += late + [busy]
                    late, busy = [], None
            if o[0] in ("disp", "call"):
                busy, calls = "disp" if o[0] == "disp" else "call 0", 0
                if o[0] == "disp":
                    calls = 1
            elif o[0] == "write":
                lines.append("write 0 %d" % (o[1] * u))
            elif o[0] == "sys":
                calls += 1
            elif o[0] in ("part", "intr"):
                calls += 1
                late.append("at %d %s" % (calls, "intr" if o[0] == "intr" else
                                          "limit 0 %d" % r.randrange(
                                              1, u + 1)))
            else:
                x = " ".join([o[0], "0"] + [str(y * u) for y in o[1:]])
                if busy:
                    late.append("at %d %s" % (calls + 1, x))
                else:
                    lines.append(x)
        if busy:
            lines += late + [busy]
        scripts.append([op(x) for x in lines + ["disp", "disp"]])
    R.cov["model_scripts"] = len(scripts)
    for j in range((600, 12000)[i]):
        scripts.append([op(x) for x in gen.pty_script(R.rng("rnd", j))])
    R.cov["random_scripts"] = (600, 12000)[i]
    R.sample(scripts)
    for k in range(0, len(scripts), 6000):
        v = R.judge(R.run(scripts[k:k + 6000]))
        if v:
            return R.violation(*v)
    R.evidence()
    return 0


# ------------------------------------------------- C31: children on terminals

def check_child(R):
    i = R.idx()
    R.binary, = vlib.build("rpty")
    R.module = "ChildTrace"

    def own(ops, f):
        if "harness" in f["diffs"]:
            raise Inconclusive("harness and specification disagree: %s" %
                               [o[0] for o in ops])
        return "difference"
    R.own = own

    def c(rule="good"):
        return dict(Rule='"%s"' % rule)
    props = ["INVARIANT Ok", "PROPERTY Returns", "PROPERTY Truth"]
    out = R.small("Child", c(), props, spec="Live")
    faults = [json.loads(json.loads(ln)[7:]) for ln in out.split("\n")
              if ln.startswith('"FAULTS ')][0]
    for rule, what in [("early", "the parent is told too early"),
                       ("keep", "the parent keeps the end for writing"),
                       ("intr", "an interruption is taken for a failure"),
                       ("return", "a child goes on after a failure"),
                       ("leak", "descriptors are left open")]:
        R.small("Child", c(rule), props, expect="violated", what=what,
                spec="Live")
    d = (5, 7)[i]
    alpha, starts, paths = parse_paths(R.small(
        "MCSession", dict(Depth=d), ["VIEW View", "INVARIANT Ok",
                                     "PROPERTY Laws", "INVARIANT EmitPath"]))
    r = R.rng("mc")
    scripts = []
    where = {"ctty": ("ioctl", 1), "winsize": ("ioctl", 2),
             "dup0": ("dup2", 1), "dup1": ("dup2", 2), "dup2": ("dup2", 3)}
    for k in faults:
        for std in range(4):
            scripts.append(["std %d" % std, "fault %s %d" % where.get(
                k, (k, 1)), "open 0 80 24", "open 0 80 24", "say 0 10 3"])
    for k in "read", "write":
        scripts.append(["fault %s 1 1" % k, "open 0 5 6", "q 0"])
    for s in range(1, 65):
        for k in "ignore", "block", "handle":
            scripts.append(["%s %d" % (k, s), "open 0 7 9"])
    tr = [(p, k) for p in paths if len(p) <= d
          for k in range(1, len(alpha) + 1)]
    R.cov["model_transitions"] = len(tr)
    n = (400, 8000)[i]
    for p, k in r.sample(tr, min(n, len(tr))):
        ops = starts[p[0] - 1] + [alpha[j - 1] for j in p[1:] + [k]]
        scripts.append([" ".join(map(str, o)) for o in ops] +
                       ["q 0", "info 0", "idle 0"])
    R.cov["model_scripts"] = len(scripts)
    for j in range((500, 10000)[i]):
        scripts.append(gen.child_script(R.rng("rnd", j)))
    R.cov["random_scripts"] = (500, 10000)[i]
    scripts = [[op(x) for x in s] for s in scripts]
    R.sample(scripts)
    for k in range(0, len(scripts), 4000):
        v = R.judge(R.run(scripts[k:k + 4000]))
        if v:
            return R.violation(*v)
    R.evidence()
    return 0


# ------------------------------------------------------------ C25: references

def check_refs(R):
    i = R.idx()
    R.binary, = vlib.build("objs")
    R.module = "RefsTrace"

    def own(ops, f):
        if "harness" in f["diffs"]:
            raise Inconclusive("harness and specification disagree: %s" %
                               [o[0] for o in ops])
        return "difference"
    R.own = own

    def c(depth, rule="good"):
        return dict(MaxRefs=2, Depth=depth, Rule='"%s"' % rule)
    d = (8, 11)[i]
    alpha, starts, paths = R.emitting("Refs", c(d))
    R.small("Refs", dict(c(16), MaxRefs=3), ["VIEW View", "INVARIANT Ok"])
    for rule, what in [("noref", "a terminal does not reference its screen"),
                       ("nodrop", "a terminal does not release its screen"),
                       ("failref", "a failed creation keeps a reference")]:
        R.small("Refs", c(8, rule), ["VIEW View", "INVARIANT Ok"],
                expect="Ok", what=what)
    r = R.rng("mc")
    tr = [p + [k] for p in paths if len(p) <= d
          for k in range(1, len(alpha) + 1)]
    R.cov["model_transitions"] = len(tr)
    n = (3000, 30000)[i]
    if len(tr) > n:
        tr = r.sample(tr, n)
    scripts = []
    for p in tr:
        lines = []
        for k in p[1:]:
            o = alpha[k - 1]
            if o[0] == "snew":
                lines.append("snew %d %d %d" % (o[1], r.randrange(1, 20),
                                                r.randrange(1, 10)))
            elif o[0] == "failnew":
                lines += ["fail %d" % r.randrange(1, 3),
                          "vnew %d %d" % (o[1], o[2])]
            else:
                lines.append(" ".join(map(str, o)))
        scripts.append([op(x) for x in gen.refs_fill(r, lines, .2)])
    R.cov["model_scripts"] = len(scripts)
    for j in range((600, 10000)[i]):
        scripts.append([op(x) for x in gen.refs_script(R.rng("rnd", j))])
    R.cov["random_scripts"] = (600, 10000)[i]
    R.sample(scripts)
    for k in range(0, len(scripts), 8000):
        v = R.judge(R.run(scripts[k:k + 8000]))
        if v:
            return R.violation(*v)
    R.evidence()
    return 0


# ---------------------------------------------------- C26: failing allocations

def check_faults(R):
    i = R.idx()
    termf, data, objs = vlib.build("termf", "data", "objs")

    def own(ops, f):
        if R.run([[o for o in ops if not o[0].startswith("fail ")]],
                 count=False):
            return None
        return "allocation failure"
    R.own = own
    d = (3, 4)[i]
    alpha, starts, paths = R.model("C26", d)
    lines = [opline(o) for o in alpha]
    r = R.rng("mc")
    tr = [p + [k] for p in paths if len(p) <= d
          for k in range(1, len(alpha) + 1) if alpha[k - 1][0] != "lose"
          and any(alpha[j - 1][0] == "lose" for j in p[1:])]
    R.cov["model_transitions"] = len(tr)
    n = (2500, 40000)[i]
    if len(tr) > n:
        tr = r.sample(tr, n)
    scripts = []
    for p in tr:
        ops = [opline(o) for o in starts[p[0] - 1]]
        for k in p[1:]:
            o = alpha[k - 1]
            # a line is made by two allocations
            ops.append(lines[k - 1] if o[0] != "lose" else "fail %d%s" % (
                2 * o[1] + r.choice([1, 2]), " 1" if o[2] else ""))
        scripts.append([op(x) for x in ops + ["sbup 1", "in 41"]])
    # every allocation of creating and resizing
    for k in range(1, 40):
        for a in ("", " 1"):
            scripts.append([op(x) for x in (
                "fail %d%s" % (k, a), "new 3 4 1 1 1", "new 3 4 1 1 1",
                "in 41420a43", "maxsb 3", "fail %d%s" % (k, a), "resize 6 7",
                "in 44", "fail %d%s" % (k, a), "resize 9 2", "in 450a0a",
                "fail %d%s" % (k, a), "resize 9 5", "resize 9 5", "in 46")])
    # copying, also when nothing is left of the selection
    for a in "", " 1":
        for k in "sbup 0", "clearsb", "maxsb 0", "selreset", "scrollup 9":
            scripts.append([op(x) for x in (
                "new 3 2 0 1 1", "maxsb 3", "write 65" + 14 * " 0",
                "scrollup 2", "sbup 2", "selstart 0 0", "seltarget 2 0", k,
                "selcopy", "fail 1" + a, "selcopy", "selcopy")])
    R.cov["model_scripts"] = len(scripts)
    nr = (900, 20000)[i]
    for j in range(nr):
        rr = R.rng("rnd", j)
        scripts.append(gen.resize_script(rr, .6) if j % 6 == 0 else
                       gen.fault_script(rr))

    def failing(make, n, q):
        """scripts with more failures"""
        for j in range(n):
            rr = R.rng(make.__name__, j)
            out = []
            for x in make(rr):
                if not x.startswith("fail") and rr.random() < q and \
                   x.split()[0] in ("app", "encall", "ins"):
                    out.append("fail %d%s" % (rr.randrange(1, 5), rr.choice(
                        ["", " 1"])))
                    if rr.random() < .5:
                        out.append(x)
                out.append(x)
            yield [op(x) for x in out]
    jobs = [(termf, "FaultTrace", scripts)]
    for mod, make in [("SymbolTrace", gen.symbol_script),
                      ("HtableTrace", gen.htable_script),
                      ("RingTrace", gen.ring_script)]:
        q = 0 if mod == "RingTrace" else .25
        jobs.append((data, mod, list(failing(make, (150, 3000)[i], q))))
    jobs.append((objs, "RefsTrace", [[op(x) for x in gen.refs_script(
        R.rng("refs", j))] for j in range((200, 4000)[i])]))
    R.cov["random_scripts"] = nr + sum(len(x[2]) for x in jobs[1:])
    R.sample(scripts)
    R.cov["failed_allocations_in"] = sum(
        1 for j in jobs for s in j[2] if any(o[0].startswith("fail ")
                                             for o in s))
    for R.binary, R.module, what in jobs:
        for k in range(0, len(what), 6000):
            v = R.judge(R.run(what[k:k + 6000]))
            if v:
                return R.violation(*v)
    R.evidence()
    return 0


# ------------------------------------------------------- C29: any use is safe

def check_safety(R):
    i = R.idx()
    term, termm, data, pty, objs = vlib.build("term", "termm", "data", "pty",
                                              "objs")

    def crashes(binary, scripts):
        sc = [("s%d" % k, "", [o[0] for o in s])
              for k, s in enumerate(scripts)]
        bad = {}
        for k in range(0, len(sc), 1600):
            g, b = vlib.harness_parallel(binary, sc[k:k + 1600])
            bad.update(b)
            R.cov["traces_validated_against_impl"] += len(g)
            if len(bad) > 5:
                break
        return [(scripts[int(k[1:])], w) for k, w in bad.items()]

    def fails(binary, ops):
        g, b = vlib.run_harness(binary, [("s0", "", [o[0] for o in ops])],
                                timeout=20)
        return b.get("s0")

    def smaller(binary, ops, why):
        t0 = time.time()
        size = max(1, (len(ops) - 1) // 2)
        while time.time() - t0 < 120:
            k, found = 1, False
            while k < len(ops) and time.time() - t0 < 120:
                c = ops[:k] + ops[k + size:]
                w = fails(binary, c)
                if w:
                    ops, why, found = c, w, True
                else:
                    k += size
            if size == 1 and not found:
                break
            size = max(1, size // 2)
        return ops, why

    scripts = []
    for name, n in ("C29", (2500, 40000)[i]), ("C29v", (1200, 20000)[i]):
        d = 2
        alpha, starts, paths = R.model(name, d)
        scripts += list(R.transitions(name, alpha, starts, paths, d, n,
                                      ["selcopy", "in 1b5b366e", "resize 2 3",
                                       "in 41420a", "sbup 1", "selcopy"]))
    R.cov["model_scripts"] = len(scripts)
    nr = (3600, 90000)[i]
    wild = [gen.wild_script(R.rng("rnd", j)) for j in range(nr)]
    R.cov["random_scripts"] = nr
    R.sample(scripts)
    R.sample(wild, 1)

    def rnd(make, n):
        return [[op(x) for x in make(R.rng(make.__name__, j))]
                for j in range(n)]
    jobs = [("term", term, scripts), ("termm", termm, scripts),
            ("term", term, wild), ("termm", termm, wild)]
    n = (200, 5000)[i]
    for name, b, make in [("data", data, gen.symbol_script),
                          ("data", data, gen.htable_script),
                          ("data", data, gen.ring_script),
                          ("data", data, gen.array_script),
                          ("pty", pty, gen.pty_script),
                          ("objs", objs, gen.refs_script)]:
        jobs.append((name, b, rnd(make, n)))
    for name, b, what in jobs:
        for ops, why in crashes(b, what):
            again = fails(b, ops)
            if again:
                ops, why = smaller(b, ops, again)
            R.binary = name
            return R.violation(ops, {"diffs": ["crash"], "detail": why},
                               "memory error, undefined behaviour or hang")
    # calls without an object: they say what they have to say, and nothing
    # else changes
    R.binary, R.module = objs, "RefsTrace"

    def own(ops, f):
        if "harness" in f["diffs"]:
            raise Inconclusive("harness and specification disagree: %s" %
                               [o[0] for o in ops])
        return "difference" if any(o[0].startswith("null")
                                   for o in ops) else None
    R.own = own
    nulls = [[op(x) for x in gen.null_script(k)] for k in range(gen.NULLS)]
    R.cov["calls_without_object"] = len(nulls)
    R.sample(nulls, 1)
    v = R.judge(R.run(nulls))
    if v:
        return R.violation(*v)
    R.evidence()
    return 0


LEVEL = ("TLC explores the specification exhaustively within the bounds in "
         "the evidence file (small screens or objects, all sequences of an "
         "alphabet of operations up to a depth) and checks every transition "
         "against independently stated laws. The code is bound to it by "
         "replay: transitions of the model (a sample in the quick tier) and "
         "random scripts run on the real code under ASan and UBSan; TLC then "
         "validates each recorded trace against the specification. ")
NOTES = {
    "*": ("TLA+ specification of the terminal checked with TLC; its "
          "transitions and random behaviours replayed on the real code, the "
          "recorded traces validated against the specification with TLC",
          LEVEL + "Every cell, the cursor, all modes, replies, callbacks and "
          "results are compared after each operation."),
    "C01": ("TLA+ specification (Input is compositional: checked with TLC on "
            "all transitions); groups of traces of the real code with the "
            "same bytes cut differently, compared with TLC",
            LEVEL + "Each group of differently cut inputs has to show the "
            "same events, replies, modes and screen."),
    "C13": ("TLA+ model of ages and partial redrawing (Age.tla) checked with "
            "TLC, with broken variants rejected; traces of the real code "
            "validated: a partially redrawn picture is compared with a "
            "complete one, also with a narrow age counter that overflows",
            LEVEL + "The counter is 8 bits wide in one build of the "
            "unchanged sources, so that overflows are reached."),
    "C21": ("TLA+ specification of symbols checked with TLC; transitions, "
            "also with failing allocations, and random scripts replayed, "
            "traces validated with TLC", LEVEL),
    "C22": ("TLA+ model of the hash table checked against a set with TLC, "
            "broken variants rejected; transitions and random scripts with "
            "colliding hashes replayed, traces validated with TLC", LEVEL),
    "C23": ("TLA+ model of the ring buffer refining a FIFO, checked with TLC, "
            "broken variants rejected; transitions and random scripts "
            "replayed, traces validated with TLC", LEVEL),
    "C24": ("TLA+ model of the PTY code with an edge-triggered kernel, safety "
            "and liveness checked with TLC, broken variants rejected; the "
            "real code runs on a simulated kernel with faults, traces "
            "validated with TLC",
            LEVEL + "The kernel is simulated below the system calls of the "
            "unchanged shl-pty.c; that the simulation is the kernel of the "
            "specification is checked on every trace."),
    "C25": ("TLA+ model of reference counts checked with TLC, broken variants "
            "rejected; histories replayed, memory accounted and traces "
            "validated with TLC", LEVEL),
    "C26": ("TLA+ specification in which lines can be lost, checked with TLC; "
            "histories with failing allocations replayed, traces validated "
            "against the set of allowed states with TLC",
            LEVEL + "Which allocation comes first is not prescribed: a trace "
            "is accepted if some failure explains it."),
    "C28": ("TLA+ composition of several terminals (Sessions.tla) checked "
            "with TLC to be independent, variants that share state rejected; "
            "interleavings replayed, the trace of each terminal validated by "
            "itself with TLC",
            LEVEL + "The trace of each of the terminals has to be one of the "
            "specification of a single terminal."),
    "C29": ("behaviours of the TLA+ specification for arbitrary arguments, "
            "enumerated with TLC, and random wild scripts, replayed under "
            "ASan, UBSan, MSan, leak checking and a time limit",
            "TLC enumerates the operations with arguments outside of the "
            "screen and shows that the specification stays well-formed; the "
            "same behaviours and wild scripts run on the real code, where "
            "any sanitizer report, leak, crash or hang is a violation. What "
            "the code does is compared with the specification by the other "
            "checks."),
    "C30": ("TLA+ model of the array as a sequence (Array.tla) checked with "
            "TLC, broken variants rejected; transitions and random scripts "
            "with failing allocations replayed, traces validated with TLC",
            LEVEL),
    "C31": ("TLA+ models of opening a terminal with faults at every step "
            "(Child.tla, safety and termination) and of its later life "
            "(Session.tla) checked with TLC, broken variants rejected; real "
            "children on real terminals, also with injected faults, traces "
            "validated with TLC",
            LEVEL + "The kernel is the real one here; system calls are made "
            "to fail at link time, one at a time."),
}

CHECKS = {p: check_term for p in TERM}
CHECKS["C01"] = check_chunks
CHECKS["C13"] = check_age
CHECKS["C21"] = check_symbols
CHECKS["C22"] = check_htable
CHECKS["C23"] = check_ring
CHECKS["C24"] = check_pty
CHECKS["C25"] = check_refs
CHECKS["C26"] = check_faults
CHECKS["C30"] = check_array
CHECKS["C31"] = check_child
CHECKS["C28"] = check_sessions
CHECKS["C29"] = check_safety


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    R = Runner(a.property, a.tier, seed)
    try:
        rc = CHECKS[a.property](R)
    except Inconclusive as e:
        log("no answer: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    log("%s: exit %d after %.0f s: %s" % (
        a.property, rc, time.time() - R.t0,
        {k: v for k, v in R.cov.items() if isinstance(v, int)}))
    for n in R.notes[:6]:
        log("  note: " + n)
    sys.exit(rc)


if __name__ == "__main__":
    main()
