#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of GoBCDice.

Checks the TLA+ specification with TLC, replays the behaviours TLC finds on the
real code, and validates traces recorded from the real code against the
specification.  Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Anything else: the check
itself failed."""
import glob
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode("utf8", "replace")
    env.setdefault("GOFLAGS", "-mod=mod")
    env.setdefault("GOPROXY", "off")
    env["GOTOOLCHAIN"] = "local"
    env.setdefault("HOME", "/root")
    return env


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="check-%s-" % prop, dir="/tmp")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.detail = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.env = go_env()
        self.deadline = self.t0 + (780 if not self.thorough else 3 * 3600)

    # -- building ---------------------------------------------------------
    def build(self, name="harness", pkg=".", args=(), cwd=None, optional=False, env=None):
        out = os.path.join(self.tmp, name)
        e = dict(self.env)
        e.update(env or {})
        r = subprocess.run(["go", "build", *args, "-o", out, pkg], cwd=cwd or os.path.join(HERE, "harness"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            if optional:
                return None
            raise CheckError("build of %s failed:\n%s" % (name, r.stdout.decode("utf8", "replace")[-4000:]))
        return out

    # -- running the real code --------------------------------------------
    def run_real(self, cmd, timeout, mem=12 << 30, env=None, cwd=None, stdin=None, tail=3000):
        """runs a program of the real code; returns (rc, stderr tail, journal)"""
        journal = os.path.join(self.tmp, "journal")
        if os.path.exists(journal):
            os.remove(journal)
        e = dict(self.env)
        e["JOURNAL"] = journal
        e["GOTRACEBACK"] = "single"
        e.update(env or {})

        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim,
                               cwd=cwd or self.tmp, input=stdin)
            rc, err = r.returncode, r.stderr.decode("utf8", "replace")
            err = err if len(err) <= 2 * tail else err[:tail] + "\n...\n" + err[-tail:]
        except subprocess.TimeoutExpired as x:
            rc, err = "timeout", ((x.stderr or b"").decode("utf8", "replace"))[-3000:]
        j = None
        if os.path.exists(journal):
            try:
                j = json.loads(open(journal, encoding="utf8").read().split("\n")[0])
            except ValueError:
                j = None
        return rc, err, j

    # -- TLC --------------------------------------------------------------
    def tlc(self, cfg, module, env=None, out=None, timeout=800, mem="8g", args=()):
        """runs TLC; returns (stdout path, states, generated)"""
        out = out or os.path.join(self.tmp, "tlc-%s-%d" % (cfg, len(os.listdir(self.tmp))))
        e = dict(os.environ)
        e.update({"PROP": self.prop, "TIER": self.tier, "SEED": str(self.seed), "SLICE": "1", "TRACES": ""})
        e.update(env or {})
        e["TLC_MEM"] = mem
        e["TLC_TMP"] = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        e["TLC_STOP"] = str(int(timeout))
        cmd = [os.path.join(HERE, "tlc.sh"), os.path.join(SPEC, cfg + ".cfg"), "-workers", "8", *args, os.path.join(SPEC, module + ".tla")]
        with open(out, "wb") as f:
            try:
                r = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout + 60, cwd=self.tmp)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC ran out of time on %s %s" % (module, cfg))
        shutil.rmtree(e["TLC_TMP"], ignore_errors=True)
        states = gen = None
        text_tail = b""
        with open(out, "rb") as f:
            for line in f:
                m = re.match(rb"(\d+) states generated, (\d+) distinct states found, 0 states left", line)
                if m:
                    gen, states = int(m.group(1)), int(m.group(2))
                if not line.startswith(b'"'):
                    text_tail = (text_tail + line)[-6000:]
        if r.returncode != 0 or states is None:
            raise CheckError("TLC failed on %s %s (exit %s):\n%s" % (module, cfg, r.returncode, text_tail.decode("utf8", "replace")))
        self.cov["states"] += states
        self.cov["transitions"] += gen
        return out, states, gen

    def lines(self, path, tag):
        """the JSON values TLC printed behind a tag"""
        pre = ('"%s ' % tag).encode()
        with open(path, "rb") as f:
            for line in f:
                if line.startswith(pre):
                    s = line.decode("utf8").rstrip("\n")
                    try:
                        s = json.loads(s)
                    except ValueError:
                        s = s[1:-1].replace('\\\\', '\0').replace('\\"', '"').replace("\\t", "\t").replace("\\n", "\n") \
                            .replace("\\r", "\r").replace("\\f", "\f").replace('\0', '\\')
                    yield json.loads(s[len(tag) + 1:])

    # -- validation of traces ---------------------------------------------
    def validate(self, path, cfg="Trace", module="Trace", what="traces", env=None, timeout=700, count=True):
        """validates a file of traces; returns the mismatches [(trace index, event index, event, expected)]"""
        traces = json.load(open(path, encoding="utf8"))
        if not traces:
            return []
        e = {"TRACES": path}
        e.update(env or {})
        out, states, _ = self.tlc(cfg, module, env=e, timeout=timeout)
        stop = {}
        for m in self.lines(out, "MISMATCH"):
            stop[m["tr"]] = m
        want = sum(stop[i + 1]["l"] if i + 1 in stop else len(t) + 1 for i, t in enumerate(traces))
        if want != states:
            raise CheckError("TLC followed %d states of %s instead of %d: %s" % (states, what, want, out))
        if count:
            self.cov["traces_validated_against_impl"] += len(traces)
            self.detail[what + ": events validated"] = self.detail.get(what + ": events validated", 0) + sum(len(t) for t in traces)
        os.remove(out)
        return [(m["tr"] - 1, m["l"] - 1, traces[m["tr"] - 1][m["l"] - 1], m["expected"]) for m in sorted(stop.values(), key=lambda m: m["tr"])]

    def info(self, path):
        i = json.load(open(path + ".info", encoding="utf8"))
        return i

    def note(self, what, info):
        for k, v in info["stats"].items():
            if v:
                self.detail["%s: %s" % (what, k)] = self.detail.get("%s: %s" % (what, k), 0) + v
        self.cov["samples"] += [s for s in (info["samples"] or [])][:6]

    # -- reporting --------------------------------------------------------
    def violation(self, summary, data):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations) + 1))
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "summary": summary, "detail": data}, f,
                      ensure_ascii=False, indent=1)
        self.violations.append((summary, path))

    def finish(self, level="model_checking"):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict(self.cov), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        ev["coverage"]["measured"] = self.detail
        ev["coverage"]["samples"] = ev["coverage"]["samples"][:20] or ["none"]
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w", encoding="utf8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for s, path in self.violations:
            print(s)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1 if self.violations else 0

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)


def describe(ev, exp):
    if "t" not in ev:
        return "%s; expected %s" % (json.dumps(ev, ensure_ascii=False)[:1200], json.dumps(exp, ensure_ascii=False)[:1200])
    t = "".join(ev.get("t", []))
    return "%s %r: %s; expected %s" % (ev.get("e"), t, {k: v for k, v in ev.items() if k in ("out", "msg", "x", "secret", "verdict", "items")},
                                       {k: v for k, v in exp.items() if k in ("out", "why", "msg", "x", "secret", "verdict", "items", "at")})


# ---------------------------------------------------------------------------
# stages shared by the properties of commands

def model_check(c, cfg, module="MCCommands", slices=1, env=None):
    """checks the specification and returns the file with its behaviours"""
    e = {"SLICE": str(slices)}
    e.update(env or {})
    out, states, gen = c.tlc(cfg, module, env=e)
    c.detail["model %s %s: states" % (module, cfg)] = c.detail.get("model %s %s: states" % (module, cfg), 0) + states
    return out


def replay(c, harness, cases, limit=3):
    out = os.path.join(c.tmp, "replay.json")
    rc, err, j = c.run_real([harness, "replay", cases, str(limit), out], 600)
    if rc != 0:
        crash(c, harness, rc, err, j, None)
        return
    info = c.info(out)
    c.note("replayed behaviours", info)
    c.detail["behaviours replayed on the real code"] = c.detail.get("behaviours replayed on the real code", 0) + info["stats"].get("cases", 0)
    if not info["stats"].get("cases"):
        raise CheckError("no behaviours to replay")
    for path, cfg in ((out, "Trace"), (out + ".limit", "TraceLimit3")):
        bad = c.validate(path, cfg=cfg, what="departing replays", count=False)
        if bad:
            # once more, in a new process
            out2 = os.path.join(c.tmp, "replay2.json")
            rc, err, j = c.run_real([harness, "replay", cases, str(limit), out2], 600)
            if rc != 0:
                crash(c, harness, rc, err, j, None)
                return
            bad2 = c.validate(out2 + path[len(out):], cfg=cfg, what="departing replays", count=False)
            again = {(b[2]["b"], json.dumps(b[2]["D"])) for b in bad2}
            sure = [b for b in bad if (b[2]["b"], json.dumps(b[2]["D"])) in again]
            if not sure and overdue(bad):
                raise CheckError("departures not reproducible: %s" % describe(bad[0][2], bad[0][3]))
            for b in (sure or bad)[:3]:
                c.violation("behaviour of the specification not followed (%d such): %s" % (len(sure), describe(b[2], b[3])),
                            {"event": b[2], "expected": b[3], "limit": cfg})


def died(c, rc, err, again):
    """reports a process that died in the code under test, twice if it can be run again"""
    def ours(rc, err):
        return rc not in (0, 3) and re.search(r"^(fatal error|panic|runtime: |SIG|unexpected fault)", err, re.M) and "github.com/raa0121/GoBCDice/" in err
    if not ours(rc, err):
        return False
    if again:
        rc2, err2, _ = again()
        if not ours(rc2, err2):
            return False
    first = re.search(r"^(fatal error|panic|runtime: |SIG|unexpected fault).*", err, re.M).group(0)[:200]
    where = re.search(r"github\.com/raa0121/GoBCDice/\S+", err).group(0)[:200]
    c.violation("the process died (%s): %s in %s" % (rc, first, where), {"stderr": err})
    return True


def crash(c, harness, rc, err, j, regenerate):
    """the process running the real code died or hung: judge what it was doing"""
    if j is None or j["what"] not in ("exec", "parse", "typed"):
        if not died(c, rc, err, (lambda: regenerate(os.path.join(c.tmp, "one.json"))) if regenerate else None):
            raise CheckError("driver failed (%s) at %s: %s" % (rc, j, err))
        return
    # does the command alone do it?
    one = os.path.join(c.tmp, "one.json")
    same = 0
    for _ in range(2):
        rc2, err2, j2 = regenerate(one) if regenerate else c.run_real([harness, "one", j["what"], j["bytes"], one], 200)
        if rc2 != 0 and rc2 != 3:
            same += 1
    if same < 2:
        raise CheckError("driver died (%s), not reproducible: %s %s" % (rc, j, err))
    ev = {"e": j["what"], "t": j["t"], "b": j["bytes"], "g": "DiceBot", "D": [], "out": "process died (%s)" % rc, "nores": True, "x": ""}
    c.violation("the process died (%s) at %s %r: %s" % (rc, j["what"], j["text"], err.strip().split("\n")[0][:200]), {"event": ev, "stderr": err})


def overdue(bad):
    """whether all that is wrong is an answer that did not come in time, which may be the machine's fault"""
    return all('"hang"' in json.dumps(b[2]) for b in bad)


def record(c, harness, n, prop=None, chunk=None, cfg="Trace", module="Trace", what="recorded traces"):
    """records n traces from the real code and validates them"""
    prop = prop or c.prop
    chunk = chunk or n
    for lo in range(0, n, chunk):
        hi = min(n, lo + chunk)
        out = os.path.join(c.tmp, "traces.json")

        def make(lo, hi, out):
            return c.run_real([harness, "traces", prop, str(c.seed), str(lo), str(hi), out], 700)
        rc, err, j = make(lo, hi, out)
        if rc != 0:
            at = int(j["place"]) if j and j.get("place", "").isdigit() else None
            if at is None:
                if not died(c, rc, err, lambda: make(lo, hi, out)):
                    raise CheckError("driver failed (%s): %s" % (rc, err))
                return
            crash(c, harness, rc, err, j, lambda o: make(at, at + 1, o))
            return
        c.note(what, c.info(out))
        bad = c.validate(out, cfg=cfg, module=module, what=what)
        sure = 0
        for tr, l, ev, exp in bad:
            again = []
            o2 = os.path.join(c.tmp, "again.json")
            for _ in range(3):
                rc2, err2, j2 = make(lo + tr, lo + tr + 1, o2)
                if rc2 != 0:
                    again = [True]
                    break
                again = c.validate(o2, cfg=cfg, module=module, what="repeats", count=False)
                if again:
                    break
            if again:
                sure += 1
                t = json.load(open(out, encoding="utf8"))[tr]
                c.violation("recorded execution contradicts the specification (one of %d): %s" % (len(bad), describe(ev, exp)),
                            {"trace": lo + tr, "event index": l, "event": ev, "expected": exp, "trace events": t[:l + 1],
                             "again": "harness traces %s %d %d %d OUT" % (prop, c.seed, lo + tr, lo + tr + 1)})
            if sure >= 3 or (sure and time.time() > c.t0 + 400):
                break
        if bad and not sure:
            # perhaps it takes the earlier traces too
            kept = json.load(open(out, encoding="utf8"))
            rc2, err2, j2 = make(lo, hi, out)
            if rc2 == 0:
                bad2 = c.validate(out, cfg=cfg, module=module, what="repeats", count=False)
                for tr, l, ev, exp in bad2[:3]:
                    sure += 1
                    c.violation("recorded execution contradicts the specification (one of %d): %s" % (len(bad2), describe(ev, exp)),
                                {"traces": [lo, hi], "trace": lo + tr, "event index": l, "event": ev, "expected": exp,
                                 "again": "harness traces %s %d %d %d OUT" % (prop, c.seed, lo, hi)})
            if not sure and overdue(bad):
                raise CheckError("mismatch not reproducible: %s" % describe(bad[0][2], bad[0][3]))
            if not sure:
                # seen once, but seen
                sure = 1
                t = kept[bad[0][0]]
                c.violation("recorded execution contradicts the specification (once only, one of %d): %s" % (len(bad), describe(bad[0][2], bad[0][3])),
                            {"trace": lo + bad[0][0], "event index": bad[0][1], "event": bad[0][2], "expected": bad[0][3], "trace events": t[:bad[0][1] + 1]})
        if sure:
            return


# ---------------------------------------------------------------------------
# known findings: each is tried on the real code

def listed(prop):
    """the known findings of a property: {key: what fails}"""
    r = {}
    for line in open(os.path.join(HERE, "known_findings.txt"), encoding="utf8"):
        m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
        if m and m.group(1) == prop:
            r[m.group(2)] = m.group(3)
    return r


def run_one(c, h, text, what="exec"):
    """(exit status, event) of one command in a process of its own"""
    f, o = os.path.join(c.tmp, "hex"), os.path.join(c.tmp, "one.json")
    open(f, "w").write(text.encode("utf8").hex())
    rc, err, j = c.run_real([h, "one", what, "@" + f, o], 200)
    return rc, json.load(open(o, encoding="utf8"))[0][0] if rc == 0 else {}


def parts(ev):
    return ev.get("parts") or [""] * 9


def quotient_in_product(c, h):
    a = run_one(c, h, "C(2*(3/4))")[1]
    b = run_one(c, h, parts(a)[0])[1]
    return parts(a)[0] == "C(2*3/4)" and parts(a)[2] != parts(b)[2]


def quotient_written(c, h):
    return run_one(c, h, "2*(3/4)+1D6", "typed")[1].get("x") == "2*3/4+1D6"


def huge_die(c, h):
    o = os.path.join(c.tmp, "one.json")
    rc, err, j = c.run_real([h, "onedice", "99999999999999999999/6", o], 100)
    return rc == 0 and json.load(open(o, encoding="utf8"))[0][0]["out"] != "error"


KNOWN = {
    "dice-beyond-64-bits": huge_die,
    "quotient-in-product": lambda c, h: (quotient_written if c.prop == "P21" else quotient_in_product)(c, h),
    "huge-dice-count": lambda c, h: run_one(c, h, "9999999999999D6")[0] != 0,
    "impossible-dice-count": lambda c, h: run_one(c, h, "9223372036854775807D6")[1].get("out", "").startswith("panic"),
    "nesting-exhausts-stack": lambda c, h: run_one(c, h, "C(" + "(" * 100000 + "1" + ")" * 100000 + ")")[0] != 0,
}


def known_findings(c, h):
    for key, what in listed(c.prop).items():
        if KNOWN[key](c, h):
            c.known.append(what)


# ---------------------------------------------------------------------------
# the properties

# cfg of the model, slices of its texts (quick, thorough), traces (quick, thorough)
COMMANDS = {
    "P02": ("MCCommands", 12, 1, 2400, 40000),
    "P03": ("MCCommands", 20, 1, 2400, 40000),
    "P04": ("MCFaults", 1, 1, 2400, 40000),
    "P05": ("MCCommands", 2, 1, 2400, 40000),
    "P06": ("MCCommands", 1, 1, 2400, 40000),
    "P07": ("MCCommands", 1, 1, 2400, 40000),
    "P08": ("MCCommands", 1, 1, 2400, 40000),
    "P09": ("MCCommands", 3, 1, 2400, 40000),
    "P10": ("MCCommands", 1, 1, 2400, 40000),
    "P11": ("MCCommands", 1, 1, 2400, 40000),
    "P12": ("MCCommands", 1, 1, 1200, 20000),
    "P13": ("MCFaults", 1, 1, 1200, 20000),
}


def check_commands(c):
    cfg, sq, st, nq, nt = COMMANDS[c.prop]
    h = c.build()
    cases = model_check(c, cfg, slices=st if c.thorough else sq)
    replay(c, h, cases)
    os.remove(cases)
    known_findings(c, h)
    if not c.violations:
        record(c, h, nt if c.thorough else nq, chunk=5000)


def check_typed(c):
    h = c.build()
    cases = model_check(c, "MCTyped", module="MCTyped", slices=1 if c.thorough else 4)
    replay_machine(c, h, "replaytyped", cases, "Trace", "written commands")
    os.remove(cases)
    known_findings(c, h)
    if not c.violations:
        record(c, h, 40000 if c.thorough else 2000, chunk=5000)


def tokens(c, h, frm, to, k):
    """all strings of up to k tokens over some alphabets, and deep texts"""
    out, states, _ = c.tlc("MCTokens", "MCTokens", env={"FROM": str(frm), "TO": str(to), "LEN": str(k)}, timeout=3000 if c.thorough else 600, mem="16g")
    res = os.path.join(c.tmp, "tokens.json")

    def run():
        rc, err, j = c.run_real([h, "tokens", out, str(k), str(c.seed), res], 1500)
        if rc != 0:
            crash(c, h, rc, err, j, None)
            return None
        info = c.info(res)
        return c.validate(res, what="departing texts", count=False), c.validate(res + ".deep", what="deep texts"), info
    r = run()
    if r is None:
        return
    bad, deep, info = r
    if info["stats"]["texts"] != states:
        raise CheckError("%d token strings in the model, %d read" % (states, info["stats"]["texts"]))
    c.note("token strings", info)
    if bad or deep:
        r = run()
        if r is None:
            return
        bad2, deep2, _ = r
        keys = {b[2]["b"] for b in bad2} | {(b[2]["w"], b[2]["c"], b[2]["n"]) for b in deep2}
        sure = [b for b in bad if b[2]["b"] in keys] + [b for b in deep if (b[2]["w"], b[2]["c"], b[2]["n"]) in keys]
        if not sure and overdue(bad + deep):
            raise CheckError("departures not reproducible: %s" % describe((bad or deep)[0][2], (bad or deep)[0][3]))
        for b in (sure or bad + deep)[:3]:
            c.violation("text read differently from the specification (%d such): %s" % (len(sure), describe(b[2], b[3])[:600]),
                        {"event": b[2], "expected": b[3]})
    os.remove(out)


def check_recognition(c):
    h = c.build()
    if c.thorough:
        for a in range(1, 21):
            tokens(c, h, a, a, 6)
            if c.violations:
                return
    else:
        tokens(c, h, 1, 20, 4)
    if not c.violations:
        record(c, h, 40000 if c.thorough else 2000, chunk=5000)


def at_once(c, h, prop, n, racing, cfg="Trace", module="Trace", subject="instances"):
    """instances used at the same time; what shows only now and then counts as well"""
    out = os.path.join(c.tmp, "storm.json")
    env = {"GORACE": "halt_on_error=1 exitcode=66"} if racing else {}
    rc, err, j = c.run_real([h, "traces", prop, str(c.seed), "0", str(n), out], 1200, mem=0 if racing else 12 << 30, env=env, tail=60000)
    again = "harness%s traces %s %d 0 %d OUT" % (" built with -race" if racing else "", prop, c.seed, n)
    if rc == 0:
        info = c.info(out)
        what = "at the same time" + (" (race detector)" if racing else "")
        c.note(what, info)
        bad = c.validate(out, cfg=cfg, module=module, what="storms of " + subject)
        ts = json.load(open(out, encoding="utf8")) if bad else []
        for b in bad[:3]:
            c.violation("answer changed by other %s at work at the same time: %s" % (subject, describe(b[2], b[3])),
                        {"event": b[2], "expected": b[3], "trace events": ts[b[0]], "again": again})
        return
    ours = re.findall(r"github\.com/raa0121/GoBCDice/\S+", err)
    if rc == 66 and "DATA RACE" in err:
        report = err[err.index("WARNING: DATA RACE"):]
        stacks = re.split(r"\n\s*\n", report)[:2]
        if all("github.com/raa0121/GoBCDice/" in s for s in stacks):
            c.violation("separate %s touch the same memory without synchronisation: %s and %s" % (subject, *(
                re.search(r"github\.com/raa0121/GoBCDice/\S+", s).group(0) for s in stacks)), {"report": report[:6000], "again": again})
            return
    elif ours and ("fatal error" in err or "panic" in err):
        c.violation("the process died with %s at work at the same time: %s" % (subject, err.strip().split("\n")[0][:200]), {"stderr": err[:6000], "again": again})
        return
    raise CheckError("driver failed (%s): %s" % (rc, err[-3000:]))


def check_histories(c):
    h = c.build()
    cases = model_check(c, "MCInstances", module="MCInstances")
    replay_machine(c, h, "replayinstances", cases, "Trace", "replayed interleavings")
    os.remove(cases)
    if not c.violations:
        record(c, h, 15000 if c.thorough else 500, chunk=4000)
    if not c.violations:
        record(c, h, 120 if c.thorough else 6, prop="P14.long", what="long sessions")
    if not c.violations:
        at_once(c, h, "P14.storm", 400 if c.thorough else 10, False)
    if not c.violations:
        hr = c.build("racing", args=["-race"], optional=True, env={"CGO_ENABLED": "1"})
        c.detail["race detector available"] = hr is not None
        if hr:
            at_once(c, hr, "P14.race", 1500 if c.thorough else 40, True)


def check_sources(c):
    c.tlc("MCMt", "MCMt")
    h = c.build()
    record(c, h, 6000 if c.thorough else 240, chunk=600, cfg="TraceMt", module="TraceMt")


def replay_machine(c, h, cmd, cases, module, what, args=()):
    """replays the behaviours of a specification; departures are judged by its trace specification"""
    out = os.path.join(c.tmp, "replay.json")
    def run(o):
        return c.run_real([h, cmd, cases, *args, o], 1500 if c.thorough else 600)

    rc, err, j = run(out)
    if rc != 0:
        if not died(c, rc, err, lambda: run(out)):
            raise CheckError("replay failed (%s): %s" % (rc, err))
        return
    info = c.info(out)
    c.note(what, info)
    n = info["stats"].get("cases", 0)
    if not n:
        raise CheckError("no behaviours to replay")
    c.detail["behaviours replayed on the real code"] = c.detail.get("behaviours replayed on the real code", 0) + n
    bad = c.validate(out, cfg=module, module=module, what="departing replays", count=False)
    if bad:
        if overdue(bad):
            rc, err, j = run(out + "2")
            if rc == 0 and not c.validate(out + "2", cfg=module, module=module, what="departing replays", count=False):
                raise CheckError("departures not reproducible: %s" % describe(bad[0][2], bad[0][3]))
        ts = json.load(open(out, encoding="utf8"))
        for b in bad[:3]:
            c.violation("behaviour of the specification not followed (%d such): %s" % (len(bad), describe(b[2], b[3])),
                        {"event": b[2], "expected": b[3], "trace": ts[b[0]]})
    elif json.load(open(out, encoding="utf8")):
        raise CheckError("a replay departs from the behaviour, but agrees with the trace specification")


def check_queue(c):
    h = c.build()
    for cfg in ("MCQueue1t", "MCQueue2t") if c.thorough else ("MCQueue1", "MCQueue2"):
        cases = model_check(c, cfg, module="MCQueue")
        replay_machine(c, h, "replayqueue", cases, "TraceQueue", "replayed histories")
        os.remove(cases)
    if not c.violations:
        record(c, h, 20000 if c.thorough else 600, chunk=2000, cfg="TraceQueue", module="TraceQueue")


def check_testdata(c):
    h = c.build()
    k = 6 if c.thorough else 5
    known_findings(c, h)
    out, states, _ = c.tlc("MCTestData", "MCTestData", env={"LEN": str(k)}, timeout=3000 if c.thorough else 600, mem="16g")
    replay_machine(c, h, "testtokens", out, "TraceTestData", "texts of test data", args=[str(k)])
    os.remove(out)
    if not c.violations and c.detail.get("behaviours replayed on the real code") != states - 1:
        raise CheckError("%d token strings in the model, %s read" % (states - 1, c.detail.get("behaviours replayed on the real code")))
    if not c.violations:
        record(c, h, 20000 if c.thorough else 800, chunk=2500, cfg="TraceTestData", module="TraceTestData")


def check_shell(c):
    h = c.build()
    c.env["SHELL_BINARY"] = c.build("shell", "./cmd/GoBCDiceREPL", args=["-mod=readonly"], cwd=REPO)
    c.env["SHELL_DIR"] = c.tmp
    known_findings(c, h)
    cases = model_check(c, "MCRepl", module="MCRepl", env={"LEN": "3" if c.thorough else "2", "LEN2": "3" if c.thorough else "2"})
    replay_machine(c, h, "replayshell", cases, "TraceRepl", "replayed sessions")
    os.remove(cases)
    if not c.violations:
        record(c, h, 6000 if c.thorough else 250, chunk=500, cfg="TraceRepl", module="TraceRepl")


def with_games(c):
    """lays games over the registry, if it is still made the way it was; the build arguments"""
    d = os.path.join(REPO, "pkg/dicebot/list")
    for f in sorted(glob.glob(os.path.join(d, "*.go"))):
        src = open(f, encoding="utf8").read()
        new, n = re.subn(r"map\[string\]dicebot\.DiceBotConstructor\{\s*\}", "verifGames()", src)
        if n == 1:
            changed = os.path.join(c.tmp, "list.go")
            open(changed, "w", encoding="utf8").write(new)
            o = os.path.join(c.tmp, "overlay.json")
            json.dump({"Replace": {f: changed, os.path.join(d, "zz_games.go"): os.path.join(HERE, "overlay/games.go.txt")}}, open(o, "w"))
            return ["-overlay", o]
    return None


def check_registry(c):
    args = with_games(c)
    h = c.build(args=args, optional=True) if args else None
    injected = h is not None
    c.detail["games registered beside the base system"] = injected
    if not injected:
        args = []
        h = c.build()
    c.env["SHELL_DIR"] = c.tmp
    c.env["VERIF_INJECTED"] = "1" if injected else ""
    c.env["API_BINARY"] = c.build("api", "./cmd/GoBCDiceAPI", args=["-mod=readonly", *args], cwd=REPO)
    cases = model_check(c, "MCRegistry", module="MCRegistry", env={"LEN": "3" if c.thorough else "2"})
    replay_machine(c, h, "replayregistry", cases, "TraceRegistry", "replayed histories")
    os.remove(cases)
    rnd = random.Random(c.seed)
    for k in range(40 if c.thorough else 4):
        games = []
        if injected and k:
            ids, keys = set(), set()
            for _ in range(rnd.randrange(1, 4 * k)):
                ids.add("".join(rnd.choice("AaBbzZ09_剣ア") for _ in range(rnd.randrange(1, 5))))
                keys.add("".join(rnd.choice("あいうかがさ*1") for _ in range(rnd.randrange(5))))
            games = [[i, rnd.choice(["", "name ", "世界"]) + i, s] for i, s in zip(sorted(ids), rnd.sample(sorted(keys), len(keys)))]
        c.env["VERIF_GAMES"] = json.dumps(games)
        if not c.violations:
            record(c, h, 130 if c.thorough else 65, cfg="TraceRegistry", module="TraceRegistry")
    c.env["VERIF_GAMES"] = ""
    if not c.violations:
        at_once(c, h, "P18.storm", 200 if c.thorough else 8, False, cfg="TraceRegistry", module="TraceRegistry", subject="requests")
    if not c.violations:
        hr = c.build("racing", args=["-race", *args], optional=True, env={"CGO_ENABLED": "1"})
        c.detail["race detector available"] = hr is not None
        if hr:
            at_once(c, hr, "P18.storm", 60 if c.thorough else 3, True, cfg="TraceRegistry", module="TraceRegistry", subject="requests")


def check_objects(c):
    h = c.build()
    cases = model_check(c, "MCObjects", module="MCObjects", env={"LEN": "4" if c.thorough else "3"})
    replay_machine(c, h, "replayobjects", cases, "TraceObjects", "values of the specification")
    os.remove(cases)
    if not c.violations:
        record(c, h, 30000 if c.thorough else 600, prop="P20.objects", chunk=3000, cfg="TraceObjects", module="TraceObjects", what="values")
    if not c.violations:
        record(c, h, 15000 if c.thorough else 500, chunk=4000)


CHECKS = {p: check_commands for p in COMMANDS}
CHECKS["P01"] = check_recognition
CHECKS["P21"] = check_typed
CHECKS["P14"] = check_histories
CHECKS["P15"] = check_sources
CHECKS["P16"] = check_queue
CHECKS["P17"] = check_shell
CHECKS["P18"] = check_registry
CHECKS["P19"] = check_testdata
CHECKS["P20"] = check_objects


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        CHECKS[prop](c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR (%s): %s" % (prop, e))
        rc = 2
    finally:
        c.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()
