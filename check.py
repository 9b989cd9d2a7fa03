#!/usr/bin/env python3
"""Decide one property: explore the specification, run the code, validate what it did.

usage: check.py <property id>          (VERIF_SEED, VERIF_TIER in the environment)
       check.py --replay <file> <id>   re-judge a saved trace
"""
import json, os, random, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
DEADLINE = time.time() + (840 if not THOROUGH else 6 * 3600)

from registry import CHECKS, GROUPS, GENS, MODELS  # noqa: E402


class Broken(Exception):
    """The check itself could not run."""


def left():
    return max(10, DEADLINE - time.time())


def sh(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
        return None, ""


def build():
    env = dict(os.environ)
    env.update({"HOME": "/root", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
                "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "RUSTC_WRAPPER": "",
                "PATH": "/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", "")})
    rc, out = sh(["cargo", "build", "--release", "--offline", "--quiet"], 600, env, HARNESS)
    if rc != 0:
        raise Broken("harness does not build:\n" + out[-4000:])
    return os.path.join(HARNESS, "target", "release", "harness")


def tlc(module, cfg, work, tag, workers=1, extra=(), env=None, heap="3g", timeout=None):
    md = os.path.join(work, "md_" + tag)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noTE", "-nowarning",
           *extra, "-config", cfg, module]
    rc, out = sh(cmd, timeout or left(), env, SPEC)
    shutil.rmtree(md, ignore_errors=True)
    if rc is None:
        raise Broken(f"TLC ran out of time on {module} {cfg}")
    return rc, out


def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated(?:[^,]*), (\d[\d,]*) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(d.replace(",", "")), int(g.replace(",", ""))
    m = re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def trim(v, n=12):
    """A sample for the evidence file, long lists and strings cut."""
    if isinstance(v, dict):
        return {k: trim(x, n) for k, x in v.items()}
    if isinstance(v, list):
        return [trim(x, n) for x in v[:n]] + ([f"... {len(v) - n} more"] if len(v) > n else [])
    if isinstance(v, str) and len(v) > 200:
        return v[:200] + "..."
    return v


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(ROOT, "work", f"{prop}_{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.lines = 0
        self.viol = []          # (group, why, replay file, description)
        self.samples = []
        self.parts = []
        self.ops = {}

    # -- exhaustive exploration of the specification -----------------------------------------
    def induction(self, name):
        """An inductive invariant, discharged by Apalache: holds in any number of steps."""
        m = MODELS[name]
        t = time.time()
        done = []
        for k, (init, inv, length, want, *other) in enumerate(m["steps"]):
            cinit = (other or [m["cinit"]])[0]
            od = os.path.join(self.work, f"ap_{name}_{k}")
            os.makedirs(od)
            rc, out = sh(["apalache-mc", "check", "--out-dir=" + od, "--cinit=" + cinit, "--init=" + init,
                          "--inv=" + inv, f"--length={length}", m["module"]], left(),
                         {"TMPDIR": od, "PATH": os.environ.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/bin"}, SPEC)
            shutil.rmtree(od, ignore_errors=True)
            got = re.findall(r"The outcome is: (\w+)", out)
            if got != [want]:
                raise Broken(f"model {name}: {init} {inv}: unexpected result ({want} expected)\n" + out[-3000:])
            done.append(f"{cinit}: {init} => {inv} in {length} step(s): {want}")
        self.parts.append({"model": name, "induction": done, "wall_s": round(time.time() - t, 1)})

    def model(self, name):
        m = MODELS[name]
        if "steps" in m:
            return self.induction(name)
        t = time.time()
        rc, out = tlc(m["module"], m["cfg"], self.work, name, workers=m.get("workers", 4), heap=m.get("heap", "4g"))
        want = m.get("expect", "ok")
        ok = ("No error has been found" in out) if want == "ok" else ("is violated" in out or "was violated" in out)
        if not ok:
            raise Broken(f"model {name}: unexpected result ({want} expected)\n" + out[-3000:])
        d, g = counts(out)
        self.states += d
        self.transitions += g
        self.parts.append({"model": name, "config": m["cfg"], "states": d, "transitions": g,
                           "expected": want, "wall_s": round(time.time() - t, 1)})

    # -- recorded executions -------------------------------------------------------------------
    def group(self, bin_, name, extra=None, tag=None):
        g = GROUPS[name]
        tag = tag or name
        trace = os.path.join(self.work, tag + ".ndjson")
        t = time.time()
        limit = g.get("limit", 240) * (6 if THOROUGH else 1)
        rc, out = sh([bin_, g.get("arg", name), trace] + (extra or []), min(limit, left()),
                     {"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "VERIF_PROP": self.prop})
        cases = self.split(trace, rc == 0)
        if rc != 0:
            # The process died or never finished while executing the last case.
            what = "did not finish" if rc is None else f"ended with status {rc}"
            if rc == 2:
                raise Broken(f"harness {name}: {out[-2000:]}")
            last = cases.pop() if cases else None
            if last is None:
                raise Broken(f"harness {name} {what}: {out[-2000:]}")
            if self.prop in last[0]["props"]:
                self.add(name, last, len(last) - 1, f"the code under test {what} in this case", [])
        else:
            for k, v in json.loads(out.strip().splitlines()[-1])["ops"].items():
                self.ops[k] = self.ops.get(k, 0) + v
        mine = [c for c in cases if self.prop in c[0]["props"]]
        os.unlink(trace)
        h = time.time() - t
        self.judge(name, g["spec"], mine, tag)
        self.parts.append({"group": tag, "cases": len(mine), "lines": sum(map(len, mine)),
                           "harness_s": round(h, 1), "wall_s": round(time.time() - t, 1)})

    def split(self, trace, complete):
        cases = []
        if not os.path.exists(trace):
            return cases
        with open(trace, encoding="utf-8") as f:
            for l in f:
                try:
                    e = json.loads(l)
                except ValueError:
                    if complete:
                        raise Broken("unreadable trace line: " + l[:200])
                    continue
                if e["op"] == "case":
                    cases.append([e])
                else:
                    cases[-1].append(e)
        return cases

    def judge(self, name, spec, cases, tag):
        if not cases:
            return
        size = 12000
        shards, cur, n = [], [], 0
        for c in cases:
            cur.append(c)
            n += len(c)
            if n >= size:
                shards.append(cur)
                cur, n = [], 0
        if cur:
            shards.append(cur)

        def one(i):
            f = os.path.join(self.work, f"{tag}_{i}.ndjson")
            lines = [e for c in shards[i] for e in c]
            with open(f, "w", encoding="utf-8") as o:
                for e in lines:
                    o.write(json.dumps(e) + "\n")
            rc, out = tlc(spec + ".tla", spec + ".cfg", self.work, f"{tag}_{i}", env={"TRACE": f, "PROP": self.prop})
            os.unlink(f)
            return i, lines, rc, out

        for i, lines, rc, out in POOL_TLC.map(one, range(len(shards))):
            if "No error has been found" not in out:
                raise Broken(f"trace validation of {tag} failed:\n" + out[-3000:])
            d, g = counts(out)
            self.states += d
            self.transitions += g
            starts = [k for k, e in enumerate(lines) if e["op"] == "case"] + [len(lines)]
            for m in re.finditer(r'^"VIOL (.*)"$', out, re.M):
                v = json.loads(json.loads('"' + m.group(1) + '"'))
                k = v["line"] - 1
                s = max(x for x in starts if x <= k)
                e = min(x for x in starts if x > k)
                self.add(name, lines[s:e], k - s, v["why"], v["allowed"])
        self.traces += len(cases)
        self.lines += sum(map(len, cases))
        if len(self.samples) < 4:
            c = max(cases[:40], key=lambda c: min(len(c), 30))
            self.samples.append({"group": name, "case": c[0].get("desc"), "events": [trim(e) for e in c[1:7]], "events_total": len(c) - 1})

    def add(self, group, case, k, why, allowed):
        os.makedirs(os.path.join(ROOT, "work", "replays"), exist_ok=True)
        key = hashlib.sha256(json.dumps(case[:k + 1]).encode()).hexdigest()[:12]
        f = os.path.join(ROOT, "work", "replays", f"{self.prop}_{group}_{key}.ndjson")
        with open(f, "w", encoding="utf-8") as o:
            o.write(json.dumps({"op": "case", "id": 0, "props": case[0]["props"], "desc": case[0].get("desc"),
                                "group": group, "spec": GROUPS[group]["spec"], "seed": SEED, "tier": TIER,
                                "why": why, "offending": case[k] if k < len(case) else None, "allowed": allowed}) + "\n")
            for e in case[1:k + 1]:
                o.write(json.dumps(e) + "\n")
        self.viol.append((group, why, f, case[0].get("desc", ""), case[k] if k < len(case) else {}, allowed))

    # -- behaviours generated from the specification -------------------------------------------
    def gen(self, bin_, name):
        g = GENS[name]
        t = time.time()
        extra = []
        num = g.get("num_thorough" if THOROUGH else "num", 0)
        if g["mode"] == "simulate":
            extra = ["-simulate", f"num={num}", "-depth", str(g["depth"] + 2), "-seed", str(SEED)]
        f = os.path.join(self.work, name + ".beh")
        env = {}
        rc, out = tlc(g["module"], g["cfg"], self.work, "gen_" + name, extra=extra, env=env,
                      workers=1, heap="4g")
        behs = []
        for l in out.splitlines():
            if l.startswith('"BEH '):
                behs.append(json.loads(l)[4:])
        d, tr = counts(out)
        if not behs:
            raise Broken(f"no behaviours from {name}:\n" + out[-2000:])
        behs = list(dict.fromkeys(behs))
        total = len(behs)
        if g["mode"] != "simulate" and num and len(behs) > num:
            behs = random.Random(SEED).sample(behs, num)
        with open(f, "w") as o:
            o.write("\n".join(behs) + "\n")
        self.states += d
        self.transitions += tr
        self.parts.append({"generator": name, "behaviours": total, "replayed": len(behs), "states": d,
                           "wall_s": round(time.time() - t, 1)})
        self.group(bin_, g["group"], [f], tag="gen_" + name)


def known():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)", l.strip())
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out


POOL_TLC = ThreadPoolExecutor(7)


def main():
    prop = sys.argv[1]
    t0 = time.time()
    chk = CHECKS[prop]
    run = Run(prop)
    pool = ThreadPoolExecutor(8)
    try:
        bin_ = build()
        jobs = []
        for n in chk.get("models", []) + (chk.get("models_thorough", []) if THOROUGH else []):
            jobs.append(pool.submit(run.model, n))
        for n in chk.get("groups", []) + (chk.get("groups_thorough", []) if THOROUGH else []):
            jobs.append(pool.submit(run.group, bin_, n))
        for n in chk.get("gens", []) + (chk.get("gens_thorough", []) if THOROUGH else []):
            jobs.append(pool.submit(run.gen, bin_, n))
        broken = None
        for j in jobs:
            try:
                j.result()
            except Broken as e:
                broken = broken or e
        if broken and not run.viol:
            raise broken
    except Broken as e:
        print(f"ERROR property={prop}: {e}")
        shutil.rmtree(run.work, ignore_errors=True)
        sys.exit(2)
    shutil.rmtree(run.work, ignore_errors=True)
    fresh = []
    seen = {}
    for v in run.viol:
        for (p, match, text) in known():
            if p == prop and all(str(v[4].get(k)) == str(x) or v[3] == x for k, x in match.items()):
                seen[text] = seen.get(text, 0) + 1
                break
        else:
            fresh.append(v)
    for (p, match, text) in known():
        if p == prop:
            print(f"KNOWN-FINDING: property={prop} {text}")
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": run.states, "transitions": run.transitions,
            "traces_validated_against_impl": run.traces, "trace_lines": run.lines,
            "calls_by_kind": run.ops, "parts": run.parts, "samples": run.samples,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    for (group, why, f, desc, e, allowed) in fresh[:10]:
        print(f"VIOLATION property={prop} replay={f}")
        print(f"  {group}: {desc}: {why}")
        print(f"  observed {json.dumps(e)[:600]}")
        if allowed:
            print(f"  allowed  {json.dumps(allowed)[:600]}")
    print(f"{prop}: {run.traces} traces, {run.states} states, {len(fresh)} violations, {ev['wall_s']} s")
    sys.stdout.flush()
    os._exit(1 if fresh else 0)


def rejudge(f):
    first = json.loads(open(f).readline())
    spec = first["spec"]
    work = os.path.join(ROOT, "work", f"replay_{os.getpid()}")
    os.makedirs(work)
    rc, out = tlc(spec + ".tla", spec + ".cfg", work, "r", env={"TRACE": os.path.abspath(f)})
    shutil.rmtree(work, ignore_errors=True)
    v = re.findall(r'^"VIOL (.*)"$', out, re.M)
    print("\n".join(v) if v else out[-500:])
    sys.exit(1 if v else 0)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        rejudge(sys.argv[2])
    main()
