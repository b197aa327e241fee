"""Machinery shared by all checks: build a driver against /repo's working tree, run TLC on
a specification, replay its behaviours, validate recorded traces, report, write evidence."""
import json, os, re, shutil, subprocess, sys, time, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GONOSUMDB="*",
             GOFLAGS="-mod=mod", GONOSUMCHECK="1")
    return e


class Check:
    def __init__(self, pid, tier, seed=None, replay=None):
        self.id, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.violations, self.known_hit = [], []
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.cov, self.assumptions = [], {}, []
        self.models = []
        self.race_half = False
        self.known = load_known(pid)
        self.replay = replay
        self._n = 0

    def log(self, *a):
        print("[%s %.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, driver, tags="verif", race=False):
        """Build /verif/drivers/<driver> (package main) inside /repo's module by overlay."""
        rep = {}
        for d in ("vt", "vtm", "vtj", "vtx", "vtq", driver):
            src = os.path.join(VERIF, "drivers", d)
            if not os.path.isdir(src):
                continue
            for f in sorted(os.listdir(src)):
                if f.endswith(".go"):
                    rep[os.path.join(REPO, "internal", "verifdrv", d, f)] = os.path.join(src, f)
        if not os.path.exists(os.path.join(REPO, "go.mod")):
            rep[os.path.join(REPO, "go.mod")] = "/opt/vp/mod/go.mod"
        ov = os.path.join(self.work, "overlay-%s.json" % driver)
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        # a private copy of the module file: the go command may rewrite it
        gm = os.path.join(self.work, "gomod")
        if not os.path.isdir(gm):
            shutil.copytree(os.path.join(VERIF, "gomod"), gm)
        out = os.path.join(self.work, driver + ".bin")
        cmd = ["go", "build", "-modfile", os.path.join(gm, "go.mod"), "-overlay", ov, "-tags", tags, "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./internal/verifdrv/" + driver)
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("building driver %s failed:\n%s" % (driver, r.stdout[-4000:]))
        return out

    def build_cmd(self, name, ldflags=""):
        """Build one of /repo's own programs."""
        gm = os.path.join(self.work, "gomod")
        if not os.path.isdir(gm):
            shutil.copytree(os.path.join(VERIF, "gomod"), gm)
        ov = os.path.join(self.work, "overlay-cmd.json")
        rep = {}
        if not os.path.exists(os.path.join(REPO, "go.mod")):
            rep[os.path.join(REPO, "go.mod")] = "/opt/vp/mod/go.mod"
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        out = os.path.join(self.work, "cmd-" + name)
        r = subprocess.run(["go", "build", "-modfile", os.path.join(gm, "go.mod"), "-overlay", ov, "-ldflags", ldflags, "-o", out, "./cmd/" + name],
                           cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("building cmd/%s failed:\n%s" % (name, r.stdout[-4000:]))
        return out

    # ---------------------------------------------------------------- drivers
    def run(self, binary, name, mode="", scn=None, n=None, timeout=300, env=None, only=None):
        """Run a driver. Returns the trace file. Crashes of the code under test are reported."""
        self._n += 1
        out = os.path.join(self.work, "%s.%d.ndjson" % (name, self._n))
        e = goenv()
        e.update(VERIF_OUT=out, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, VERIF_MODE=mode,
                 TMPDIR=self.work)
        if scn:
            e["VERIF_SCN"] = scn
        if n is not None:
            e["VERIF_N"] = str(n)
        if only:
            e["VERIF_ONLY"] = only
        elif self.replay and self.replay.get("ep"):
            e["VERIF_ONLY"] = self.replay["ep"]
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e.update(env or {})
        err = out + ".err"
        with open(err, "w") as ef:
            p = subprocess.Popen([binary], cwd=self.work, env=e, stdout=ef, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError("driver %s %s did not finish in %d s (in flight: %s)" %
                                 (name, mode, timeout, self._inflight(out)))
        if rc == 0 and os.path.exists(out + ".done"):
            return out
        text = open(err, errors="replace").read()
        where = race_site(text, self.race_half) if rc == 66 else ""
        if where:
            self.violation("race " + where, {"driver": name, "mode": mode, "ep": (self._inflight(out) or [""])[0],
                                             "where": where, "report": text[-6000:]}, "data race: " + where)
            return None
        where = crash_site(text)
        if where and "DRIVER-ERROR" not in text:
            infl = self._inflight(out)
            if only is None:
                # reproduce it, episode by episode, before believing it
                until = time.time() + 100
                for ep in infl[:12]:
                    for _ in range(3):
                        if time.time() > until:
                            break
                        try:
                            self.run(binary, name, mode, scn, n, timeout, env, only=ep)
                        except Crash as c:
                            self.violation("crash", {"driver": name, "mode": mode, "ep": ep, "where": c.where,
                                                     "what": c.what, "stack": c.stack},
                                           "%s crashes: %s" % (c.where, c.what))
                            self._crashed = True
                            return None
                m = re.search(r"^(panic: |fatal error: concurrent map).*$", text, re.M)
                if not m:
                    raise CheckError("crash in %s, not reproduced:\n%s" % (where, text[-3000:]))
                # a race the scheduler did not offer again; the stack is proof enough
                self.violation("crash", {"driver": name, "mode": mode, "ep": (infl or [""])[0], "where": where,
                                         "what": m.group(0), "stack": text[-6000:]},
                               "%s crashes: %s" % (where, m.group(0)))
                return None
            m = re.search(r"^(panic|fatal error): (.*)$", text, re.M)
            raise Crash(where, m.group(0) if m else "crash", text[-6000:])
        raise CheckError("driver %s %s failed (exit %s):\n%s" % (name, mode, rc, text[-3000:]))

    def _inflight(self, out):
        b, e = [], set()
        try:
            for l in open(out + ".begin"):
                if l.startswith("B "):
                    b.append(l[2:].strip())
                elif l.startswith("E "):
                    e.add(l[2:].strip())
        except OSError:
            pass
        return [x for x in b if x not in e]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=300, args=(), heap="3g", expect_violation=False):
        self._n += 1
        d = os.path.join(self.work, "tlc%d" % self._n)
        os.makedirs(d)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC" if (workers or 1) > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers or 1),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "M.cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        e["TMPDIR"] = d
        logf = os.path.join(d, "log")
        with open(logf, "w") as lf:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError("TLC on %s did not finish in %d s" % (module, timeout))
        text = open(logf, errors="replace").read()
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", text)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return rc, text, gen, dist

    def model(self, module, cfg, what="", workers=None, timeout=300, scenarios=False, heap="3g", args=(), cap=None, must_cover=True):
        """Check a bounded instance exhaustively. With scenarios, collect what Emit printed."""
        if self.replay and not scenarios:
            return None
        rc, text, gen, dist = self.tlc(module, cfg, workers=1 if scenarios else (workers or NCPU), timeout=timeout,
                                       heap=heap, args=(["-coverage", "60"] if False else []) + list(args))
        if rc != 0 or "Model checking completed. No error has been found" not in text:
            raise CheckError("TLC on %s (exit %s):\n%s" % (module, rc, tail(text)))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "what": what, "distinct_states": dist, "transitions": gen})
        self.log("model %s %s: %d distinct states, %d transitions, no error" % (module, what, dist, gen))
        if not scenarios:
            return None
        path = os.path.join(self.work, "%s-%d.scn" % (module, len(self.models)))
        seen, k = set(), 0
        lines = []
        for l in text.splitlines():
            if l.startswith('"SCN '):
                s = json.loads(l)[4:]
                if s not in seen:
                    seen.add(s)
                    lines.append(s)
        if cap and len(lines) > cap:
            import random
            r = random.Random(self.seed)
            lines = r.sample(lines, cap)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        if not lines:
            raise CheckError("%s generated no scenario" % module)
        self.log("%d scenarios generated by %s" % (len(lines), module))
        self.samples.append({"generated_scenario": json.loads(lines[len(lines) // 2])})
        self.cov["scenarios_generated"] = self.cov.get("scenarios_generated", 0) + len(lines)
        return path

    def design_flaw(self, module, cfg, expect, timeout=300, heap="3g"):
        """Run a deliberately weakened design and insist that TLC finds the flaw (guards against vacuity)."""
        if self.replay:
            return
        rc, text, gen, dist = self.tlc(module, cfg, workers=NCPU, timeout=timeout, heap=heap)
        if expect not in text:
            raise CheckError("TLC did not find the expected flaw %r in weakened %s:\n%s" % (expect, module, tail(text)))
        self.cov.setdefault("weakened_designs_rejected", []).append("%s: %s" % (module, expect))
        self.states += dist
        self.transitions += gen

    # ---------------------------------------------------------------- traces
    def validate(self, module, trace, invariants=(), constants="", what="", timeout=600, par=None, key=None, heap="3g",
                 min_eps=1, confirm=None):
        """Validate every episode of a trace file against module. confirm(ep) reruns one episode and returns
        its new trace file: only what is rejected again is reported (for timing-dependent episodes)."""
        if trace is None:
            return
        eps = [json.loads(l) for l in open(trace) if l.strip()]
        if not self.replay and len(eps) < min_eps:
            raise CheckError("only %d episodes recorded for %s" % (len(eps), module))
        rej = self._validate(module, eps, invariants, constants, timeout, par, heap)
        self.traces += len(eps)
        self.events += sum(len(e["ev"]) for e in eps)
        if eps:
            small = min(eps, key=lambda e: abs(len(e["ev"]) - 8))
            s = json.dumps(small)
            self.samples.append({"trace_validated": small} if len(s) < 3000 else {"trace_validated": s[:3000]})
        self.log("validated %d episodes (%d events) against %s: %d rejected" %
                 (len(eps), sum(len(e["ev"]) for e in eps), module, len(rej)))
        for i, pos in rej:
            e = eps[i]
            bad = e["ev"][pos - 1] if pos - 1 < len(e["ev"]) else {"op": "end"}
            if confirm is not None and not self.replay:
                ok = False
                for _ in range(3):
                    t2 = confirm(e["ep"])
                    if t2 is None:
                        ok = True
                        break
                    eps2 = [json.loads(l) for l in open(t2) if l.strip()]
                    if self._validate(module, eps2, invariants, constants, timeout, par, heap):
                        ok = True
                        break
                if not ok:
                    self.log("rejection of %s at event %d not confirmed: %s" % (e["ep"], pos, json.dumps(bad)[:300]))
                    self.cov["unconfirmed_rejections"] = self.cov.get("unconfirmed_rejections", 0) + 1
                    continue
            k = (key(e, pos, bad) if key else "%s %s" % (e["ep"], bad.get("op")))
            self.violation(k, {"module": module, "ep": e["ep"], "cfg": e["cfg"], "rejected_at": pos,
                               "rejected_event": bad, "events": e["ev"]},
                           "%s: episode %s, event %d/%d not allowed: %s" %
                           (module, e["ep"], pos, len(e["ev"]), json.dumps(bad)[:400]))
            if len(self.violations) >= 4:
                break

    def _validate(self, module, eps, invariants, constants, timeout, par, heap):
        if not eps:
            return []
        par = par or min(NCPU, max(1, sum(len(e["ev"]) + 1 for e in eps) // 4000 + 1))
        chunks = [list(range(i, len(eps), par)) for i in range(par)]
        chunks = [c for c in chunks if c]
        cfg = "SPECIFICATION TSpec\nCONSTRAINT Mark\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        cfg += constants

        def one(arg):
            n, idx = arg
            f = os.path.join(self.work, "chunk-%s-%d-%d.ndjson" % (module, self._n, n))
            with open(f, "w") as o:
                for i in idx:
                    o.write(json.dumps(eps[i]) + "\n")
            return idx, self.tlc(module, cfg, env={"TRACE": f}, timeout=timeout, heap=heap)

        self._n += 1
        rej = []
        with ThreadPoolExecutor(len(chunks)) as ex:
            for idx, (rc, text, gen, dist) in ex.map(one, enumerate(chunks)):
                pos = {}
                for m in re.finditer(r'<<"EP", (\d+), (\d+), (\d+)>>', text):
                    pos[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
                if len(pos) != len(idx) or "Error:" in text:
                    raise CheckError("TLC on %s (exit %s):\n%s" % (module, rc, tail(text)))
                self.states += dist
                self.transitions += gen
                for j, i in enumerate(idx):
                    got, want = pos[j + 1]
                    if got < want:
                        rej.append((i, got))
        return sorted(rej)

    # ---------------------------------------------------------------- verdicts
    def violation(self, key, detail, text):
        key = "%s" % key
        for rx, line in self.known:
            if re.search(rx, key):
                if line not in self.known_hit:
                    self.known_hit.append(line)
                return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.id, len(self.violations)))
        detail = dict(detail, property=self.id, tier=self.tier, seed=self.seed, key=key, text=text)
        with open(p, "w") as f:
            json.dump(detail, f, indent=1)
        self.violations.append(p)
        print("  " + text[:1500])
        print("VIOLATION property=%s replay=%s" % (self.id, p), flush=True)

    def finish(self):
        for rx, line in self.known:
            # a listed finding is announced whether or not this run's sampling met it
            print("KNOWN-FINDING: property=%s %s" % (self.id, line))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:6] or ["none"], "models": self.models}
        cov.update(self.cov)
        ev = {"property": self.id, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if not self.replay:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        self.log("%d states, %d traces, %d events, %d violations" %
                 (self.states, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0

    def clean(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


class Crash(Exception):
    def __init__(self, where, what, stack):
        self.where, self.what, self.stack = where, what, stack


def crash_site(text):
    """The innermost function of the code under test of a Go crash, if it comes before any driver code."""
    m = re.search(r"^(panic|fatal error): ", text, re.M)
    if not m:
        return ""
    for l in text[m.start():].splitlines()[1:]:
        if l.startswith("created by"):
            l2 = l[len("created by "):]
            if l2.startswith("code.cloudfoundry.org/log-cache/") and "/verifdrv/" not in l2:
                return l2.split(" in goroutine")[0]
            return ""
        if "/internal/verifdrv/" in l:
            return ""
        if l.startswith("code.cloudfoundry.org/log-cache/"):
            return l.rsplit("(", 1)[0]
    return ""


def race_site(text, half=False):
    """Both accesses of a data race, if both are made by the code under test (half: at least one, the
    other being the driver's reading of what the code under test answered)."""
    if "WARNING: DATA RACE" not in text:
        return ""
    res = []
    for blk in re.findall(r"(?:^|\n)(?:Previous )?(?:[Rr]ead|[Ww]rite) at .*?:\n((?:  .*\n)+)", text):
        for l in blk.splitlines():
            f = l.strip()
            if "/verifdrv/" in f or f.startswith("main."):
                if half:
                    res.append("")
                    break
                return ""
            if f.startswith("code.cloudfoundry.org/log-cache/"):
                res.append(f.rsplit("(", 1)[0][len("code.cloudfoundry.org/log-cache/"):])
                break
        else:
            return ""
    if not any(res[:2]):
        return ""
    return " / ".join(x or "reader of the answer" for x in res[:2])


def tail(text, n=3500):
    t = [l for l in text.splitlines() if not re.match(r"^(Semantic proc|Linting|Parsing file|\"SCN )", l)]
    return "\n".join(t)[-n:]


def load_known(pid):
    """known-findings.txt: lines 'known: property=<id> match=/<regex>/ <what fails>' (and 'fixed: ...', which
    suppress nothing)."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res
