"""Machinery shared by all checks: building the drivers from /repo's working
tree, running them, validating their traces with TLC, reporting."""
import atexit, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
LEVELS = {}


# variants of the library beyond its default configuration
VARIANTS = {"tail": ["-DCMAKE_CXX_COMPILER=clang++", "-DLA_TAILCALL_DISPATCH=ON"]}


class Broken(Exception):
    """the check itself cannot give an answer"""


def sh(cmd, timeout=None, env=None, cwd=None, stdout=None):
    """run in its own process group; returns (rc, output); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


def known_findings():
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known


class Check:
    def __init__(self, pid, tier, level, seed):
        self.pid, self.tier, self.level, self.seed = pid, tier, level, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif_{pid}_", dir=os.environ.get("VERIF_TMP", "/tmp"))
        atexit.register(shutil.rmtree, self.work, True)
        self.states = self.transitions = self.traces = self.events = self.skipped = 0
        self.cover, self.samples, self.runs = {}, [], {}
        self.violations, self.known_hit = [], {}
        self.models = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.known = [k for k in known_findings() if k[0] == pid]

    # ------------------------------------------------------------ building
    def build(self, variant, *drivers):
        d = os.path.join(VERIF, "build", variant)
        os.makedirs(d, exist_ok=True)
        rc, out = sh(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", f"-DVARIANT={variant}",
                      f"-DREPO={REPO}", "-DCMAKE_BUILD_TYPE=", *VARIANTS.get(variant, [])], 120)
        if rc == 0:
            rc, out = sh(["ninja", "-C", d, *drivers], 600)
        if rc != 0:
            raise Broken("build failed:\n" + out[-4000:])
        self.bin = getattr(self, "bin", {})
        for x in drivers:
            self.bin[x if variant == "asan" else x + "@" + variant] = os.path.join(d, x)
            if variant == "plain":
                self.bin.setdefault(x, os.path.join(d, x))

    # ------------------------------------------------------------ TLC
    def tlc(self, spec, cfg=None, env=None, timeout=600, args=(), heap="3g", workers=1):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cfg = cfg or spec.replace(".tla", ".cfg")
        cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               f"-Djava.io.tmpdir={meta}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, *args, "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, spec)]
        e = dict(os.environ)
        e.update(env or {})
        rc, out = sh(cmd, timeout, e, cwd=SPEC)
        shutil.rmtree(meta, True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
        st = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        if not m:  # simulation mode
            m2 = re.findall(r"The number of states generated: (\d+)", out)
            if m2:
                st = (int(m2[-1]), int(m2[-1]))
        return rc, out, st

    def model(self, spec, cfg=None, timeout=600, args=(), heap="6g", workers=WORKERS, env=None, min_states=2):
        """exhaustive (or simulated) check of a specification module on its own"""
        rc, out, st = self.tlc(spec, cfg, timeout=timeout, args=args, heap=heap, workers=workers, env=env)
        if rc != 0:
            raise Broken(f"TLC rejects {cfg or spec} (rc={rc}):\n" + out[-3000:])
        with self.lock:
            self.states += st[1]
            self.transitions += st[0]
            self.models.append({"spec": spec, "cfg": cfg or spec.replace(".tla", ".cfg"), "generated": st[0], "distinct": st[1]})
        if st[0] < min_states:
            raise Broken(f"{cfg or spec}: the model explored only {st[0]} states")
        return out

    def paths(self, spec, cfg, name, timeout=600):
        """operation sequences a model prints (PATH lines), one per transition; those another one extends are left out.
        Written one per line as op key=value ...;op ... for a driver"""
        out = self.model(spec, cfg, timeout=timeout, workers=1)
        seqs = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'^"PATH (.*)"$', out, re.M)]
        lines = sorted(";".join(" ".join([o["op"]] + [f"{k}={','.join(map(str, v)) if isinstance(v, list) else v}" for k, v in sorted(o.items()) if k != "op"]) for o in s) for s in seqs)
        lines = [a for a, b in zip(lines, lines[1:] + [""]) if not b.startswith(a + ";")]
        path = os.path.join(self.work, name)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        self.runs[name + "_sequences"] = len(lines)
        return path

    # ------------------------------------------------------------ traces
    def _drive(self, driver, args, out, timeout, pre=None):
        env = dict(os.environ)
        env.setdefault("ASAN_OPTIONS", "detect_leaks=0:handle_sigfpe=0:handle_abort=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0")
        env.setdefault("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:second_deadlock_stack=1")
        cmd = [self.bin[driver], *[f"{k}={v}" for k, v in args.items()], f"out={out}"]
        rc, text = sh(cmd, timeout, env, cwd=self.work)
        return rc, text, cmd

    def _one(self, driver, args, spec, cfg, dtimeout, ttimeout, tag, keep=False):
        """returns (mismatches, info); a mismatch is a dict"""
        out = os.path.join(self.work, tag + ".ndjson")
        rc, text, cmd = self._drive(driver, args, out, dtimeout)
        info = {"cmd": " ".join(cmd), "driver": text[-6000:], "out": out}
        if rc is None:
            died = {"why": "hang", "detail": f"driver did not end within {dtimeout} s"}
            return [died], info
        if rc != 0:
            m = re.findall(r"^DIED (.*)$", text, re.M)
            s = re.findall(r"SUMMARY: (.*)", text)
            if rc == 3 or (rc == 1 and not m and not s):
                raise Broken(f"driver failed rc={rc}: {' '.join(cmd)}\n{text[-2000:]}")
            return [{"why": "host crash", "detail": f"rc={rc} while: {m[-1] if m else '?'}", "summary": s[-1] if s else ""}], info
        runs = re.findall(r"DRIVER (\w+)=(\d+)", text)
        if spec is None:
            mm = [json.loads(x) for x in re.findall(r"^MISMATCH (.*)$", text, re.M)]
            return mm, {**info, "runs": runs}
        rc, tl, st = self.tlc(spec, cfg, env={"TRACE": out}, timeout=ttimeout)
        info["tlc"] = tl
        mm = []
        for line in re.findall(r'^"MISMATCH (.*)"$', tl, re.M):
            mm.append(json.loads(json.loads('"' + line + '"')))
        val = re.findall(r'^"VALIDATED (.*)"$', tl, re.M)
        cov = re.findall(r'^"COVER (.*)"$', tl, re.M)
        if not val:
            if rc is None:
                raise Broken(f"TLC ran out of time on {tag}: {' '.join(cmd)}")
            if re.search(r"Parsing or semantic analysis failed|java\.lang\.OutOfMemory|StackOverflowError|Could not find|configuration file|cannot be found", tl):
                raise Broken("TLC failed:\n" + tl[-3000:])
            # the specification has no behaviour that explains this trace
            mm.append({"why": "trace rejected", "detail": "\n".join(l for l in tl.splitlines() if not l.startswith('"'))[-2500:]})
        info.update(st=st, runs=runs, val=json.loads(json.loads('"' + val[-1] + '"')) if val else {},
                    cov=json.loads(json.loads('"' + cov[-1] + '"')) if cov else {})
        if not keep and not mm:
            with self.lock:
                if len(self.samples) < 3:
                    with open(out) as f:
                        lines = [f.readline().strip()[:600] for _ in range(4)]
                    self.samples.append({"driver": info["cmd"].replace(self.work, "").replace(VERIF, ""), "trace_head": [x for x in lines if x][:3]})
            os.unlink(out)
        return mm, info

    def traces_of(self, jobs, dtimeout=170, ttimeout=600):
        """jobs: list of (driver, args, spec, cfg); run eight at a time"""
        def go(i_job):
            i, (driver, args, spec, cfg) = i_job
            tag = f"t{i}_{threading.get_ident() % 9973}_{time.time_ns() % 10**9}"
            mm, info = self._one(driver, args, spec, cfg, dtimeout, ttimeout, tag)
            if mm:  # only what a second run repeats counts
                mm2, info2 = self._one(driver, args, spec, cfg, dtimeout, ttimeout, tag + "r")
                if not mm2 and args.get("mode") == "threads" and mm[0].get("why") != "hang":
                    mm2 = mm  # a schedule need not come back; what was seen in one is a behaviour of the code all the same
                if not mm2:
                    raise Broken(f"not repeatable: {info['cmd']}: {mm[0]}")
                whys = {m.get("why") for m in mm2}
                mm = [m for m in mm if m.get("why") in whys] or mm2
            return mm, info
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(go, enumerate(jobs)))
        for mm, info in res:
            self.absorb(mm, info)

    def absorb(self, mm, info):
        st = info.get("st", (0, 0))
        self.states += st[1]
        self.transitions += st[0]
        self.traces += 1
        self.events += info.get("val", {}).get("events", 0)
        self.skipped += info.get("val", {}).get("skipped", 0)
        for k, v in info.get("cov", {}).items():
            self.cover[k] = self.cover.get(k, 0) + v
        for k, v in info.get("runs", []) or []:
            self.runs[k] = self.runs.get(k, 0) + int(v)
        for m in mm:
            text = json.dumps(m, sort_keys=True)
            hit = next((k for k in self.known if re.search(k[1], text)), None)
            if hit:
                self.known_hit[hit[1]] = self.known_hit.get(hit[1], 0) + 1
                continue
            self.violations.append((m, info))

    # ------------------------------------------------------------ result
    def finish(self, min_cover=None):
        for k in self.known:
            if k[1] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k[2]}")
        uncovered = [k for k in (min_cover or []) if not self.cover.get(k)]
        rc = 0
        if self.violations:
            rc = 1
            rp = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{self.pid}.txt")
            with open(path, "w") as f:
                for m, info in self.violations[:40]:
                    f.write("replay: " + info["cmd"] + "\n" + json.dumps(m) + "\n")
                    if m.get("why") in ("host crash", "hang", "trace rejected"):
                        f.write(info.get("driver", "") + "\n")
                    f.write("\n")
            m = self.violations[0][0]
            print(f"{len(self.violations)} mismatches; first: {json.dumps(m)[:1500]}")
            print(f"VIOLATION property={self.pid} replay={path}")
        elif uncovered:
            raise Broken(f"never exercised: {uncovered}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "see models"}], "events_validated": self.events, "skipped_events": self.skipped,
               "runs": self.runs, "cover": {k: v for k, v in sorted(self.cover.items()) if v}, "models": self.models}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} {self.tier}: {self.traces} traces, {self.events} events, {self.states} states, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return rc


def shards(n, driver, args, spec, cfg=None, seed=1):
    return [(driver, {**args, "seed": seed, "shard": i}, spec, cfg) for i in range(n)]
