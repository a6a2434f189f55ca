"""Seeded search over simulated runs: fork servers, minimisation, gates, replay files, evidence."""
import json, os, re, subprocess, sys, threading, time
from . import build as B

VERIF = B.VERIF
NST = 9
ST = ["ops", "forced", "preempt", "alloc", "thread", "spurious", "disk", "cl", "misc"]
PREEMPT = 2

class Res:
    __slots__ = ("done", "hash", "sync", "steps", "switches", "events", "simns", "overflow", "cls", "msg", "trace", "streams", "notes")

class Server:
    def __init__(self, exe, cpu=None):
        def pre():
            if cpu is not None:
                try:
                    os.sched_setaffinity(0, {cpu})
                except OSError:
                    pass
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C"}
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("SIM_STDERR") else None,
                                  preexec_fn=pre, env=env, cwd="/", bufsize=1 << 16)
    def _send(self, s):
        self.p.stdin.write(s.encode())
        self.p.stdin.flush()
    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
    def range(self, sc, base, a, b):
        self._send("range %s %d %d %d\n" % (sc, base, a, b))
        out = []
        while True:
            l = self.p.stdout.readline().decode()
            if l == ".\n":
                return out
            if not l or not l.startswith("R "):
                raise RuntimeError("server died: %r" % l)
            f = l.split()
            out.append((int(f[1]), int(f[2]), f[3], int(f[4]), int(f[5]), int(f[6]), int(f[7]), f[8]))
    def _result(self):
        r = Res()
        r.cls = r.msg = r.trace = r.notes = ""
        r.streams = [[] for _ in range(NST)]
        while True:
            l = self.p.stdout.readline().decode(errors="replace")
            if l == ".\n":
                return r
            if not l:
                raise RuntimeError("server died")
            k, v = l[0], l[2:].rstrip("\n")
            if k == "D":
                f = v.split()
                r.done, r.hash, r.sync = int(f[0]), f[1], f[2]
                r.steps, r.switches, r.events, r.simns, r.overflow = [int(x) for x in f[3:8]]
            elif k == "C":
                r.cls = v
            elif k == "M":
                r.msg = v.replace("\\n", "\n")
            elif k == "T":
                r.trace = v
            elif k == "S":
                f = [int(x) for x in v.split()]
                r.streams[f[0]] = f[1:]
            elif k == "N":
                n = int(v)
                r.notes = self.p.stdout.read(n).decode(errors="replace")
            else:
                raise RuntimeError("server says %r" % l)
    def seed(self, sc, seed, full=1, notes=0):
        self._send("seed %s %d %d %d\n" % (sc, seed, full, notes))
        return self._result()
    def replay(self, sc, streams, notes=0):
        o = ["clear\n"]
        for i, s in enumerate(streams):
            for k in range(0, len(s), 3000):
                o.append("load %d %s\n" % (i, " ".join(map(str, s[k:k + 3000]))))
        o.append("replay %s 0 %d\n" % (sc, notes))
        self._send("".join(o))
        return self._result()
    def probes(self):
        self._send("probes\n")
        d = {}
        while True:
            l = self.p.stdout.readline().decode()
            if l in (".\n", ""):
                return d
            n, v = l.rsplit(" ", 1)
            d[n] = int(v)

_sym = {}
def symbolise(exe, trace):
    pcs = trace.split()
    need = [p for p in pcs if (exe, p) not in _sym]
    if need:
        r = subprocess.run(["addr2line", "-Cfe", exe] + ["0x%x" % (int(p, 16) - 1) for p in need], capture_output=True, text=True)
        ls = r.stdout.split("\n")
        for i, p in enumerate(need):
            fn = ls[2 * i] if 2 * i < len(ls) else "??"
            loc = ls[2 * i + 1] if 2 * i + 1 < len(ls) else "??"
            _sym[(exe, p)] = (fn, loc)
    out = []
    for p in pcs:
        fn, loc = _sym[(exe, p)]
        if fn == "??":
            continue
        if os.path.basename(loc).startswith(("rt.cpp", "rt_int.h")):
            continue
        out.append("%s (%s)" % (fn, loc.replace(B.REPO + "/", "")))
    return out

def site(frames):
    for f in frames:
        m = re.match(r"(.*) \((.*):(\d+|\?)\)", f)
        if m and m.group(2).startswith("src/"):
            return m.group(1)
    return frames[0].split(" (")[0] if frames else "?"

class Known:
    def __init__(self, prop):
        self.items = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for e in json.load(open(p)).get("findings", []):
                if prop in e["properties"]:
                    self.items.append(e)
    def match(self, cls, msg, frames):
        for e in self.items:
            if re.fullmatch(e["class"], cls) and re.search(e.get("message", ""), msg) and re.search(e.get("site", ""), " <- ".join(frames)):
                return e
        return None

def shrink(srv, sc, res, same, budget_s):
    """res: a violating result with streams; same(result) tells whether it is the same violation."""
    t_end = time.time() + budget_s
    cur = [list(s) for s in res.streams]
    best = res
    tried = [0]
    def strip(st):
        st = [list(s) for s in st]
        for i, s in enumerate(st):
            if i == PREEMPT:
                continue
            while s and s[-1] == 0:
                s.pop()
        return st
    def size(st):
        return (sum(len(s) for s in st), sum(sum(min(v, 1 << 20) for v in s) for s in st))
    def attempt(cand):
        nonlocal cur, best
        if time.time() > t_end:
            return False
        tried[0] += 1
        r = srv.replay(sc, cand)
        if r.done == 2 and same(r):
            new = strip(r.streams)
            if size(new) < size(cur):
                cur, best = new, r
                return True
            cand = strip(cand)
            if size(cand) < size(cur):
                cur, best = cand, r
                return True
        return False
    cur = strip(cur)
    def variants(i, newlist):
        c = [list(s) for s in cur]
        c[i] = newlist
        return c
    # whole streams
    for i in (7, 6, 5, 4, 3, 2, 1, 8):
        if cur[i]:
            attempt(variants(i, []))
    improved = True
    while improved and time.time() < t_end:
        improved = False
        # preemption pairs
        pairs = [cur[PREEMPT][k:k + 2] for k in range(0, len(cur[PREEMPT]) - 1, 2)]
        n = max(1, len(pairs) // 2)
        while n >= 1 and pairs and time.time() < t_end:
            k = 0
            while k < len(pairs) and time.time() < t_end:
                gone = sum(p[0] for p in pairs[k:k + n])
                rest = [list(p) for p in pairs[k + n:]]
                if rest:
                    rest[0][0] += gone
                np = pairs[:k] + rest
                if attempt(variants(PREEMPT, [v for p in np for v in p])):
                    improved = True
                    pairs = [cur[PREEMPT][j:j + 2] for j in range(0, len(cur[PREEMPT]) - 1, 2)]
                else:
                    k += n
            n //= 2
        for i in (0, 3, 4, 5, 6, 7, 8, 1):
            n = max(1, len(cur[i]) // 2)
            while n >= 1 and time.time() < t_end:
                k = 0
                while k < len(cur[i]) and time.time() < t_end:
                    s = cur[i]
                    if attempt(variants(i, s[:k] + s[k + n:])):
                        improved = True
                    elif any(s[k:k + n]) and attempt(variants(i, s[:k] + [0] * len(s[k:k + n]) + s[k + n:])):
                        improved = True
                        k += n
                    else:
                        k += n
                n //= 2
            for k in range(len(cur[i])):
                if k >= len(cur[i]) or time.time() > t_end:
                    break
                v = cur[i][k]
                for nv in (0, 1, v // 2, v - 1):
                    if k < len(cur[i]) and 0 <= nv < cur[i][k]:
                        s = list(cur[i])
                        s[k] = nv
                        if attempt(variants(i, s)):
                            improved = True
    return cur, best, tried[0]

def explore(prop, cfg, tier, seed):
    """cfg: dict(target, scenarios=[(name, weight)], quick_s, thorough_s, arch...). Returns exit status."""
    t0 = time.time()
    exes = {}
    flags = open("/proc/cpuinfo").read()
    cfg["scenarios"] = [sc for sc in cfg["scenarios"] if sc.get("arch") != "haswell" or all(re.search(r"\b%s\b" % f, flags) for f in ("avx2", "bmi2", "fma"))]
    for sc in cfg["scenarios"]:
        key = (sc.get("target", cfg.get("target")), sc.get("arch", "native"))
        if key not in exes:
            exes[key] = B.build(*key)
        sc["exe"] = exes[key]
    t_build = time.time() - t0
    for sc in cfg["scenarios"]:
        if cfg.get("prepare"):
            cfg["prepare"](sc)
    budget = cfg.get("quick_s", 40) if tier == "quick" else cfg.get("thorough_s", 600)
    maxruns = cfg.get("quick_runs", 10 ** 9) if tier == "quick" else 10 ** 9
    known = Known(prop)
    lock = threading.Lock()
    stat = dict(runs=0, steps=0, switches=0, simns=0, faults=0, faulty=0, switched=0, internal=[])
    distinct = set()
    samples = []
    cand = {}   # (scenario, cls) -> [seeds]
    stop = threading.Event()
    counters = [0] * len(cfg["scenarios"])
    perscn = {}
    cpus = sorted(os.sched_getaffinity(0))
    nw = min(8, len(cpus))
    probes = {}
    errors = []
    t_start = time.time()
    t_end = t_start + budget
    base = (seed * 1000003 + int(re.sub(r"\D", "", prop))) & 0xFFFFFFFF
    weights = [sc.get("weight", 1) for sc in cfg["scenarios"]]
    def worker(wi):
        servers = {}
        try:
            turn = wi
            spent = [1e-9] * len(weights)
            while not stop.is_set() and time.time() < t_end and stat["runs"] < maxruns:
                # share the time between the scenarios according to their weights
                si = min(range(len(weights)), key=lambda i: spent[i] / weights[i])
                sc = cfg["scenarios"][si]
                if sc["exe"] not in servers:
                    servers[sc["exe"]] = Server(sc["exe"], cpus[wi % len(cpus)])
                srv = servers[sc["exe"]]
                n = sc.get("chunk", 40)
                with lock:
                    a = counters[si]
                    counters[si] += n
                tt = time.time()
                rs = srv.range(sc["name"], base, a, a + n)
                spent[si] += time.time() - tt
                with lock:
                    for (sd, done, sync, steps, sw, ns, fl, cls) in rs:
                        stat["runs"] += 1
                        pk = sc["name"] + (" on " + sc["arch"] if "arch" in sc else "")
                        perscn[pk] = perscn.get(pk, 0) + 1
                        stat["steps"] += steps
                        stat["switches"] += sw
                        stat["simns"] += ns + steps * 10
                        stat["faults"] += fl
                        stat["faulty"] += fl > 0
                        stat["switched"] += sw > 1
                        if sw > 1 or fl > 0:
                            distinct.add((si, sync))
                        if len(samples) < 6 and stat["runs"] % 37 == 1:
                            samples.append(dict(scenario=sc["name"], seed=sd, events=steps, switches=sw, faults=fl, outcome=cls if done != 1 else "ok"))
                        if done == 2:
                            cand.setdefault((si, cls), []).append(sd)
                            if not known.items or len(cand[(si, cls)]) < 2:
                                pass
                        elif done != 1:
                            stat["internal"].append((sc["name"], sd, cls))
                    if cand and not known.items:
                        stop.set()
                    if len(stat["internal"]) > 20:
                        stop.set()
        except Exception as e:
            errors.append(repr(e))
            stop.set()
        finally:
            for s in servers.values():
                try:
                    for k, v in s.probes().items():
                        with lock:
                            probes[k] = probes.get(k, 0) + v
                except Exception:
                    pass
                s.close()
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(nw)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    explore_s = time.time() - t_start

    status = 0
    nviol = 0
    knownhit = {}
    lines = []
    for (si, cls), seeds in sorted(cand.items()):
        sc = cfg["scenarios"][si]
        srv = Server(sc["exe"], cpus[0])
        reported = False
        for sd in seeds[:40]:
            if reported and not known.items:
                break
            r1 = srv.seed(sc["name"], sd)
            r2 = srv.seed(sc["name"], sd)
            if (r1.hash, r1.cls, r1.done) != (r2.hash, r2.cls, r2.done) or r1.done != 2:
                errors.append("seed %d of %s is not repeatable: %s/%s %s/%s" % (sd, sc["name"], r1.cls, r1.hash, r2.cls, r2.hash))
                break
            fr = symbolise(sc["exe"], r1.trace)
            e = known.match(r1.cls, r1.msg, fr)
            if e:
                knownhit[e["id"]] = knownhit.get(e["id"], 0) + 1
                continue
            if reported:
                continue
            reported = True
            def same(r):
                if r.cls != r1.cls:
                    return False
                return not known.items or known.match(r.cls, r.msg, symbolise(sc["exe"], r.trace)) is None
            cur, best, tried = shrink(srv, sc["name"], r1, same, cfg.get("shrink_s", 25))
            fin = srv.replay(sc["name"], cur, 1)
            fresh = Server(sc["exe"], cpus[-1])
            fin2 = fresh.replay(sc["name"], cur)
            fresh.close()
            if fin.done != 2 or fin2.done != 2 or fin.hash != fin2.hash or fin.cls != r1.cls:
                # fall back to the unminimised run
                cur = r1.streams
                fin = srv.replay(sc["name"], cur, 1)
                fresh = Server(sc["exe"], cpus[-1])
                fin2 = fresh.replay(sc["name"], cur)
                fresh.close()
                if fin.done != 2 or fin.hash != fin2.hash:
                    errors.append("violation of %s with seed %d does not replay in a fresh process" % (sc["name"], sd))
                    break
            fr = symbolise(sc["exe"], fin.trace)
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (prop, re.sub(r"\W", "_", cls), sd))
            json.dump(dict(property=prop, scenario=sc["name"], target=sc.get("target", cfg.get("target")), arch=sc.get("arch", "native"), seed=sd,
                           violation=fin.cls, message=fin.msg, backtrace=fr, hash=fin.hash, events=fin.steps, switches=fin.switches,
                           streams={ST[i]: cur[i] for i in range(NST)}, trace=fin.notes.split("\n")), open(path, "w"), indent=1)
            nviol += 1
            status = 1
            lines.append("%s in %s: %s" % (fin.cls, sc["name"], fin.msg.split("\n")[0]))
            for f in fr[:8]:
                lines.append("    " + f)
            lines.append("  minimised in %d replays to %s" % (tried, {ST[i]: len(cur[i]) for i in range(NST) if cur[i]}))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        srv.close()
        if status == 1 and not known.items:
            break
    for e in known.items:
        if e.get("always") or knownhit.get(e["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    wall = time.time() - t0
    fault_counts = {k[6:]: v for k, v in sorted(probes.items()) if k.startswith("fault.")}
    reach = {k[6:]: v for k, v in sorted(probes.items()) if k.startswith("probe.")}
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"), wall_s=round(wall, 2), violations=nviol,
              assumptions=cfg.get("assumptions", []),
              coverage=dict(evaluations=stat["runs"], distinct_nontrivial=len(distinct),
                            rule="one evaluation is one simulated run of a generated workload under a generated schedule and fault sequence, all derived from one seed; "
                                 "distinct: different hash over the sequence of (thread, synchronisation or workload event); non-trivial: at least two context switches or one injected fault",
                            samples=samples or [dict(note="no run")],
                            runs_per_scenario=perscn, seeds_per_hour=int(stat["runs"] / max(explore_s, 1e-6) * 3600),
                            simulated_events=stat["steps"], context_switches=stat["switches"], simulated_seconds=round(stat["simns"] / 1e9, 3),
                            runs_with_context_switches=stat["switched"], runs_with_faults=stat["faulty"],
                            faults_injected=fault_counts, conditions_reached=reach, build_s=round(t_build, 1), explore_s=round(explore_s, 1), workers=nw,
                            real_components=cfg.get("real", []), simulated_components=cfg.get("stub", []), known_findings_hit=knownhit,
                            internal_limits_hit=len(stat["internal"])))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    if status == 0:
        if errors:
            print("ERROR: " + "; ".join(errors[:5]))
            return 2
        if stat["internal"]:
            print("ERROR: %d runs hit a limit of the simulator: %s" % (len(stat["internal"]), stat["internal"][:5]))
            return 2
        if stat["runs"] == 0:
            print("ERROR: no run")
            return 2
        print("%s: %d runs, %d distinct non-trivial, %d switches, faults %s, %.1f s" % (prop, stat["runs"], len(distinct), stat["switches"], fault_counts, wall))
    elif errors:
        print("note: " + "; ".join(errors[:5]))
    return status

def replay_file(path):
    d = json.load(open(path))
    exe = B.build(d["target"], d.get("arch", "native"))
    srv = Server(exe, sorted(os.sched_getaffinity(0))[0])
    r = srv.replay(d["scenario"], [d["streams"][s] for s in ST], 1)
    srv.close()
    print(r.notes)
    if r.done == 2:
        print("%s: %s" % (r.cls, r.msg))
        for f in symbolise(exe, r.trace):
            print("    " + f)
        print("hash %s %s" % (r.hash, "(as recorded)" if r.hash == d["hash"] else "(recorded: %s)" % d["hash"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation (the code has changed since the file was recorded)")
    return 0
