#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py PROP                 quick or thorough, as VERIF_TIER says
  check.py --replay FILE        runs one replay file and says what it shows
"""
import collections, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder

T0 = time.time()
NPROC = os.cpu_count() or 4
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
DROPPABLE = {"client", "cmd", "ctlstream", "ctlbad", "brokerset", "dnsset", "stallth", "clock", "accepterr", "netset", "partition", "sysfault", "fdlimit"}
NOISE_KEYS = ["stall", "bstall", "burst", "cap", "nprops", "legacy", "split_open", "locale", "connname"]


def props():
    return {p["id"]: p for p in (json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip())}


def signature(text):
    t = re.sub(r"'[^']*'", "''", text)
    t = re.sub(r"0x[0-9a-f]+", "#", t)
    t = re.sub(r"\d+", "#", t)
    return t


BROKEN = []   # runs in which the simulator itself failed


class Run:
    __slots__ = ("label", "wall", "r", "faults", "probes", "viol", "preempts", "err")

    def __init__(self):
        self.label, self.wall, self.r, self.faults, self.probes, self.viol, self.preempts, self.err = "", 0.0, {}, {}, {}, [], None, []


def parse(text):
    runs, cov, cur = [], set(), None
    for line in text.splitlines():
        k = line[:2]
        if k == "B ":
            BROKEN.append(line[2:])
        elif k == "S ":
            cur = Run()
            a = line.split()
            cur.label = a[1]
            cur.wall = float(a[-1].split("=")[1])
        elif k == "C ":
            cov.update(line[2:].rstrip(",").split(","))
        elif cur is None:
            continue
        elif k == "R ":
            cur.r = dict(x.split("=", 1) for x in line.split()[1:])
        elif k == "F ":
            a = line.split()
            cur.faults[a[1]] = int(a[2])
        elif k == "P ":
            a = line.rsplit(" ", 1)
            cur.probes[a[0][2:]] = int(a[1])
        elif k == "V ":
            a = line.split(" ", 2)
            cur.viol.append((a[1], a[2]))
        elif k == "L ":
            cur.preempts = line[2:].strip().rstrip(",")
        elif k == "E ":
            cur.err.append(line[2:])
        elif line == ".":
            runs.append(cur)
            cur = None
    return runs, cov


class Sim:
    def __init__(self, exe):
        self.exe = exe
        self.tmp = tempfile.mkdtemp(prefix="amqpcheck.")
        self.env = dict(os.environ, AMQPSIM_CERTS=os.path.join(VERIF, "sim", "certs"), TMPDIR=self.tmp)
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def call(self, args, timeout):
        p = subprocess.run([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, timeout=timeout, cwd=self.tmp)
        return p.stdout.decode(errors="replace")

    def batch(self, prop, first, count, secs):
        per = (count + NPROC - 1) // NPROC

        def one(w):
            return parse(self.call(["batch", prop, str(first + w), str(NPROC), str(per), str(secs)], secs + 400))
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, range(NPROC)))
        runs, cov = [], set()
        for r, c in res:
            runs += r
            cov |= c
        runs.sort(key=lambda r: int(r.label.split("=")[1]))
        return runs, cov

    def plans(self, texts):
        """runs each plan text once, in parallel, each in a fresh process"""
        def one(t):
            self.n += 1
            f = os.path.join(self.tmp, "p%d.plan" % self.n)
            with open(f, "w") as o:
                o.write(t)
            try:
                runs, _ = parse(self.call(["plans", f], 400))
            finally:
                os.unlink(f)
            return runs[0] if runs else Run()
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(one, texts))

    def gen(self, prop, seed):
        return self.call(["gen", prop, str(seed)], 60)


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("status") == "known" and d["property"] == prop:
                    out.append((re.compile(d["match"]), d))
    return out


# ------------------------------------------------------------------ minimiser
def minimise(sim, text, prop, sig, budget):
    t_end = time.time() + budget

    def fails(cands):
        rs = sim.plans(cands)
        return [any(p == prop and signature(v) == sig for p, v in r.viol) for r in rs], rs

    lines = [l for l in text.splitlines() if l and not l.startswith("#")]

    def left():
        return t_end - time.time()

    def setkv(line, k, v):
        if re.search(r"\b%s=" % k, line):
            return re.sub(r"(\s)%s=\S*" % k, r"\g<1>%s=%s" % (k, v), line)
        return line + " %s=%s" % (k, v)

    # 1. quieter environment, one knob at a time, then each accepted one stays
    runi = next(i for i, l in enumerate(lines) if l.startswith("run "))
    for knob in ({"seg": 0, "sw": 0, "sr": 0}, {"rec": 0}, {"yield": 0}, {"rpick": 0, "rready": 0}, {"preempt": 0, "pstall": 0, "upreempt": 0}, {"upreempt": 0}, {"pstall": 0}, {"latmin": 50, "latmax": 50}, {"cap": 65536}):
        if left() < 0:
            break
        l2 = list(lines)
        for k, v in knob.items():
            l2[runi] = setkv(l2[runi], k, v)
        if l2 != lines and fails(["\n".join(l2)])[0][0]:
            lines = l2

    # 2. fewer items
    def ddmin(items, test):
        n = 2
        while len(items) >= 1 and left() > 0:
            size = max(1, len(items) // n)
            chunks = [items[i:i + size] for i in range(0, len(items), size)]
            cands = [[x for x in items if x not in c] for c in chunks]
            ok = test(cands)
            hit = next((c for c, o in zip(cands, ok) if o), None)
            if hit is not None:
                items = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items
    fixed = lambda i: lines[i].split()[0] not in DROPPABLE
    drop = [i for i in range(len(lines)) if not fixed(i)]
    keep = ddmin(drop, lambda cs: fails(["\n".join(lines[i] for i in range(len(lines)) if fixed(i) or i in c) for c in map(set, cs)])[0])
    ks = set(keep)
    lines = [lines[i] for i in range(len(lines)) if fixed(i) or i in ks]
    # 3. simpler items
    for k in NOISE_KEYS:
        if left() < 0:
            break
        l2 = [re.sub(r"\s%s=\S*" % k, "", l) if l.startswith("client ") else l for l in lines]
        if l2 != lines and fails(["\n".join(l2)])[0][0]:
            lines = l2
    # 4. the preemptions that matter
    if left() > 0 and re.search(r"\su?preempt=[1-9]", lines[0] if lines[0].startswith("run ") else lines[runi]):
        r = sim.plans(["\n".join(lines)])[0]
        if r.preempts and len(r.preempts) < 60000:
            base = list(lines)
            base[runi] = setkv(setkv(base[runi], "preempt", 0), "upreempt", 0)
            pl = r.preempts.split(",")
            mk = lambda c: "\n".join(base + ["preempts at=" + ",".join(c)])
            if fails([mk(pl)])[0][0]:
                pl = ddmin(pl, lambda cs: fails([mk(c) for c in cs])[0])
                lines = mk(pl).split("\n")
    return "\n".join(lines) + "\n"


def report(sim, prop, run_label, text, sig, what, budget):
    """confirm, minimise, write the replay file. Returns path or None."""
    def agree(t):
        a, b = sim.plans([t, t])
        ok = all(any(p == prop and signature(v) == sig for p, v in r.viol) for r in (a, b)) and a.r.get("hash") == b.r.get("hash")
        return ok, a
    ok, a = agree(text)
    if not ok:
        return None
    best, ar = text, a
    try:
        m = minimise(sim, text, prop, sig, budget)
        ok, b = agree(m)
        if ok:
            best, ar = m, b
    except Exception as e:  # a minimiser problem must not hide the violation
        print("minimiser: %r" % e, file=sys.stderr)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s-%s.plan" % (prop, run_label.replace("=", ""), hashlib.sha1(sig.encode()).hexdigest()[:8]))
    texts = [v for p, v in ar.viol if p == prop and signature(v) == sig]
    with open(f, "w") as o:
        o.write("# property %s, found with %s\n# violation: %s\n# trace hash: %s\n" % (prop, run_label, texts[0], ar.r.get("hash")))
        for e in ar.err[:25]:
            o.write("# | %s\n" % e)
        o.write(best)
    return f


def replay(path):
    exe = builder.build()
    sim = Sim(exe)
    try:
        body = open(path).read()
        prop = re.search(r"^run .*?\bprop=(\S+)", body, re.M).group(1)
        want = re.search(r"^# violation: (.*)$", body, re.M)
        wh = re.search(r"^# trace hash: (\S+)$", body, re.M)
        r = sim.plans([body])[0]
        for p, v in r.viol:
            print("%s: %s" % (p, v))
        for e in r.err:
            print("  | " + e)
        print("trace hash %s%s" % (r.r.get("hash"), "" if not wh else " (recorded %s)" % wh.group(1)))
        if any(p == prop for p, v in r.viol):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        sim.close()


TIERS = {"quick": (3600, 38, 60), "thorough": (400000, 1500, 300)}   # seeds, seconds, seconds for the minimiser


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in TIERS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    count, secs, mini = TIERS[tier]
    if os.environ.get("CHECK_SECS"):
        secs = float(os.environ["CHECK_SECS"])
    exe = builder.build()
    t_build = time.time() - T0
    sim = Sim(exe)
    try:
        kn = known(prop)
        # plans kept from earlier findings run first, on every change
        corpus = sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.plan")))
        ctexts = [open(f).read() for f in corpus]
        cruns = sim.plans(ctexts) if corpus else []
        for f, r in zip(corpus, cruns):
            r.label = "corpus=" + os.path.basename(f)[:-5]
        first = (seed * 1000003) % (1 << 40)
        t1 = time.time()
        runs, cov = sim.batch(prop, first, count, secs)
        t_sim = time.time() - t1
        if not runs:
            print("no simulated run finished", file=sys.stderr)
            return 2
        everything = cruns + runs
        bysig = collections.OrderedDict()
        knownHits = collections.Counter()
        for r in everything:
            for p, v in r.viol:
                if p != prop:
                    continue
                k = next((d for rx, d in kn if rx.search(v)), None)
                if k:
                    knownHits[k["id"]] += 1
                    continue
                bysig.setdefault(signature(v), []).append((r, v))
        # determinism: a sample of seeds must give the same trace again
        again = [r for r in runs if not r.viol][:: max(1, len(runs) // (16 if tier == "quick" else 200))][: 16 if tier == "quick" else 200]
        re2 = sim.plans([sim.gen(prop, int(r.label.split("=")[1])) for r in again])
        diverged = [a.label for a, b in zip(again, re2) if a.r.get("hash") != b.r.get("hash")]
        out = []
        unconfirmed = []
        t_rep = time.time()
        for sig, hits in bysig.items():
            if len(out) >= 2 or (out and time.time() - t_rep > mini):
                break
            hits.sort(key=lambda h: float(h[0].r.get("simtime", 0) or 0))
            path = None
            for r, v in hits[:4]:
                k, lab = r.label.split("=")
                text = sim.gen(prop, int(lab)) if k == "seed" else open(os.path.join(VERIF, "corpus", prop, lab + ".plan")).read()
                path = report(sim, prop, r.label, text, sig, v, mini if not out else mini / 3)
                if path:
                    break
            if path:
                out.append((path, hits[0][1], len(hits)))
            else:
                unconfirmed.append((hits[0][1], [h[0].label for h in hits[:5]]))
        write_evidence(prop, tier, seed, everything, runs, cov, t_build, t_sim, knownHits, out, diverged, len(again), count, sim)
        for k in kn:
            d = k[1]
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
        for path, what, n in out:
            print("violated (%d runs): %s" % (n, what))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if out:
            return 1
        if unconfirmed:
            for v, labs in unconfirmed:
                print("unreproducible: %s (%s)" % (v, ",".join(labs)), file=sys.stderr)
            return 2
        if len(BROKEN) > 1 + len(runs) // 200:
            print("%d runs failed in the simulator itself: %s" % (len(BROKEN), BROKEN[:5]))
            return 2
        print("%s held on %d simulated runs (%d distinct traces), %.0f s build, %.0f s simulation" %
              (prop, len(everything), len({r.r.get("hash") for r in everything}), t_build, t_sim))
        return 0
    finally:
        sim.close()


def write_evidence(prop, tier, seed, everything, runs, cov, t_build, t_sim, knownHits, out, diverged, rechecked, asked, sim):
    faults, probes = collections.Counter(), collections.Counter()
    simtime = 0.0
    blocks = switches = preempts = stalls = syscalls = conns = 0
    traces = set()
    nontrivial = set()
    for r in everything:
        for k, v in r.faults.items():
            faults[k] += v
        for k, v in r.probes.items():
            probes[k] += v
        g = lambda k: float(r.r.get(k, 0) or 0)
        simtime += g("simtime")
        blocks += int(g("blocks")); switches += int(g("switches")); preempts += int(g("preempts"))
        stalls += int(g("midstalls")); syscalls += int(g("syscalls")); conns += int(g("conns"))
        h = r.r.get("hash")
        traces.add(h)
        if r.probes:
            nontrivial.add(h)
    sample = []
    for r in runs[:1] + runs[len(runs) // 2:len(runs) // 2 + 1]:
        sample.append({"run": r.label, "result": r.r, "faults": r.faults, "probes": r.probes, "plan": sim.gen(prop, int(r.label.split("=")[1])).splitlines()[:60]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - T0, 1), "violations": len(out),
        "coverage": {
            "evaluations": len(everything),
            "distinct_nontrivial": len(nontrivial),
            "rule": "one evaluation is one simulated execution of the whole proxy under a generated plan (configuration, clients, commands, faults, schedule). "
                    "Two are distinct when the hash of their complete event trace (every scheduling decision, system call and observed event) differs; "
                    "one is non-trivial when the property's oracle compared at least one obligation in it (a probe fired).",
            "samples": sample,
            "seeds_requested": asked,
            "simulated_runs_per_hour": int(len(everything) / max(0.1, t_sim) * 3600),
            "simulated_seconds": round(simtime, 1),
            "distinct_traces": len(traces),
            "thread_switches": switches, "preemptions_inside_code": preempts, "thread_stalls_inside_code": stalls,
            "instrumented_blocks_executed": blocks, "system_calls_simulated": syscalls, "connections_simulated": conns,
            "code_blocks_reached": len(cov),
            "faults_injected": dict(sorted(faults.items())),
            "oracle_probes": dict(sorted(probes.items())),
            "determinism_recheck": {"runs": rechecked, "diverged": diverged},
            "known_finding_hits": dict(knownHits),
            "build_s": round(t_build, 1), "simulation_s": round(t_sim, 1),
            "real_components": "all of libamqpprox and the amqpprox executable's main, boost.asio, boost.log, OpenSSL, protobuf, compiled from /repo's working tree with AddressSanitizer",
            "stub_components": "operating system calls (threads, futexes, mutexes, clocks, timers, epoll, sockets, DNS, hostname, randomness), AMQP clients and brokers, HTTP authentication service, control-socket users, statsd sink",
        },
        "assumptions": [
            "one simulated processor: the threads of the proxy interleave at system calls, lock operations and instrumented basic blocks, without hardware memory reordering",
            "TCP is modelled as reliable byte streams with latency, segmentation, bounded windows, FIN and RST",
            "log files are written to a real scratch directory",
        ],
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(os.path.join(d, prop + ".json.tmp"), os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
