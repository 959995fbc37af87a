#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Objects are keyed by the hash of everything that can influence them (all
headers, flags, the source itself), so a stale object is never linked.
Usage: build.py            -> prints the path of the simulator binary
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, shutil, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
DEFS = ["-DNDEBUG", "-DBOOST_ALL_NO_LIB"] + ["-DBOOST_%s_DYN_LINK" % m for m in
        "ATOMIC CHRONO FILESYSTEM LOG LOG_SETUP REGEX SYSTEM THREAD TIMER".split()]
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-fPIE"]
REPO_FLAGS = COMMON + DEFS + ["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc"]
HARN_FLAGS = COMMON + ["-O1", "-fno-builtin-memcpy"]
LIBS = ("-lboost_program_options -lboost_log -lboost_log_setup -lboost_thread -lboost_timer "
        "-lboost_chrono -lboost_filesystem -lboost_system -lssl -lcrypto -lprotobuf -lz -ldl -lpthread").split()

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

NGROUPS = 16

def weight(s):
    n = os.path.getsize(s)
    b = os.path.basename(s)
    w = 20000 + n
    for k, x in (("session.cpp", 250000), ("server.cpp", 60000), ("connector", 40000), ("socket", 60000), ("control.cpp", 50000), ("httpauth", 60000)):
        if k in b:
            w += x
    return w

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")

def build(log=sys.stderr):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    jobs = []      # (out, cmd)
    # protobuf
    protos = sorted(glob.glob(REPO + "/authproto/*.proto"))
    pkey = sha(*[rd(p) for p in protos])
    gen = os.path.join(BUILD, "gen-" + pkey)
    if not os.path.exists(gen + "/.done"):
        shutil.rmtree(gen, ignore_errors=True)
        os.makedirs(gen)
        rc, out = run(["protoc", "-I" + REPO + "/authproto", "--cpp_out=" + gen] + protos)
        if rc:
            raise SystemExit("protoc failed:\n" + out)
        open(gen + "/.done", "w").close()
    inc = ["-I" + gen, "-I" + REPO + "/libamqpprox"]
    hdrs = sorted(glob.glob(REPO + "/libamqpprox/**/*.h", recursive=True) + glob.glob(REPO + "/libamqpprox/**/*.hpp", recursive=True)
                  + glob.glob(REPO + "/amqpprox/*.h"))
    hk = sha(pkey, " ".join(REPO_FLAGS), *[os.path.basename(h).encode() + rd(h) for h in hdrs])
    srcs = sorted(glob.glob(REPO + "/libamqpprox/**/*.cpp", recursive=True)) + sorted(glob.glob(REPO + "/amqpprox/*.cpp"))
    objs = []
    # Sources are compiled in groups (each group is one translation unit that
    # includes its members); a group that does not compile as one unit is
    # compiled file by file instead.
    lib = [s for s in srcs if not s.startswith(REPO + "/amqpprox/")]
    mains = [s for s in srcs if s.startswith(REPO + "/amqpprox/")]
    heavy = sorted(lib, key=lambda s: -weight(s))
    groups = [[] for _ in range(NGROUPS)]
    load = [0] * NGROUPS
    for s in heavy:
        i = load.index(min(load))
        groups[i].append(s)
        load[i] += weight(s)
    fallback = {}
    cost = {}
    def single(s, extra):
        body = rd(s)
        o = os.path.join(obj, os.path.basename(s) + "-" + sha(hk, body, " ".join(extra)) + ".o")
        return (o, [CXX] + REPO_FLAGS + extra + inc + ["-c", s])
    for s in mains:
        j = single(s, ["-Dmain=amqpprox_main"])
        objs.append(j[0]); jobs.append(j)
    uni = os.path.join(BUILD, "unity")
    os.makedirs(uni, exist_ok=True)
    for g in groups:
        if not g:
            continue
        k = sha(hk, *[x for s in sorted(g) for x in (s, rd(s))])
        o = os.path.join(obj, "unity-" + k + ".o")
        if not os.path.exists(o + ".split"):
            u = os.path.join(uni, "u-" + k + ".cpp")
            with open(u, "w") as f:
                for s in sorted(g):
                    f.write('#include "%s"\n' % s)
            objs.append(o)
            cost[o] = sum(weight(s) for s in g)
            jobs.append((o, [CXX] + REPO_FLAGS + inc + ["-c", u]))
            fallback[o] = [single(s, []) for s in g]
        else:
            for s in g:
                j = single(s, [])
                objs.append(j[0]); jobs.append(j)
    for s in sorted(glob.glob(gen + "/*.cc")):
        fl = COMMON + DEFS + ["-O1"]
        o = os.path.join(obj, os.path.basename(s) + "-" + sha(pkey, " ".join(fl)) + ".o")
        objs.append(o)
        jobs.append((o, [CXX] + fl + inc + ["-c", s]))
    hh = sha(" ".join(HARN_FLAGS), pkey, *[rd(h) for h in sorted(glob.glob(VERIF + "/sim/*.h"))])
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        o = os.path.join(obj, "sim_" + os.path.basename(s) + "-" + sha(hh, rd(s)) + ".o")
        objs.append(o)
        jobs.append((o, [CXX] + HARN_FLAGS + ["-I" + gen, "-I" + VERIF + "/sim", "-c", s]))
    todo = [(o, c) for o, c in jobs if not os.path.exists(o)]
    todo.sort(key=lambda j: -cost.get(j[0], 30000))

    def comp(j):
        o, c = j
        rc, out = run(c + ["-o", o + ".tmp"])
        if rc == 0:
            os.rename(o + ".tmp", o)
        return rc, out, c
    ok = True
    again = []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        for rc, out, c in ex.map(comp, todo):
            if rc and c[-1].startswith(uni):
                again.append([o for o, cc in todo if cc is c][0])
            elif rc:
                ok = False
                print("COMPILE FAILED: %s\n%s" % (c[-1], out[:4000]), file=log)
        for o in again:
            open(o + ".split", "w").close()
            objs.remove(o)
            objs += [j[0] for j in fallback[o]]
            for rc, out, c in ex.map(comp, [j for j in fallback[o] if not os.path.exists(j[0])]):
                if rc:
                    ok = False
                    print("COMPILE FAILED: %s\n%s" % (c[-1], out[:4000]), file=log)
    if not ok:
        raise SystemExit(3)
    key = sha(*objs)
    exe = os.path.join(BUILD, "amqpsim-" + key)
    if not os.path.exists(exe):
        rc, out = run([CXX, "-fsanitize=address", "-pie", "-o", exe + ".tmp"] + objs + LIBS)
        if rc:
            print("LINK FAILED\n" + out[:4000], file=log)
            raise SystemExit(3)
        os.rename(exe + ".tmp", exe)
        # drop old products
        for old in glob.glob(BUILD + "/amqpsim-*"):
            if old != exe:
                os.unlink(old)
        keep = set(objs)
        old = sorted((p for p in glob.glob(obj + "/*.o") if p not in keep), key=os.path.getmtime)
        for p in old[:-400]:
            os.unlink(p)
    lock.close()
    return exe

if __name__ == "__main__":
    print(build())
