// Command line of the simulator.
//   amqpsim props
//   amqpsim gen PROP SEED              print the plan of one seed
//   amqpsim run FILE [-v|-h]           run one plan in this process
//   amqpsim batch PROP FIRST STEP COUNT SECONDS   fork one child per seed
//   amqpsim plans FILE...              fork one child per plan file
#include "actors.h"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

const uint8_t *simCoverageMap();
uint64_t       simCoverageCount();
extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "detect_odr_violation=0:handle_abort=0:print_summary=1:quarantine_size_mb=64:symbolize=1";
}

constexpr size_t RES = 1 << 20;
extern FILE     *simPcLog;
static char     *gRes;
static uint8_t  *gCov;
static char      gTmp[256];

static void rmTree(const std::string &d)
{
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (auto *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p);
        else
            unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}

static std::string runPlan(const Plan &plan, const std::string &prop, const std::string &logDir, int verbose)
{
    using namespace sim;
    static Kernel k;
    K         = &k;
    k.verbose = verbose > 1;
    static World w;
    w.plan = plan;
    w.prop = prop;
    setLogDir(logDir);
    mkdir(logDir.c_str(), 0700);
    if (const char *l = getenv("AMQPSIM_PCLOG")) simPcLog = fopen(l, "w");
    w.run();
    checkAll(w);
    if (verbose) {
        for (auto &e : w.events) printf("H %12.6f %s\n", e.first / 1e9, e.second.c_str());
    }
    std::string o;
    o += fmt("R hash=%016llx simtime=%.6f blocks=%llu switches=%llu preempts=%llu midstalls=%llu syscalls=%llu cov=%llu conns=%zu phase=%s rc=%d\n", (unsigned long long)k.traceHash, k.now / 1e9,
             (unsigned long long)k.stats.blocks, (unsigned long long)k.stats.switches, (unsigned long long)k.stats.preempts, (unsigned long long)k.stats.midStalls, (unsigned long long)k.stats.syscalls,
             (unsigned long long)simCoverageCount(), k.conns.size(), w.phase.c_str(), w.mainRc);
    for (auto &f : k.stats.faults) o += "F " + f.first + " " + std::to_string(f.second) + "\n";
    for (auto &f : w.probes) o += "P " + f.first + " " + std::to_string(f.second) + "\n";
    for (auto &v : w.violations) {
        std::string t = v.what;
        for (auto &c : t)
            if (c == '\n') c = ' ';
        o += "V " + v.prop + " " + t + "\n";
    }
    if (!w.violations.empty() && !k.preemptLog.empty()) {
        o += "L ";
        size_t n = 0;
        for (auto b : k.preemptLog) {
            if (n++ > 20000) break;
            o += std::to_string(b.first) + (b.second ? ":" + std::to_string(b.second) : "") + ",";
        }
        o += "\n";
    }
    const uint8_t *m = simCoverageMap();
    if (gCov)
        for (int i = 0; i < 65536; ++i)
            if (m[i]) gCov[i] = 1;
    return o;
}

static void childBody(const Plan &p, const std::string &prop, const std::string &dir)
{
    struct itimerval it = {{0, 0}, {120, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    int fd = open((dir + "/err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    std::string o = runPlan(p, prop, dir + "/logs", 0);
    size_t      n = std::min(o.size(), RES - 2);
    memcpy(gRes + 1, o.data(), n);
    gRes[1 + n] = 0;
    gRes[0]     = 1;
    _exit(0);
}

static std::string slurp(const std::string &f)
{
    std::ifstream i(f);
    return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
// Condenses an ASan report into one line that does not depend on addresses.
static std::string crashLine(const std::string &err, int status)
{
    std::string o;
    auto        p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        p += 25;
        o = "asan " + err.substr(p, err.find_first_of(" \n(", p) - p);
        size_t q = p;
        int    frames = 0;
        while (frames < 6 && (q = err.find(" in ", q)) != std::string::npos) {
            size_t      e = err.find('\n', q);
            std::string l = err.substr(q + 4, e - q - 4);
            q             = e;
            auto a = l.find("Bloomberg::amqpprox::");
            if (a == std::string::npos) continue;
            auto z = l.find_first_of("(<", a);
            o += " @" + l.substr(a + 21, z - a - 21);
            frames++;
        }
        return o;
    }
    if (WIFSIGNALED(status)) {
        o = WTERMSIG(status) == SIGPROF ? "wall-hang" : "signal " + std::to_string(WTERMSIG(status));
        auto t = err.find("terminate called");
        if (t != std::string::npos) {
            std::string s = err.substr(t, 200);
            for (auto &c : s)
                if (c == '\n') c = ' ';
            o += " " + s;
        }
        return o;
    }
    return "exit " + std::to_string(WEXITSTATUS(status));
}

// The batch process only forks: each run has a supervisor process of its own,
// which forks the process that runs the plan. So the heap a run starts with
// does not depend on the runs before it.
static void runForked(const Plan &p, const std::string &prop, const std::string &label, const std::string &crashProp);
template <class F> static void supervised(F f)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        f();
        fflush(stdout);
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (st) {   // the simulator itself failed
        printf("B %d\n", st);
        fflush(stdout);
    }
}
static void runForked(const Plan &p, const std::string &prop, const std::string &label, const std::string &crashProp)
{
    std::string dir = std::string(gTmp) + "/r";
    mkdir(dir.c_str(), 0700);
    gRes[0]  = 0;
    auto  t1 = std::chrono::steady_clock::now();
    pid_t pid = fork();
    if (pid == 0) childBody(p, prop, dir);
    int st = 0;
    waitpid(pid, &st, 0);
    double      w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
    std::string o;
    if (gRes[0] == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
        o = std::string(gRes + 1);
    else {
        std::string err = slurp(dir + "/err");
        o               = "R hash=" + sim::fmt("%016llx", (unsigned long long)fnv(crashLine(err, st).data(), crashLine(err, st).size())) + " phase=crash\n";
        o += "V " + crashProp + " crash: " + crashLine(err, st) + "\n";
        for (size_t i = 0, n = 0; i < err.size() && n < 40; ++n) {
            auto e = err.find('\n', i);
            if (e == std::string::npos) e = err.size();
            o += "E " + err.substr(i, e - i) + "\n";
            i = e + 1;
        }
    }
    rmTree(dir);
    printf("S %s wall=%.3f\n%s.\n", label.c_str(), w, o.c_str());
    fflush(stdout);
}

int main(int argc, char **argv)
{
    if (argc < 2) return 2;
    std::string mode = argv[1];
    if (!getenv("AMQPSIM_NOASLR") && mode != "gen" && mode != "props") {
        setenv("AMQPSIM_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur >= 0 && personality(cur | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    std::string exe(4096, 0);
    exe.resize(std::max<ssize_t>(0, readlink("/proc/self/exe", &exe[0], exe.size())));
    const char *cd = getenv("AMQPSIM_CERTS");
    if (mode == "props") {
        for (auto &p : knownProperties()) puts(p.c_str());
        return 0;
    }
    if (mode == "gen") {
        gCertDir = cd ? cd : "/verif/sim/certs";
        fputs(generate(argv[2], strtoull(argv[3], nullptr, 10)).str().c_str(), stdout);
        return 0;
    }
    initCrypto(cd ? cd : "/verif/sim/certs");
    const char *td = getenv("TMPDIR");
    snprintf(gTmp, sizeof gTmp, "%s/amqpsim.XXXXXX", td ? td : "/tmp");
    if (!mkdtemp(gTmp)) return 4;
    if (mode == "run") {
        Plan        p = Plan::parse(slurp(argv[2]));
        const Item *r = p.first("run");
        int         v = argc > 3 ? (strcmp(argv[3], "-v") == 0 ? 2 : 1) : 0;
        std::string o = runPlan(p, r ? r->s("prop") : "", std::string(gTmp) + "/logs", v);
        if (getenv("AMQPSIM_KEEPLOG")) printf("logs in %s\n", gTmp);
        else
            rmTree(gTmp);
        fputs(o.c_str(), stdout);
        fflush(stdout);
        _exit(o.find("\nV ") != std::string::npos ? 1 : 0);
    }
    gRes = (char *)mmap(nullptr, RES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gCov = (uint8_t *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "batch") {
        std::string prop  = argv[2];
        uint64_t    first = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
        double      secs = atof(argv[6]);
        auto        t1   = std::chrono::steady_clock::now();
        for (uint64_t i = 0; i < count; ++i) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() > secs) break;
            uint64_t s = first + i * step;
            supervised([&] { runForked(Plan::parse(generate(prop, s).str()), prop, "seed=" + std::to_string(s), prop); });
        }
    }
    else if (mode == "plans") {
        for (int i = 2; i < argc; ++i) {
            supervised([&] {
                Plan        p    = Plan::parse(slurp(argv[i]));
                const Item *r    = p.first("run");
                std::string prop = r ? r->s("prop") : "";
                runForked(p, prop, std::string("file=") + argv[i], prop);
            });
        }
    }
    size_t n = 0;
    for (int i = 0; i < 65536; ++i) n += gCov[i];
    printf("C ");
    for (int i = 0; i < 65536; ++i)
        if (gCov[i]) printf("%x,", i);
    printf("\n");
    rmTree(gTmp);
    return 0;
}
