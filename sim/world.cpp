// Executes one plan: configures the real proxy over its control socket, lets
// the simulated parties act, heals all faults, probes, and shuts down.
#include "actors.h"
#include <cstring>
#include <netdb.h>
#include <unistd.h>

using sim::fmt;
int amqpprox_main(int argc, char **argv);

static std::string gLogDir;
static std::vector<std::string> gArgs;
static void *mainThread(void *)
{
    std::vector<char *> a;
    for (auto &s : gArgs) a.push_back((char *)s.c_str());
    a.push_back(nullptr);
    W->mainRc    = amqpprox_main((int)gArgs.size(), a.data());
    W->mainDone  = true;
    W->tMainDone = K->now;
    return nullptr;
}
void setLogDir(const std::string &d) { gLogDir = d; }

static std::vector<std::string> split(const std::string &s, char c)
{
    std::vector<std::string> r;
    std::string              cur;
    for (char x : s) {
        if (x == c) {
            if (!cur.empty()) r.push_back(cur);
            cur.clear();
        }
        else
            cur += x;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
static sim::DnsResult parseDns(const Item &i)
{
    sim::DnsResult r;
    r.delay = i.n("delay", 1000) * US;
    r.ips   = split(i.s("ips"), ',');
    std::string e = i.s("err");
    if (e == "noname") r.err = EAI_NONAME;
    else if (e == "again")
        r.err = EAI_AGAIN;
    else if (e == "fail")
        r.err = EAI_FAIL;
    return r;
}

Client *World::addClient(const Item &spec)
{
    auto c   = std::make_unique<Client>();
    c->w     = this;
    c->spec  = spec;
    c->id    = spec.s("id");
    c->vhost = spec.s("vhost");
    c->ip    = spec.s("ip", "172.16.0.9");
    c->port  = spec.n("port", 5672);
    uint64_t h = fnv(c->id.data(), c->id.size());
    c->rng.reseed(plan.first("run")->n("seed", 1), h);
    c->sport = spec.n("sport", 20000 + (int)(clients.size() % 30000));
    Rng pr(spec.n("pseed", (int64_t)(h & 0xffffff)), 4242);
    c->props.push_back({"sim_id", 'S', amqp::lstr(c->id + "/" + c->id)});   // twice, so that damage to it shows
    int np = spec.n("nprops", 3);
    for (int i = 0; i < np; ++i) c->props.push_back(amqp::rndField(pr, 3, amqp::rndName(pr, spec.n("emptyname") ? 0 : 1, 16) + std::to_string(i)));
    if (spec.has("connname")) c->props.push_back({"connection_name", 'S', amqp::lstr(spec.s("connname"))});
    if (spec.has("authclose"))
        c->props.push_back({"capabilities", 'F', amqp::lstr(amqp::encFields({{"authentication_failure_close", 't', amqp::u8(spec.n("authclose"))}, {"basic.nack", 't', amqp::u8(1)}}))});
    c->mech   = spec.s("mech", "PLAIN");
    c->resp   = spec.has("resp") ? spec.s("resp") : std::string("\0", 1) + c->id + std::string("\0pass", 5);
    c->locale = spec.s("locale", "en_US");
    c->chMax  = spec.n("chmax", 2047);
    c->frMax  = spec.n("frmax", 131072);
    c->hb     = spec.n("hb", 60);
    Client *p = c.get();
    clientOrder.push_back(c->id);
    clients[c->id] = std::move(c);
    return p;
}

// A lookup being made when EXIT comes is waited for (getaddrinfo can't be cancelled).
static int64_t exitBound(const Plan &plan)
{
    int64_t longest = 0;
    for (auto &i : plan.items)
        if (i.kind == "dns" || i.kind == "rdns") longest = std::max(longest, i.n("delay") * US);
    return 30 * SEC + 2 * longest;
}

void World::setup()
{
    const Item *r = plan.first("run");
    Item        dflt("run");
    if (!r) {
        plan.items.insert(plan.items.begin(), dflt);
        r = plan.first("run");
    }
    uint64_t seed = r->n("seed", 1);
    K->seed       = seed;
    K->schedRng.reseed(seed, 1);
    K->preemptRng.reseed(seed, 2);
    K->netRng.reseed(seed, 3);
    K->cryptoRng.reseed(seed, 4);
    K->faultRng.reseed(seed, 5);
    rng.reseed(seed, 6);
    K->sp.preemptMean = r->n("preempt", 0);
    K->sp.unlockPct = r->n("upreempt", 0);
    K->sp.stallPct    = r->n("pstall", 25);
    K->sp.yieldPct    = r->n("yield", 10);
    K->sp.randomPick  = r->n("rpick", 1);
    K->sp.randomReady = r->n("rready", 1);
    K->sp.blockBudget = r->n("budget", 400000000);
    if (auto *p = plan.first("preempts")) {
        K->sp.explicitPreempts = true;
        for (auto &x : split(p->s("at"), ',')) {
            char    *e;
            uint64_t b = strtoull(x.c_str(), &e, 10);
            K->sp.preemptAt.emplace_back(b, *e == ':' ? strtoll(e + 1, nullptr, 10) : 0);
        }
    }
    K->net.latMin        = r->n("latmin", 20) * US;
    K->net.latMax        = std::max<Time>(K->net.latMin, r->n("latmax", 300) * US);
    K->net.segPct        = r->n("seg", 30);
    K->net.recPct        = r->n("rec", 0);
    K->net.shortWritePct = r->n("sw", 5);
    K->net.shortReadPct  = r->n("sr", 5);
    K->net.cap           = r->n("cap", 65536);
    K->recordIo          = r->s("prop") == "C19";
    K->net.rdnsMin       = r->n("rdnsmin", 1000) * US;
    K->net.rdnsMax       = std::max<Time>(K->net.rdnsMin, r->n("rdnsmax", 0) * US);
    K->realSkew          = 0;
    keepRaw              = prop == "C17";

    K->dns = [this](const std::string &h, const std::string &) {
        dnsQueries.emplace_back(K->now, h);
        note("dns query %s", h.c_str());
        auto it = dnsMap.find(h);
        if (it != dnsMap.end()) {
            if (it->second.err) K->fault("dns_error");
            return it->second;
        }
        sim::DnsResult r;
        if (!h.empty() && (isdigit(h[0]) || h.find(':') != std::string::npos)) {
            r.ips.push_back(h);
            r.delay = 50 * US;
        }
        else {
            K->fault("dns_error");
            r.err = EAI_NONAME;
        }
        return r;
    };
    K->reverseDns = [this](const std::string &ip) {
        auto it = rdns.find(ip);
        return it == rdns.end() ? std::string() : it->second;
    };
    K->onUdp = [this](const sim::Addr &, const sim::Addr &, const std::string &d) { udp.push_back({K->now, d}); };
    // the authentication service
    {
        const Item *as = plan.first("authsvc");
        sim::Acceptor a;
        a.modeFn = [as] {
            std::string m = as ? as->s("mode", "accept") : "accept";
            return m == "refuse" ? sim::Acceptor::REFUSE : m == "unreach" ? sim::Acceptor::UNREACH : sim::Acceptor::ACCEPT;
        };
        a.onAccept = [this](Conn &c) -> sim::ConnHandler * {
            auto h = std::make_unique<AuthConn>();
            h->w   = this;
            h->c   = c.shared_from_this();
            c.tag  = "auth";
            auto *p = h.get();
            authConns.push_back(std::move(h));
            return p;
        };
        K->acceptors[sim::inet("10.9.9.9", 8080)] = a;
        sim::DnsResult d;
        d.ips = {"10.9.9.9"};
        dnsMap["authsvc"] = d;
        d.ips = {"10.8.8.8"};
        dnsMap["statsd"] = d;
    }
    for (auto &i : plan.items) {
        if (i.kind == "broker") {
            auto b  = std::make_unique<Broker>();
            b->w    = this;
            b->spec = i;
            b->id   = i.s("id");
            b->install();
            brokers[b->id] = std::move(b);
        }
        else if (i.kind == "dns")
            dnsMap[i.s("host")] = parseDns(i);
        else if (i.kind == "rdns")
{
            if (i.has("host")) rdns[i.s("ip")] = i.s("host");
            if (i.has("delay")) K->net.rdnsDelay[i.s("ip")] = i.n("delay") * US;
        }
        else if (i.kind == "busyport")
            K->busyPorts.insert(sim::inet("0.0.0.0", i.n("port")));
    }
}

// Replaces {client} by the session id that CONN shows for its address.
std::string World::sessionIdOf(const std::string &connOut, const Client &c)
{
    std::string want = " ingressRemote=" + c.ip + ":" + std::to_string(c.sport) + " ";
    auto        p    = connOut.find(want);
    if (p == std::string::npos) return "";
    auto b = connOut.rfind("id=", p);
    if (b == std::string::npos) return "";
    b += 3;
    return connOut.substr(b, connOut.find(' ', b) - b);
}

void World::pumpCommands()
{
    if (cmdBusy || cmdQueue.empty()) return;
    Item i = cmdQueue.front();
    cmdQueue.pop_front();
    cmdBusy          = true;
    std::string cmd  = i.s("cmd");
    auto        next = [this] {
        cmdBusy = false;
        pumpCommands();
    };
    auto b = cmd.find('{');
    if (b == std::string::npos) {
        lastCmd = command(cmd, next, "plan");
        return;
    }
    std::string who = cmd.substr(b + 1, cmd.find('}') - b - 1);
    Ctl        *q   = command("CONN", nullptr, "lookup");
    q->then         = [this, q, who, cmd, b, next] {
        Client     *c  = clientById(who);
        std::string id = c ? sessionIdOf(q->out, *c) : "";
        if (id.empty()) return next();
        std::string full = cmd.substr(0, b) + id + cmd.substr(cmd.find('}') + 1);
        lastCmd          = command(full, next, "plan");
        lastCmd->target  = who;
    };
}

// Commands with missing, meaningless or out of range arguments. None of them
// is a request that anything working should be changed.
static std::string weirdCommand(Rng &r)
{
    static const char *nums[] = {"abc", "-1", "0", "99999", "99999999999", "99999999999999999999999", "1e9", "0x10", "", "5672x", "-9223372036854775808"};
    static const char *t[] = {"LISTEN", "LISTEN FOO", "LISTEN START", "LISTEN START abc", "LISTEN START -1", "LISTEN START 99999999999", "LISTEN START_SECURE", "LISTEN START_SECURE zz", "SESSION", "SESSION $", "SESSION 99999$ PAUSE",
        "SESSION 77777777 FORCE_DISCONNECT", "SESSION 88888888 FOO", "VHOST", "VHOST PAUSE", "VHOST PAUSE nosuch", "VHOST UNPAUSE nosuch", "VHOST BACKEND_DISCONNECT nosuch", "VHOST FORCE_DISCONNECT nosuch", "VHOST FOO bar",
        "VHOST FORCE_DISCONNECT", "LIMIT", "LIMIT CONN_RATE", "LIMIT CONN_RATE VHOST", "LIMIT CONN_RATE VHOST nosuch", "LIMIT CONN_RATE VHOST nosuch $", "LIMIT CONN_RATE_ALARM VHOST nosuch $", "LIMIT DATA_RATE VHOST nosuch $", "LIMIT DATA_RATE_ALARM VHOST nosuch $",
        "LIMIT CONN_RATE DEFAULT abc", "LIMIT DATA_RATE DEFAULT abc", "LIMIT DISABLE", "LIMIT DISABLE CONN_RATE", "LIMIT DISABLE FOO VHOST x", "LIMIT DISABLE DATA_RATE VHOST nosuch", "LIMIT PRINT nosuch", "LIMIT FOO", "LIMIT PRINT",
        "BACKEND", "BACKEND ADD", "BACKEND ADD a b c", "BACKEND ADD wx$ dc 10.77.1.1 $", "BACKEND ADD_DNS wy$ dc $ $", "BACKEND ADD wz dc nosuch.invalid 5672", "BACKEND ADD by dc 10.77.1.2 5672", "BACKEND DELETE", "BACKEND DELETE nosuch", "BACKEND FOO", "FARM", "FARM ADD", "FARM ADD wf",
        "FARM ADD wf nosel by", "FARM ADD wf round-robin", "FARM ADD wf round-robin ", "FARM ADD wf round-robin nosuch", "FARM PARTITION", "FARM PARTITION nosuch datacenter-affinity", "FARM PARTITION wf nosuch", "FARM DELETE", "FARM DELETE nosuch", "FARM FOO",
        "MAP", "MAP BACKEND", "MAP BACKEND x", "MAP FARM x", "MAP FARM", "MAP UNMAP", "MAP UNMAP nosuch", "MAP FOO", "MAP DEFAULT", "STAT", "STAT LISTEN", "STAT LISTEN xml", "STAT LISTEN json", "STAT LISTEN json foo=bar", "STAT LISTEN json vhost=", "STAT LISTEN human vhost=a=b", "STAT LISTEN json vhost=nosuch",
        "STAT SEND", "STAT SEND statsd", "STAT SEND statsd abc", "STAT SEND statsd $", "STAT SEND nosuch.invalid 8125", "STAT STOP", "STAT STOP FOO", "STAT ENABLE", "STAT ENABLE foo", "STAT FOO", "TLS", "TLS INGRESS", "TLS FOO BAR", "TLS INGRESS CERT_CHAIN_FILE /nonexistent", "TLS INGRESS KEY_FILE /nonexistent",
        "TLS EGRESS CA_CERT_FILE /nonexistent", "TLS EGRESS KEY_FILE", "TLS INGRESS VERIFY_MODE FOO", "TLS INGRESS CIPHERS", "TLS INGRESS CIPHERS FOO", "TLS INGRESS TMP_DH_FILE /nonexistent", "TLS INGRESS RSA_KEY_FILE /nonexistent", "TLS INGRESS FOO /nonexistent", "TLS EGRESS CIPHERS PRINT",
        "AUTH", "AUTH SERVICE", "AUTH SERVICE x", "AUTH SERVICE x abc /", "AUTH FOO", "AUTH PRINT", "DATACENTER", "DATACENTER FOO", "DATACENTER PRINT", "LOG", "LOG FOO 1", "LOG CONSOLE abc", "LOG FILE abc", "LOG FILE", "MAPHOSTNAME", "MAPHOSTNAME FOO", "HELP x", "CONN x", "", " ", "\t", "conn", "NOSUCH", "\r", "exit2"};
    std::string s = t[r.below(sizeof t / sizeof *t)], o;
    for (char ch : s)
        if (ch == '$') o += nums[r.below(sizeof nums / sizeof *nums)];
        else
            o += r.pct(30) ? tolower(ch) : ch;
    if (r.pct(10)) o += std::string(1 + r.below(20), ' ');
    if (r.pct(10) && s.substr(0, 4) != "AUTH") o += " " + amqp::rndBytes(r, 1 + r.below(30));
    for (auto &ch : o)
        if (ch == '\n') ch = '_';
    return o;
}
struct BadCtl : sim::ConnHandler {
    Item    spec;
    ConnPtr c;
    void    onConnected(Conn &c) override
    {
        std::string how = spec.s("how");
        K->fault(("ctl_" + how).c_str());
        if (how == "partial") c.send("CONN");
        else if (how == "noread") {
            c.pauseRead(true);
            for (int i = 0; i < spec.n("n", 200); ++i) c.send("HELP\n");
        }
        else if (how == "rst") {
            c.send("CONN\nHELP\n");
            c.rst();
        }
        else if (how == "fin") {
            c.send("HELP\n");
            c.close();
        }
        else if (how == "garbage") {
            Rng r(spec.n("seed", 5));
            c.send(amqp::rndBytes(r, 500) + "\n" + amqp::rndBytes(r, 100) + "\n\n \n");
        }
        else if (how == "longline") {
            c.send(std::string(spec.n("n", 100000), 'x') + "\n");
        }
        else if (how == "weird") {
            Rng r(spec.n("seed", 5));
            c.send(weirdCommand(r) + "\n");
        }
        else if (how == "statnoread") {
            c.pauseRead(true);
            c.send("STAT LISTEN json all\n");
        }
        // hang: nothing
    }
};

void World::startActivity()
{
    const Item *r   = plan.first("run");
    Time        end = r->n("end", 1000000) * US;
    t0              = K->now;
    note("activity starts");
    for (auto &i : plan.items) {
        Time t = t0 + i.n("t") * US;
        if (i.kind == "client") {
            Client *c = addClient(i);
            K->at(t, [c] { c->start(); });
        }
        else if (i.kind == "cmd") {
            if (i.n("par"))
                K->at(t, [this, i] {
                    Ctl *c = command(i.s("cmd"), nullptr, "par");
                    if (i.has("cap")) c->c->toA.cap = i.n("cap");
                    if (!i.n("stall_for")) return;
                    K->fault("control_reader_stall");
                    c->c->pauseRead(true);
                    K->after(i.n("stall_for") * US, [c] {
                        if (!c->done) c->c->pauseRead(false);
                    });
                });
            else
                K->at(t, [this, i] {
                    cmdQueue.push_back(i);
                    pumpCommands();
                });
        }
        else if (i.kind == "ctlstream") {
            K->at(t, [this, i] {
                Ctl *c    = command(i.s("cmd"), nullptr, "stream");
                c->stream = true;
                c->target = i.s("as");
                streams.push_back(c);
                if (i.has("cap")) c->c->toA.cap = i.n("cap");
                for (int k = 0; k < i.n("stall_rep"); ++k) {   // a reader that reads now and then
                    K->after((i.n("stall") + k * i.n("stall_every")) * US, [c] {
                        K->fault("stat_reader_stall");
                        if (!c->done) c->c->pauseRead(true);
                    });
                    K->after((i.n("stall") + k * i.n("stall_every") + i.n("stall_for")) * US, [c] {
                        if (!c->done) c->c->pauseRead(false);
                    });
                }
                if (i.has("dur")) K->after(i.n("dur") * US, [c] {
                    if (!c->done) c->c->close();
                    c->done = true;
                });
            });
        }
        else if (i.kind == "ctlbad") {
            K->at(t, [i] {
                auto *h = new BadCtl;
                h->spec = i;
                sim::Addr to, me;
                to.family = me.family = AF_UNIX;
                to.ip                 = "/sim/ctl";
                h->c                  = K->actorConnect(me, to, h);
                if (i.has("cap")) h->c->toA.cap = i.n("cap");
            });
        }
        else if (i.kind == "brokerset") {
            K->at(t, [this, i] {
                auto it = brokers.find(i.s("id"));
                if (it == brokers.end()) return;
                Broker &b = *it->second;
                if (i.has("mode")) b.setMode(i.s("mode"));
                if (i.has("hs")) b.spec.set("hs", i.s("hs"));
                note("broker %s set mode=%s hs=%s", b.id.c_str(), i.s("mode").c_str(), i.s("hs").c_str());
                brokerModeLog.emplace_back(K->now, b.id, (int)b.mode);
                if (i.has("kill")) {
                    K->fault("broker_crash");
                    for (auto &c : b.conns)
                        if (!c->ended()) {
                            c->selfClosed();
                            if (i.s("kill") == "rst") c->c->rst();
                            else
                                c->c->close();
                        }
                }
            });
        }
        else if (i.kind == "dnsset") {
            K->at(t, [this, i] {
                dnsMap[i.s("host")] = parseDns(i);
                dnsLog.emplace_back(K->now, i.s("host"), i.s("ips"), i.s("err"));
                note("dns %s -> %s %s", i.s("host").c_str(), i.s("ips").c_str(), i.s("err").c_str());
            });
        }
        else if (i.kind == "stallth") {
            K->at(t, [i] {
                auto &th = *K->threads[i.n("th") % K->threads.size()];
                K->fault("thread_stall");
                th.stalledUntil = K->now + i.n("for") * US;
                K->at(th.stalledUntil, [] {});
            });
        }
        else if (i.kind == "clock") {
            K->at(t, [i] {
                K->fault("wall_clock_jump");
                K->realSkew += i.n("jump") * MS;
            });
        }
        else if (i.kind == "accepterr") {
            K->at(t, [i] {
                for (int k = 0; k < i.n("n", 1); ++k) K->acceptErrQ.emplace_back((int)i.n("port"), (int)i.n("err"));
            });
        }
        else if (i.kind == "fdlimit") {  // descriptors run out for a while
            K->at(t, [i] {
                K->fdLimit = (int)K->fds.size() + i.n("n");
                K->after(i.n("for") * US, [] { K->fdLimit = 100000; });
            });
        }
        else if (i.kind == "sysfault") {
            K->at(t, [i] {
                for (int k = 0; k < i.n("n", 1); ++k) K->sysErrQ.emplace_back(i.s("op"), (int)i.n("err"));
            });
        }
        else if (i.kind == "netset") {
            K->at(t, [i] {
                K->net.latMin = i.n("latmin", 20) * US;
                K->net.latMax = i.n("latmax", 300) * US;
            });
        }
        else if (i.kind == "partition") {  // silence between proxy and a broker
            K->at(t, [this, i] {
                auto it = brokers.find(i.s("id"));
                if (it == brokers.end()) return;
                K->fault("broker_partition");
                for (auto &c : it->second->conns)
                    if (!c->ended()) c->c->pauseRead(true);
                Broker *b = it->second.get();
                K->after(i.n("for") * US, [b] {
                    for (auto &c : b->conns) c->c->pauseRead(false);
                });
            });
        }
    }
    tEnd = t0 + end;
}

std::string World::ask(const std::string &cmd, Time limit)
{
    Ctl *c = command(cmd, nullptr, "probe");
    K->run(K->now + limit, [this, c] { return c->done || mainDone; });
    if (!c->done) ctlStuck.push_back(cmd);
    return c->out;
}

void World::heal()
{
    note("heal");
    for (auto &b : brokers) {
        if (plan.first("run")->n("keepmodes")) break;
        b.second->setMode("accept");
        b.second->spec.set("hs", "ok");
    }
    K->sysErrQ.clear();
    K->fdLimit = 100000;
    K->acceptErrQ.clear();
    K->net.latMin = 20 * US;
    K->net.latMax = 300 * US;
    for (auto &t : K->threads) t->stalledUntil = 0;
    for (auto &c : K->conns) {
        c->np.latMin = 20 * US;
        c->np.latMax = 300 * US;
        c->toA.cap = c->toP.cap = 262144;
        if (c->psock) c->psock->notify();
        c->pumpA();
    }
    for (auto &c : clients)
        for (auto *b : c.second->conns)
            if (b->openOkSent) {
                snap[c.first].upSent   = c.second->upSent.size();
                snap[c.first].downSent = b->downSent.size();
            }
    for (auto &c : clients)
        if (c.second->c && !c.second->ended()) c.second->c->pauseRead(false);
    for (auto &b : brokers)
        for (auto &c : b.second->conns)
            if (!c->ended()) c->c->pauseRead(false);
    tHeal                = K->now;
    K->sp.shortStalls    = true;
}

void World::run()
{
    W = this;
    setup();
    const Item *r = plan.first("run");
    gArgs         = {"amqpprox", "--controlSocket", "/sim/ctl", "--logDirectory", gLogDir};
    if (r->has("args"))
        for (auto &a : split(r->s("args"), ' ')) gArgs.push_back(a);
    K->spawn(mainThread, nullptr);
    sim::Addr ctl;
    ctl.family = AF_UNIX;
    ctl.ip     = "/sim/ctl";
    // wait for the control socket, then configure command by command
    bool up = false;
    std::function<void()> waitUp = [&] {
        if (K->isListening(ctl)) up = true;
        else
            K->after(MS, waitUp);
    };
    K->after(MS, waitUp);
    K->run(20 * SEC, [&] { return up || mainDone; });
    phase = "startup";
    if (!up || mainDone || K->hang) return;
    phase = "config";
    for (auto &i : plan.items) {
        if (i.kind != "conf") continue;
        Ctl *c = command(i.s("cmd"), nullptr, "conf");
        K->run(K->now + 30 * SEC, [&] { return c->done || mainDone; });
        if (!c->done || mainDone || K->hang) {
            ctlStuck.push_back(i.s("cmd"));
            return;
        }
    }
    // LISTEN START is acknowledged before the port is open: wait for the ports that can be
    {
        std::vector<sim::Addr> ports;
        for (auto &c : ctls) {
            auto v = split(c->cmd, ' ');
            if (c->tag == "conf" && v.size() == 3 && v[0] == "LISTEN" && v[1].rfind("START", 0) == 0) {
                sim::Addr a = sim::inet("0.0.0.0", atoi(v[2].c_str()));
                if (!K->busyPorts.count(a)) ports.push_back(a);
            }
        }
        bool                  ready = false;
        std::function<void()> poll  = [&] {
            ready = true;
            for (auto &a : ports)
                if (!K->isListening(a)) ready = false;
            if (!ready) K->after(MS, poll);
        };
        K->after(5 * MS, poll);
        K->run(K->now + 5 * SEC, [&] { return ready || mainDone || K->hang; });
        if (!ready) {
            ctlStuck.push_back("LISTEN START (port never opened)");
            return;
        }
    }
    configDone = true;
    phase      = "activity";
    startActivity();
    if (r->has("exitat")) {
        K->run(t0 + r->n("exitat") * US, [this] { return mainDone; });
        if (K->hang || mainDone) return;
        phase    = "exit";
        exitSent = true;
        tExit    = K->now;
        for (auto &c : clients) probe("exit_with_client_state_" + std::to_string((int)c.second->st));
        command("EXIT", nullptr, "exit");
        K->run(K->now + exitBound(plan), [this] { return mainDone; });
        phase = "done";
        return;
    }
    K->run(tEnd, [this] { return mainDone; });
    if (K->hang || mainDone) return;
    phase = "settle";
    heal();
    K->run(K->now + r->n("settle", 1500000) * US, [this] { return mainDone; });
    if (K->hang || mainDone) return;
    tSettled = K->now;
    // snapshot: who is still open, before we end everything
    for (auto &c : clients) c.second->settle();
    for (auto &b : brokers)
        for (auto &c : b.second->conns) c->settle();
    for (auto &c : clients)
        if (c.second->st == Client::OPEN && !c.second->ended()) openAtSettle.insert(c.first);
    for (auto &s : snap) {
        Client &c = *clients[s.first];
        for (auto *b : c.conns)
            if (b->openOkSent) {
                s.second.upRecv   = b->upRecv.size();
                s.second.downRecv = c.downRecv.size();
                s.second.alive    = !b->ended() && openAtSettle.count(s.first);
            }
    }
    phase = "probe";
    if (r->n("conn", 1)) connAtSettle = ask("CONN", 10 * SEC);
    if (K->hang || mainDone) return;
    if (r->n("health", 1)) {
        Item h("client");
        h.set("id", "HEALTH").set("vhost", "healthvh").set("ip", "172.16.200.200").set("sport", 19999).set("up", 4).set("down", 4).set("port", r->n("hport", 5672));
        Client *c = addClient(h);
        c->start();
        Time dl = K->now + 8 * SEC;
        K->run(dl, [&] {
            return mainDone || c->ended() ||
                   (c->st == Client::OPEN && c->upDone && c->conns.size() == 1 && c->conns[0]->upRecv.size() == c->upSent.size() && c->conns[0]->pendingDown == 0 &&
                    c->downRecv.size() == c->conns[0]->downSent.size());
        });
        healthOk = c->st == Client::OPEN && !c->ended() && c->upDone && c->conns.size() == 1 && c->conns[0]->upRecv == c->upSent && c->downRecv == c->conns[0]->downSent;
        healthRan = true;
        if (K->hang || mainDone) return;
    }
    phase = "drain";
    if (r->n("drain", 1)) {
        // every client and broker leaves; the proxy must let go of everything
        for (auto &c : clients)
            if (c.second->c && !c.second->ended()) c.second->finish("fin");
        for (auto &s : streams)
            if (!s->done && !r->n("keepstreams")) {
                s->done = true;
                s->c->close();
            }
        K->run(K->now + r->n("drainfor", 4000000) * US, [this] { return mainDone; });
        if (K->hang || mainDone) return;
        connAtEnd   = ask("CONN", 10 * SEC);
        K->sp.shortStalls = false;
        drained     = true;
        openAtDrain = 0;
        for (auto &c : K->conns) {
            if (c->pAddr.family == AF_UNIX || c->tag == "auth") continue;  // a pending authentication has its own 30 s limit
            if (!c->psock) continue;
            openAtDrain++;
            std::string who = "?";
            for (auto &k : clients)
                if (k.second->c == c) who = "client " + k.first;
            for (auto &b : brokers)
                for (auto &x : b.second->conns)
                    if (x->c == c) who = "broker " + b.first + (x->cl ? " for " + x->cl->id : "");
            events.emplace_back(K->now, fmt("still open: %s #%lu est=%d pReset=%d aClosed=%d aGotEof=%d", who.c_str(), (unsigned long)c->id, c->established, c->pReset, c->aClosed, c->aGotEof));
        }
    }
    if (K->hang || mainDone) return;
    phase    = "exit";
    exitSent = true;
    tExit    = K->now;
    command("EXIT", nullptr, "exit");
    K->run(K->now + exitBound(plan), [this] { return mainDone; });
    phase = "done";
}
