// Plans for statistics, configuration changes, listeners, exit, TLS, isolation, back pressure and listings.
#include "gen.h"
#include <algorithm>
#include <cerrno>

namespace {
std::vector<std::string> vhostsOnBrokers(G &g, int n, const std::string &pre, int tlsPct = 15, int ppPct = 10)
{
    std::vector<std::string> r;
    for (int i = 0; i < n; ++i) {
        auto b = g.broker("dc1", g.r.pct(tlsPct), g.r.pct(ppPct));
        r.push_back(pre + std::to_string(i));
        g.conf("MAP BACKEND " + r.back() + " " + b);
    }
    return r;
}
void noStalls(Item &c)
{
    c.kv.erase("stall");
    c.kv.erase("bstall");
    c.order.erase(std::remove_if(c.order.begin(), c.order.end(), [](const std::string &k) { return k == "stall" || k == "bstall"; }), c.order.end());
}

void genC15(G &g)
{
    int64_t end = g.one({2000000, 5000000, 9000000});
    g.base(end);
    auto vh = vhostsOnBrokers(g, 1 + g.r.below(2), "vq");
    g.health();
    g.listen(5672);   // stays up throughout: health and bystanders
    g.bystander(1);
    g.conf("TLS INGRESS CERT_CHAIN_FILE @CERTS@/cert.pem");
    g.conf("TLS INGRESS KEY_FILE @CERTS@/key.pem");
    int              np = 1 + g.r.below(4);
    std::vector<int> ports;
    for (int i = 0; i < np; ++i) ports.push_back(g.r.pct(25) ? (int)g.one({1, 40001, 65532}) + i : 6000 + i);
    bool busy = g.r.pct(35);
    if (busy) {
        g.p.add("busyport").set("port", 7777);
        ports.push_back(7777);
    }
    bool stopAll = g.r.pct(20);
    auto start   = [&](int p) { return std::string(g.r.pct(30) ? "LISTEN START_SECURE " : "LISTEN START ") + std::to_string(p); };
    for (int p : ports)
        if (p != 7777 && g.r.pct(60)) g.conf(start(p));
    std::vector<int64_t> times;
    int nc = 1 + g.r.below(7);
    int64_t t = 0;
    for (int i = 0; i < nc; ++i) {
        t = g.r.pct(40) && i ? t + g.one({0, 0, 100, 1000, 20000}) : (int64_t)g.r.range(400000, end);   // the bystander is in by then
        int p = g.r.pick(ports);
        std::string c;
        if (stopAll && g.r.pct(30)) c = "LISTEN STOP";
        else if (g.r.pct(50))
            c = start(p);
        else
            c = "LISTEN STOP " + std::to_string(p);
        g.cmd(t, c);
        times.push_back(t);
        if (stopAll && c == "LISTEN STOP") g.cmd(t + 1, "LISTEN START 5672");
    }
    if (stopAll) g.run().set("health", 0);
    int n = 3 + g.r.below(14);
    while (n--) {
        int64_t at = g.r.pct(50) ? g.r.pick(times) + g.one({-400000, -5000, -100, 100, 3000, 100000, 800000}) : (int64_t)g.r.below(end);
        if (at < 0) at = g.r.below(1000);
        int   p = g.r.pct(15) ? 5672 : g.r.pick(ports);
        Item &c = g.client(at, g.r.pick(vh), p != 5672 && g.r.pct(30));
        c.set("port", (int64_t)p);
        if (g.r.pct(50)) g.traffic(c, 8, 8, 800);
        noStalls(c);
        if (g.r.pct(15)) c.set("end", g.one({"fin", "rst", "amqp"})).set("dur", (int64_t)g.r.below(300000));
    }
    int ne = g.r.pct(60) ? 1 + g.r.below(4) : 0;
    while (ne--) {
        int64_t at = g.r.below(end);
        int     e  = g.one({EMFILE, ENFILE, ECONNABORTED, EPROTO, ENOMEM, ENOBUFS, EPERM, EINTR});
        int     p  = g.r.pct(15) ? -1 : g.r.pct(40) ? 0 : g.r.pick(ports);
        if (p == -1 && (e == ECONNABORTED || e == EPROTO || e == EPERM)) e = EMFILE;   // would drop one of our own commands
        g.p.add("accepterr").set("t", at).set("port", (int64_t)p).set("err", (int64_t)e).set("n", (int64_t)g.one({1, 1, 3, 20}));
    }
    if (g.r.pct(20)) g.p.add("fdlimit").set("t", std::max<int64_t>(600000, g.r.pick(times) + g.one({-3000, -300, 0}))).set("n", (int64_t)g.r.below(2)).set("for", (int64_t)g.one({500, 5000, 15000}));
    if (g.r.pct(50)) {
        int k = 1 + g.r.below(3);
        while (k--) g.p.add("stallth").set("t", (int64_t)(g.r.pick(times) - g.one({100, 2000, 20000}))).set("th", (int64_t)g.r.below(5)).set("for", (int64_t)g.one({500, 5000, 60000, 300000}));
    }
    for (auto &i : g.p.items)
        if (i.n("t") < 0) i.set("t", 0);
    g.run().set("settle", 3000000);
}

void genC17(G &g)
{
    int64_t end = g.one({300000, 1500000});
    g.base(end);
    g.health();
    g.bystander(1);
    g.listen();
    g.listenTls();
    bool needCert = g.r.pct(25);
    if (needCert) {
        g.conf("TLS INGRESS CA_CERT_FILE @CERTS@/cert.pem");
        g.conf("TLS INGRESS VERIFY_MODE PEER FAIL_IF_NO_PEER_CERT");
    }
    std::vector<std::string> vh;
    int nv = 1 + g.r.below(3);
    for (int v = 0; v < nv; ++v) {
        int nb = 1 + g.r.below(4);
        std::string farm = "FARM ADD f" + std::to_string(v) + " round-robin", b;
        for (int i = 0; i < nb; ++i) {
            bool tls = g.r.pct(55), pp = g.r.pct(40);
            if (g.r.pct(30)) {
                b = g.dnsBackend("dc1", 1 + g.r.below(3), tls, pp, g.r.pct(30));
                for (auto &it : g.p.items)
                    if (it.kind == "broker" && (it.s("id") == b || it.s("id").rfind(b + "_", 0) == 0)) {
                        if (g.r.pct(25)) it.set("mode", g.one({"refuse", "unreach", "acceptrst"}));
                        if (tls && g.r.pct(20)) it.set("rogue", (int64_t)(1 + g.r.below(3)));
                    }
            }
            else {
                b = g.broker("dc1", tls, pp);
                Item &it = g.brokerItem(b);
                if (g.r.pct(30)) it.set("mode", g.one({"refuse", "unreach", "acceptrst"}));
                if (tls && g.r.pct(20)) it.set("rogue", (int64_t)(1 + g.r.below(3)));
                if (g.r.pct(10)) it.set("hs", g.one({"hang", "fin", "rst", "garbage"}) + std::string("@connect"));
            }
            farm += " " + b;
        }
        vh.push_back("vt" + std::to_string(v));
        if (nb == 1 && g.r.pct(50)) g.conf("MAP BACKEND " + vh.back() + " " + b);
        else {
            g.conf(farm);
            g.conf("MAP FARM " + vh.back() + " f" + std::to_string(v));
        }
    }
    if (g.tlsOut && g.r.pct(20)) g.conf("TLS EGRESS VERIFY_MODE NONE");
    int nc = 2 + g.r.below(8);
    while (nc--) {
        bool  tls  = g.r.pct(50);
        int   port = g.r.pct(15) ? (tls ? 5672 : 5671) : (tls ? 5671 : 5672);
        Item &c    = g.client(g.r.below(end), g.r.pick(vh));
        if (tls) c.set("tls", 1);
        c.set("port", (int64_t)port);
        if (tls && g.r.pct(needCert ? 60 : 20)) c.set("ccert", g.one({"none", "rogue", "expired", "chain"}));
        if (g.r.pct(60)) g.traffic(c, 6, 6, 3000);
        noStalls(c);
        if (port == 5671 && !tls && g.r.pct(50)) c.set("raw", g.r.pct(50) ? amqp::rndBytes(g.r, g.one({1, 8, 100, 3000})) : std::string("\x16\x03\x01\x00\x05", 5) + amqp::header());
        if (g.r.pct(20)) c.set("end", g.one({"fin", "amqp", "rst"})).set("dur", (int64_t)g.r.below(100000));
        if (g.r.pct(10)) c.set("rst_at", (int64_t)g.r.below(100000));
    }
    g.run().set("settle", 45000000);
    g.threadStalls(end);
}

// Every kind of configuration command while connections are open and being made.
void genC14(G &g)
{
    int64_t end = g.one({500000, 1500000, 4000000});
    g.base(end);
    g.health();
    g.bystander(g.r.below(3));
    bool tls = g.r.pct(35);
    // the broker actors; backends of the configuration come and go on them
    struct A {
        std::string host;
        int         port;
        bool        dns, tls, pp;
    };
    std::vector<A> as;
    int na = 2 + g.r.below(4);
    for (int i = 0; i < na; ++i) {
        bool t = tls && g.r.pct(40), pp = g.r.pct(15);
        if (g.r.pct(15)) {
            auto b = g.dnsBackend("dc1", 1 + g.r.below(2), t, pp);
            g.p.items.pop_back();   // its BACKEND ADD_DNS
            as.push_back({b + ".example.com", (int)g.brokerItem(b).n("port"), true, t, pp});
        }
        else {
            auto b = g.broker("dc1", t, pp);
            g.p.items.pop_back();
            as.push_back({g.brokerItem(b).s("ip"), (int)g.brokerItem(b).n("port"), false, t, pp});
        }
    }
    for (auto &it : g.p.items)
        if (it.kind == "broker" && it.s("id")[0] == 'b' && it.s("id") != "by") {
            if (g.r.pct(15)) it.set("mode", g.one({"refuse", "unreach", "acceptrst"}));
            if (g.r.pct(40)) it.set("opendelay", (int64_t)g.one({200, 3000, 50000}));
        }
    std::vector<std::string> bk, fm, vh;
    for (int i = 0, n = 2 + g.r.below(4); i < n; ++i) bk.push_back("k" + std::to_string(i));
    for (int i = 0, n = 1 + g.r.below(3); i < n; ++i) fm.push_back("f" + std::to_string(i));
    for (int i = 0, n = 1 + g.r.below(4); i < n; ++i) vh.push_back("vx" + std::to_string(i));
    auto add = [&](const std::string &n) {
        A a = g.r.pick(as);
        return std::string(a.dns ? "BACKEND ADD_DNS " : "BACKEND ADD ") + n + " " + g.one({"dc1", "dc2"}) + " " + a.host + " " + std::to_string(a.port) + (a.pp ? " SEND-PROXY" : "") + (a.tls ? " TLS" : "");
    };
    auto farm = [&](const std::string &f) {
        std::string c = "FARM ADD " + f + " round-robin";
        for (int i = 0, k = 1 + g.r.below(4); i < k; ++i) c += " " + g.r.pick(bk);
        return c;
    };
    auto map = [&](const std::string &v) { return g.r.pct(40) ? "MAP BACKEND " + v + " " + g.r.pick(bk) : "MAP FARM " + v + " " + g.r.pick(fm); };
    for (auto &b : bk) g.conf(add(b));
    for (auto &f : fm) {
        g.conf(farm(f));
        if (g.r.pct(40)) g.conf("FARM PARTITION " + f + " datacenter-affinity");
    }
    for (auto &v : vh) g.conf(map(v));
    if (g.r.pct(40)) g.conf("MAP DEFAULT " + g.r.pick(fm));
    if (g.r.pct(50)) g.conf("DATACENTER SET dc1");
    g.listen();
    g.listen(5999);
    if (tls) g.listenTls();
    bool par = g.r.pct(30), auth = g.r.pct(30), lim = g.r.pct(30), hn = g.r.pct(30);
    if (g.r.pct(50)) auth = lim = false;
    bool authOn = auth && g.r.pct(50);
    if (authOn) g.conf("AUTH SERVICE authsvc 8080 /auth");
    std::vector<int64_t> times;
    bool    storm = g.r.pct(30);   // many changes at the very moment clients connect
    int     n = storm ? 20 + g.r.below(60) : 1 + g.r.below(16);
    int64_t t = 0, t0 = g.r.below(end);
    if (storm) {
        if (g.r.pct(60)) par = true;
        if (g.r.pct(70)) g.run().set("upreempt", 60).set("pstall", 60);
        if (g.r.pct(70)) g.run().set("latmin", 20).set("latmax", 200);
    }
    for (int i = 0; i < n; ++i) {
        if (storm) t = t0 + g.r.below(12000);
        else
            t = i && g.r.pct(40) ? t + g.one({0, 100, 1000, 20000}) : (int64_t)g.r.below(end);
        std::string c;
        switch (g.r.below(20)) {
          case 0: case 1: case 2: case 3: c = "BACKEND DELETE " + g.r.pick(bk); break;
          case 4: case 5: case 6: {
            auto b = g.r.pick(bk);
            if (g.r.pct(60)) {
                g.p.add("cmd").set("t", t).set("cmd", "BACKEND DELETE " + b);
                if (par && g.r.pct(50)) g.p.items.back().set("par", 1);
            }
            c = add(b);
            break;
          }
          case 7: case 8: c = farm(g.r.pick(fm)); break;
          case 9: c = "FARM DELETE " + g.r.pick(fm); break;
          case 10: c = "FARM PARTITION " + g.r.pick(fm) + " datacenter-affinity"; break;
          case 11: case 12: c = "DATACENTER SET " + std::string(g.one({"dc1", "dc2", "dc3"})); break;
          case 13: c = map(g.r.pick(vh)); break;
          case 14: c = g.one({"MAP UNMAP ", "MAP DEFAULT ", "MAP REMOVE_DEFAULT"});
            if (c == "MAP UNMAP ") c += g.r.pick(vh);
            if (c == "MAP DEFAULT ") c += g.r.pick(fm);
            break;
          case 15:
            if (!lim) { c = "LIMIT PRINT"; break; }
            c = g.one({"LIMIT CONN_RATE VHOST ", "LIMIT CONN_RATE_ALARM VHOST ", "LIMIT DATA_RATE VHOST ", "LIMIT DATA_RATE_ALARM VHOST ", "LIMIT DISABLE CONN_RATE VHOST ", "LIMIT DISABLE DATA_RATE VHOST "}) + g.r.pick(vh);
            if (c.find("DISABLE") == std::string::npos) c += " " + std::to_string(c.find("CONN") != std::string::npos ? g.one({1, 3}) : g.one({20000, 60000, 1000000}));
            if (g.r.pct(20)) c = g.one({"LIMIT DATA_RATE DEFAULT 30000", "LIMIT CONN_RATE DEFAULT 5", "LIMIT DISABLE DATA_RATE DEFAULT", "LIMIT DISABLE CONN_RATE DEFAULT"});
            break;
          case 16: c = auth ? g.one({"AUTH SERVICE authsvc 8080 /a2", "AUTH ALWAYS_ALLOW"}) : "AUTH PRINT"; break;
          case 17: c = hn ? "MAPHOSTNAME DNS" : "MAP PRINT"; break;
          case 18: c = tls ? g.one({"TLS INGRESS CERT_CHAIN_FILE @CERTS@/cert.pem", "TLS INGRESS KEY_FILE @CERTS@/key.pem", "TLS EGRESS CA_CERT_FILE @CERTS@/cert.pem", "TLS EGRESS VERIFY_MODE PEER", "TLS EGRESS VERIFY_MODE NONE", "TLS INGRESS CIPHERS PRINT"}) : g.one({"BACKEND PRINT", "FARM PRINT", "STAT SEND statsd 8125", "STAT STOP SEND", "CONN"}); break;
          default: c = g.one({"LISTEN STOP 5999", "LISTEN START 5999"});
        }
        g.p.add("cmd").set("t", t).set("cmd", c);
        if (par && g.r.pct(50)) g.p.items.back().set("par", 1);
        times.push_back(t);
    }
    if (hn)
        for (int i = storm && g.r.pct(50) ? 30 : g.r.below(6); i > 0; --i) g.p.add("cmd").set("t", (int64_t)(storm ? t0 + g.r.below(12000) : g.r.pick(times) + g.r.below(3000))).set("cmd", "MAPHOSTNAME DNS").set("par", 1);
    if (hn) g.run().set("rdnsmin", (int64_t)g.one({10, 200})).set("rdnsmax", (int64_t)g.one({500, 3000, 20000}));
    if (hn && g.r.pct(30)) g.p.add("ctlstream").set("t", (int64_t)g.r.below(1000)).set("cmd", "STAT LISTEN json all");
    int nc = g.r.pct(20) ? 1 + g.r.below(3) : 3 + g.r.below(14);
    while (nc--) {
        int64_t at = storm && g.r.pct(85) ? t0 - 2000 + g.r.below(12000) : g.r.pct(60) ? g.r.pick(times) + g.one({-50000, -3000, -1200, -600, -200, 0, 300, 20000}) : (int64_t)g.r.below(end);
        if (at < 0) at = g.r.below(1000);
        bool  t5 = tls && g.r.pct(40);
        Item &c  = g.client(at, g.r.pct(10) ? "unm" : g.r.pick(vh), t5);
        if (!t5 && g.r.pct(25)) c.set("port", 5999);
        if (g.r.pct(80)) g.traffic(c, 30, 30, 1200);
        noStalls(c);
        if (authOn || auth) c.set("auth", g.one({"allow", "allow", "allowcred", "deny"})).set("authdelay", (int64_t)g.one({100, 3000, 50000}));
        if (g.r.pct(12)) c.set("end", g.one({"fin", "rst", "amqp"})).set("dur", (int64_t)g.r.below(300000));
    }
    if (hn)
        for (auto &i : g.p.items)
            if (i.kind == "client" && g.r.pct(50)) g.tail.push_back(Item{"rdns"}), g.tail.back().set("ip", i.s("ip")).set("host", i.s("id") + ".example.net");
    if (hn)
        for (auto &i : g.tail)
            if (g.r.pct(40)) i.set("delay", (int64_t)g.one({5000, 50000, 200000}));
    for (auto &i : g.tail) g.p.items.push_back(i);
    g.tail.clear();
    if (g.r.pct(50)) {
        int k = 1 + g.r.below(3);
        while (k--) g.p.add("stallth").set("t", (int64_t)std::max<int64_t>(0, g.r.pick(times) - g.one({100, 2000, 20000}))).set("th", (int64_t)g.r.below(5)).set("for", (int64_t)g.one({500, 5000, 60000}));
    }
    if (auth || lim) g.run().set("health", 0);
    g.run().set("settle", 15000000);
}

// Some parties are stuck; others must not notice.
void genC18(G &g)
{
    int64_t end = g.one({3000000, 8000000, 20000000});
    g.base(end);
    g.health();
    g.bystander(1);
    g.listen();
    bool tls = g.r.pct(30);
    if (tls) g.listenTls();
    // 0: strict; otherwise a way of getting stuck that is a recorded finding
    int kf = g.r.pct(12) ? 1 + g.r.below(3) : 0;
    g.run().set("kf", (int64_t)kf);
    auto fastVh = vhostsOnBrokers(g, 1 + g.r.below(2), "vf", tls ? 30 : 0, 10);
    bool auth = g.r.pct(35);
    if (auth) g.conf("AUTH SERVICE 10.9.9.9 8080 /auth");
    bool slowDns = kf == 1 || g.r.pct(50), hungBrokers = g.r.pct(50), stuckClients = g.r.pct(60), badCtl = g.r.pct(70);
    std::vector<std::string> stuckVh;
    if (slowDns)
        for (int i = 0, n = 1 + g.r.below(3); i < n; ++i) {
            auto b = g.dnsBackend("dc1", 1);
            g.dnsItem(b).set("delay", (int64_t)g.one({2500000, 8000000, 30000000}));
            if (g.r.pct(30)) g.dnsItem(b).set("err", g.one({"again", "noname"}));
            stuckVh.push_back("vd" + std::to_string(i));
            g.conf("MAP BACKEND " + stuckVh.back() + " " + b);
        }
    if (hungBrokers)
        for (int i = 0, n = 1 + g.r.below(2); i < n; ++i) {
            bool bt = tls && g.r.pct(40);
            auto b  = g.broker("dc1", bt);
            Item &it = g.brokerItem(b);
            if (g.r.pct(40)) it.set("mode", g.one({"blackhole", "unreach"}));
            else
                it.set("hs", std::string("hang@") + g.one({"connect", "hdr", "startok", "open"}));
            stuckVh.push_back("vb" + std::to_string(i));
            g.conf("MAP BACKEND " + stuckVh.back() + " " + b);
        }
    if (kf == 1) {   // a quickly resolved name behind the slow ones
        auto b = g.dnsBackend("dc1", 1);
        g.dnsItem(b).set("delay", 1000);
        fastVh.push_back("vn");
        g.conf("MAP BACKEND vn " + b);
    }
    if (kf == 2) {
        g.p.add("dns").set("host", "slow.example.com").set("ips", "10.66.0.1").set("delay", (int64_t)g.one({2500000, 8000000}));
        g.cmd(g.r.below(end), "BACKEND ADD slowb dc1 slow.example.com 5672");
    }
    if (kf == 3) {
        g.conf("MAPHOSTNAME DNS");
        g.p.add("rdns").set("ip", "172.16.9.9").set("host", "slow.example.net").set("delay", (int64_t)g.one({2500000, 8000000}));
        g.client(g.r.below(end), g.r.pick(fastVh)).set("ip", "172.16.9.9").set("sport", 29999).set("noexpect", 1);
    }
    int n = stuckVh.empty() ? 0 : 1 + g.r.below(8);
    while (n--) {
        Item &c = g.client(g.r.below(end), g.r.pick(stuckVh), tls && g.r.pct(30));
        c.set("noexpect", 1).set("auth", "allow");
        if (g.r.pct(20)) c.set("rst_at", (int64_t)g.r.below(3000000));
    }
    if (auth)
        for (int k = g.r.below(6); k > 0; --k) g.client(g.r.below(end), g.r.pick(fastVh)).set("noexpect", 1).set("auth", g.one({"hang", "allow", "deny", "trunc", "garbage"})).set("authdelay", (int64_t)g.one({5000000, 20000000}));
    if (stuckClients)
        for (int k = 1 + g.r.below(6); k > 0; --k) {
            Item &c = g.client(g.r.below(end), g.r.pick(fastVh), tls && g.r.pct(40));
            c.set("noexpect", 1).set("auth", "allow");
            switch (g.r.below(4)) {
              case 0: c.set("badstage", g.one({"hdr", "startok", "tuneok", "open"})).set("bad", "hang"); break;
              case 1: c.set("cap", 2304).set("down", (int64_t)(50 + g.r.below(300))).set("maxframe", 4096).set("stall", 0).set("stall_for", (int64_t)end * 2); break;
              case 2: c.set("up", (int64_t)(50 + g.r.below(300))).set("maxframe", 4096).set("bstall", 0).set("bstall_for", (int64_t)end * 2); break;
              default: c.set("raw", amqp::rndBytes(g.r, g.one({1, 5, 7})));
            }
        }
    if (badCtl)
        for (int k = 1 + g.r.below(12); k > 0; --k) {
            Item &c = g.p.add("ctlbad");
            c.set("t", (int64_t)g.r.below(end)).set("how", g.one({"partial", "noread", "rst", "fin", "garbage", "longline", "hang", "weird", "weird", "weird", "weird", "weird", "statnoread"})).set("seed", (int64_t)g.r.below(1 << 30));
            if (c.s("how") == "noread" || c.s("how") == "statnoread") c.set("cap", (int64_t)g.one({2304, 8192}));
            if (c.s("how") == "longline") c.set("n", (int64_t)g.one({5000, 100000, 2000000}));
        }
    // those who are to be served promptly
    n = 3 + g.r.below(8);
    while (n--) {
        Item &c = g.client(g.r.below(end), kf == 1 && g.r.pct(50) ? "vn" : g.r.pick(fastVh), tls && g.r.pct(30));
        g.traffic(c, 10, 10, 1500);
        noStalls(c);
        c.set("gap", (int64_t)g.one({0, 50, 3000})).set("auth", "allow").set("authdelay", 500).set("prompt", 1).set("end", "amqp").set("dur", (int64_t)g.one({1000, 100000, 1000000}));
    }
    n = 2 + g.r.below(8);
    while (n--) g.p.add("cmd").set("t", (int64_t)g.r.below(end)).set("cmd", g.one({"CONN", "BACKEND PRINT", "MAP PRINT", "FARM PRINT", "HELP", "VHOST PRINT", "LIMIT PRINT", "DATACENTER PRINT", "AUTH PRINT"})).set("par", 1);
    if (auth) g.run().set("health", 0);
    g.run().set("pstall", 0);
    g.run().set("settle", 100000000);
}

// Far more data than the proxy may hold, towards readers that stop and go on.
void genC19(G &g)
{
    int64_t end = g.one({2000000, 6000000});
    g.base(end);
    g.health();
    g.bystander(1);
    g.listen();
    bool tls = g.r.pct(30);
    if (tls) g.listenTls();
    auto vh = vhostsOnBrokers(g, 1 + g.r.below(2), "vs", tls ? 50 : 0, 20);
    int  n  = 1 + g.r.below(3);
    while (n--) {
        Item   &c    = g.client(g.r.below(200000), g.r.pick(vh), tls && g.r.pct(50));
        int64_t mf   = g.one({4096, 16400, 65536, 131072}), vol = 900000 + g.r.below(900000);
        int64_t avg  = mf == 4096 ? 900 : mf == 16400 ? 2400 : mf == 65536 ? 5500 : 9500;
        int     what = g.r.below(3);
        c.set("maxframe", mf).set("burst", (int64_t)g.one({1, 5, 20})).set("gap", (int64_t)g.one({0, 50}));
        if (g.r.pct(60)) c.set("cap", (int64_t)g.one({2304, 8192, 200000, 400000}));
        auto stall = [&](const std::string &k) {
            c.set(k, (int64_t)g.r.below(30000));
            if (g.r.pct(50)) c.set(k + "_for", (int64_t)(300000 + g.r.below(end)));
            else {
                int64_t f = g.one({3000, 20000, 100000});
                c.set(k + "_for", f).set(k + "_every", f + (int64_t)g.one({10, 500, 4000})).set(k + "_rep", (int64_t)(5 + g.r.below(30)));
            }
        };
        if (what != 1) c.set("up", vol / avg), stall("bstall");
        if (what != 0) c.set("down", vol / avg), stall("stall");
        if (what != 2 && g.r.pct(50)) c.set(what ? "up" : "down", (int64_t)g.r.below(40));
    }
    if (g.r.pct(25)) g.conf("LIMIT DATA_RATE DEFAULT " + std::to_string((int64_t)g.one({200000, 1000000})));
    if (g.r.pct(25)) {
        std::string v = g.r.pick(vh);
        int64_t     t = 100000 + g.r.below(end);
        g.cmd(t, "VHOST PAUSE " + v);
        g.cmd(t + 100000 + g.r.below(1000000), "VHOST UNPAUSE " + v);
    }
    g.run().set("pstall", 0).set("settle", 60000000);
}

// Sessions of every length and end relative to the collection ticks.
void genC13(G &g)
{
    int64_t end = g.one({1500000, 4000000, 7000000});
    g.base(end);
    g.health();
    g.bystander(1);
    g.listen();
    bool tls = g.r.pct(20);
    if (tls) g.listenTls();
    int tick = g.one({1000, 1000, 200, 50, 20});
    if (tick != 1000) g.run().set("args", "--cleanupIntervalMs " + std::to_string(tick));
    auto vh = vhostsOnBrokers(g, 1 + g.r.below(3), "vt", tls ? 30 : 0, 10);
    if (g.r.pct(30)) {   // the usual name of a vhost, and other short ones
        std::string v = g.one({"/", "q", "a=b"});
        g.conf("MAP BACKEND " + v + " b1");
        vh.push_back(v);
    }
    bool auth = g.r.pct(20), limit = g.r.pct(20), pause = g.r.pct(15), force = g.r.pct(25), mapper = g.r.pct(15), persource = g.r.pct(10);
    if (auth) g.conf("AUTH SERVICE 10.9.9.9 8080 /auth");
    if (limit) g.conf("LIMIT CONN_RATE VHOST " + vh[0] + " " + std::to_string(1 + g.r.below(3)));
    if (mapper && g.r.pct(40)) {
        g.conf("MAPHOSTNAME DNS");
        mapper = false;
    }
    g.p.add("ctlstream").set("t", 0).set("cmd", "STAT LISTEN json all").set("as", "main");
    if (g.r.pct(60)) {
        Item &s = g.p.add("ctlstream");
        s.set("t", (int64_t)g.r.below(end)).set("cmd", "STAT LISTEN json all").set("as", "same");
        if (g.r.pct(70)) s.set("cap", (int64_t)g.one({2304, 4096, 16384})).set("stall", 0).set("stall_every", (int64_t)(tick * 5000 + 1000)).set("stall_for", (int64_t)(tick * (1000 + g.r.below(3900)))).set("stall_rep", (int64_t)20);
        if (g.r.pct(30)) s.set("dur", (int64_t)g.r.below(end));
    }
    for (int k = g.r.pct(50) ? 1 + g.r.below(3) : 0; k > 0; --k) {
        std::string f = g.one({"overall", "vhost=", "backend=", "source=172.16.77.", "source=172.16.0."});
        if (f == "vhost=") f += g.r.pick(vh);
        if (f == "backend=") f += g.one({"10.0.0.2_5672", "10.0.0.2_5673", "10.0.0.3_5672"});
        if (f.back() == '.') f += std::to_string(1 + g.r.below(4));
        if (f.find("a=b") != std::string::npos) continue;
        g.p.add("ctlstream").set("t", (int64_t)g.r.below(end)).set("cmd", g.one({"STAT LISTEN json ", "STAT listen JSON "}) + f).set("as", "filter");
    }
    if (g.r.pct(50)) {
        int64_t at = g.r.below(end);
        g.cmd(at, "STAT SEND statsd 8125");
        if (g.r.pct(30)) g.cmd(at + g.r.below(end - at + 1), "STAT STOP SEND");
        if (g.r.pct(50)) g.p.add("sysfault").set("t", (int64_t)g.r.below(end)).set("op", "udpsend").set("err", EAGAIN).set("n", (int64_t)(1 + g.r.below(20)));
    }
    int n = 4 + g.r.below(20);
    std::vector<std::string> ids;
    while (n--) {
        // often right around a tick
        int64_t t = g.r.below(end);
        if (g.r.pct(50)) t = t / (tick * 1000) * (tick * 1000) + (int64_t)g.r.range(-3000, 3000);
        if (t < 0) t = 0;
        Item &c = g.client(t, g.r.pct(6) ? "vunmapped" : g.r.pick(vh), tls && g.r.pct(40));
        if (g.r.pct(50)) c.set("ip", "172.16.77." + std::to_string(1 + g.r.below(3)));
        g.traffic(c, g.one({5, 40}), g.one({5, 40}), g.one({2000, 70000}));
        c.set("auth", auth && g.r.pct(20) ? "deny" : "allow").set("authdelay", (int64_t)g.one({100, 20000}));
        int64_t d = g.one({500, 20000, 300000, 1500000});
        switch (g.r.below(6)) {
          case 0: c.set("end", "fin").set("dur", d); break;
          case 1: c.set("end", "rst").set("dur", d); break;
          case 2: c.set("end", "amqp").set("dur", d); break;
          case 3: c.set("bend", g.one({"fin", "rst"})).set("bdur", d); break;
          case 4: c.set("rst_at", (int64_t)g.r.below(5000)); break;
        }
        ids.push_back(c.s("id"));
    }
    if (force)
        for (int k = 1 + g.r.below(4); k > 0; --k) g.cmd(g.r.below(end), g.r.pct(50) ? "VHOST FORCE_DISCONNECT " + g.r.pick(vh) : "SESSION {" + g.r.pick(ids) + "} FORCE_DISCONNECT");
    if (pause) {
        int64_t t = g.r.below(end);
        g.cmd(t, "VHOST PAUSE " + g.r.pick(vh));
    }
    if (mapper) g.cmd(g.r.below(end), "MAPHOSTNAME DNS");
    if (persource) {
        g.cmd(g.r.below(end), "STAT DISABLE per-source");
        g.cmd(g.r.below(end), "STAT ENABLE per-source");
    }
    // the reports are being listened to before there is anything to report
    for (auto &i : g.p.items)
        if (i.has("t") && i.s("as") != "main") i.set("t", i.n("t") + tick * 1000 + 400000);
    g.run().set("end", end + tick * 1000 + 400000).set("keepstreams", 1).set("health", 0).set("settle", 2500000);
}

// Several control users at once, over the same few names, with clients about.
void genC21(G &g)
{
    int64_t end = g.one({20000, 200000, 1500000});
    g.base(end);
    g.health();
    g.bystander(1);
    g.listen();
    auto vh = vhostsOnBrokers(g, 1 + g.r.below(2), "vl", 0, 20);
    std::vector<std::string> vhosts{"va", "vb", "/", "vc"}, farms{"fa", "fb", "fc"}, backs{"xa", "xb", "xc", "xd"};
    for (auto &v : vh) vhosts.push_back(v);
    int big = g.r.pct(20) ? g.one({40, 200}) : 0;
    for (int k = 0; k < big; ++k) g.conf("BACKEND ADD_DNS big" + std::to_string(k) + " dc1 some-rather-long-host-name-" + std::to_string(k) + ".example.com 5672");
    auto lim = [&] {
        std::string k = g.one({"CONN_RATE", "CONN_RATE_ALARM", "DATA_RATE", "DATA_RATE_ALARM"});
        return k;
    };
    auto who = [&]() -> std::string { return g.r.pct(30) ? "DEFAULT" : "VHOST " + g.r.pick(vhosts); };
    auto make = [&]() -> std::string {
        std::string b = g.r.pick(backs), f = g.r.pick(farms), v = g.r.pick(vhosts);
        std::string limN = std::to_string((int64_t)g.one({50000000, 60000000, 70000000}));
        switch (g.r.below(26)) {
          case 0: case 1: return "BACKEND ADD " + b + " " + g.one({"dc1", "dc2"}) + " 10.5.0." + std::to_string(1 + g.r.below(3)) + " " + g.one({"5672", "5673", "0"}) + g.one({"", " SEND-PROXY", " TLS", " SEND-PROXY TLS", " tls send-proxy"});
          case 2: return "BACKEND ADD_DNS " + b + " dc1 host" + std::to_string(g.r.below(3)) + ".example.com 5672" + g.one({"", " TLS"});
          case 3: return "BACKEND DELETE " + b;
          case 4: case 5: case 6: return "BACKEND PRINT";
          case 7: case 8: {
            std::string c = "FARM ADD " + f + " round-robin";
            auto        o = backs;
            for (int k = 1 + g.r.below(3); k > 0; --k) {
                size_t i = g.r.below(o.size());
                c += " " + o[i];
                o.erase(o.begin() + i);
            }
            return c;
          }
          case 9: return "FARM PARTITION " + f + " datacenter-affinity";
          case 10: return "FARM DELETE " + f;
          case 11: case 12: return "FARM PRINT";
          case 13: return "MAP BACKEND " + g.r.pick(vhosts) + " " + b;
          case 14: return "MAP FARM " + v + " " + f;
          case 15: return "MAP UNMAP " + v;
          case 16: case 17: return "MAP PRINT";
          case 18: return g.r.pct(50) ? std::string("DATACENTER PRINT") : "DATACENTER SET dc" + std::to_string(1 + g.r.below(3));
          case 19: return g.one({"AUTH PRINT", "AUTH ALWAYS_ALLOW", "AUTH PRINT"});
          case 20: return "LIMIT " + lim() + " " + who() + " " + limN;
          case 21: return "LIMIT DISABLE " + lim() + " " + who();
          case 22: return g.r.pct(50) ? std::string("LIMIT PRINT") : "LIMIT PRINT " + v;
          case 23: return "VHOST " + std::string(g.one({"PAUSE", "UNPAUSE"})) + " " + g.one({"va", "vb", "vc"});
          case 24: return "VHOST PRINT";
          default: return "CONN";
        }
    };
    int n = 10 + g.r.below(50);
    while (n--) {
        Item &c = g.p.add("cmd");
        c.set("t", (int64_t)g.r.below(end)).set("cmd", make()).set("par", 1);
        if (g.r.pct(20)) c.set("cap", (int64_t)g.one({2304, 4096}));
        if (g.r.pct(10)) c.set("stall_for", (int64_t)g.one({2000, 20000, 200000}));
    }
    n = 1 + g.r.below(8);
    while (n--) {
        Item &c = g.client(g.r.below(end), g.r.pct(70) ? g.r.pick(vh) : g.r.pick(vhosts));
        g.traffic(c, 30, 30, g.one({600, 9000}));
        if (g.r.pct(50)) c.set("end", g.one({"fin", "rst", "amqp"})).set("dur", (int64_t)g.one({500, 20000, 300000}));
    }
    if (g.r.pct(30)) {   // an authentication service of its own
        g.conf("AUTH SERVICE 10.9.9.9 8080 /auth");
        for (auto &i : g.p.items)
            if (i.kind == "client") i.set("auth", "allow");
    }
    n = g.r.below(4);
    while (n--) g.p.add("ctlbad").set("t", (int64_t)g.r.below(end)).set("how", g.one({"partial", "noread", "hang", "garbage"})).set("n", 20).set("cap", 4096).set("seed", (int64_t)g.r.below(1000));
    g.threadStalls(end);
    g.run().set("pstall", 0).set("settle", 3000000);
}

// EXIT at an arbitrary moment of any of the other kinds of run.
void genC16(G &g)
{
    GenMap m;
    addGens2(m);
    addGens3(m);
    m.erase("C16");
    std::vector<std::string> k;
    for (auto &x : m) k.push_back(x.first);
    m[g.r.pick(k)](g);
    Item   &run = g.run();
    int64_t end = run.n("end");
    // often right at something that is going on
    std::vector<int64_t> ts;
    for (auto &i : g.p.items)
        if (i.has("t") && i.n("t") < end) ts.push_back(i.n("t"));
    int64_t at = g.r.pct(70) && !ts.empty() ? g.r.pick(ts) + g.one({0, 50, 300, 1500, 8000, 50000, 760000}) : (int64_t)g.r.below(end + 1);
    int n = g.r.pct(40) ? 1 + g.r.below(3) : 0;
    while (n--) {
        int64_t t = at - (int64_t)g.r.below(3000000);
        if (t < 0) t = g.r.below(at + 1);
        switch (g.r.below(4)) {
          case 0: g.p.add("ctlstream").set("t", t).set("cmd", g.one({"STAT LISTEN json all", "STAT LISTEN human overall"})); break;
          case 1: g.p.add("ctlbad").set("t", t).set("how", g.one({"partial", "noread", "hang"})).set("cap", 4096); break;
          case 2: g.p.add("cmd").set("t", at - (int64_t)g.r.below(200)).set("cmd", g.one({"CONN", "STAT SEND statsd 8125", "MAPHOSTNAME DNS", "LISTEN STOP", "HELP"})).set("par", 1); break;
          default:
            for (auto &i : g.p.items)
                if (i.kind == "dns") i.set("delay", (int64_t)g.one({500000, 5000000, 15000000}));
        }
    }
    for (auto &i : g.p.items)
        if (i.n("t") < 0) i.set("t", 0);
    run.set("exitat", at).set("health", 0);
}
}
void addGens4(GenMap &m)
{
    m["C14"] = genC14;
    m["C18"] = genC18;
    m["C13"] = genC13;
    m["C19"] = genC19;
    m["C16"] = genC16;
    m["C17"] = genC17;
    m["C15"] = genC15;
    m["C21"] = genC21;
}
