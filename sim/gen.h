// Building blocks for plan generation. Swarm style: each seed picks its own
// sizes, mixes and fault kinds.
#pragma once
#include "actors.h"
#include <functional>

struct G {
    Rng         r;
    Plan        p;
    uint64_t    seed;
    std::string prop;
    int         nclient = 0, nbroker = 0;
    bool        tlsIn = false, tlsOut = false;
    std::vector<Item> tail;   // items added after the configuration
    G(const std::string &pr, uint64_t s) : r(s, fnv(pr.data(), pr.size())), seed(s), prop(pr) {}
    template <class T> T one(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
    Item &run()
    {
        Item *i = p.first("run");
        if (i) return *i;
        return p.add("run");
    }
    void base(int64_t endUs)
    {
        Item &i = run();
        i.set("prop", prop).set("seed", (int64_t)(r.next() >> 2));
        i.set("preempt", (int64_t)one({0, 0, 20000, 5000, 2000, 700, 250}));
        i.set("upreempt", (int64_t)one({0, 0, 0, 4, 15, 50}));
        i.set("pstall", (int64_t)one({0, 10, 25, 50}));
        i.set("yield", (int64_t)one({0, 5, 10, 30, 60}));
        i.set("rpick", (int64_t)r.pct(80)).set("rready", (int64_t)r.pct(80));
        int64_t lm = one({5, 20, 20, 100});
        i.set("latmin", lm).set("latmax", lm + one({20, 100, 300, 300, 3000, 15000}));
        i.set("rec", (int64_t)one({0, 0, 20, 60})).set("seg", (int64_t)one({0, 10, 30, 30, 70})).set("sw", (int64_t)one({0, 5, 5, 30})).set("sr", (int64_t)one({0, 5, 5, 30}));
        i.set("cap", (int64_t)one({8192, 65536, 65536, 65536, 262144}));
        i.set("end", endUs);
        if (!r.pct(10)) conf("LOG FILE 0");
        else
            conf("LOG FILE 5");
    }
    void conf(const std::string &c) { p.add("conf").set("cmd", c); }
    void cmd(int64_t t, const std::string &c) { p.add("cmd").set("t", t).set("cmd", c); }
    std::string broker(const std::string &dc = "dc1", bool tls = false, bool pp = false, const std::string &id0 = "")
    {
        int         n  = ++nbroker;
        std::string id = id0.empty() ? "b" + std::to_string(n) : id0;
        std::string ip = "10.0." + std::to_string(n / 200) + "." + std::to_string(1 + n % 200);
        int         port = one({5672, 5672, 5673, 5672, 47213});
        Item       &b  = p.add("broker");
        b.set("id", id).set("ip", ip).set("port", (int64_t)port);
        if (tls) b.set("tls", 1);
        if (pp) b.set("pp", 1);
        if (tls && !tlsOut) {
            tlsOut = true;
            conf("TLS EGRESS CA_CERT_FILE @CERTS@/cert.pem");
            conf("TLS EGRESS VERIFY_MODE PEER");
        }
        conf("BACKEND ADD " + id + " " + dc + " " + ip + " " + std::to_string(port) + (pp ? " SEND-PROXY" : "") + (tls ? " TLS" : ""));
        last = p.items.size() - 2;
        return id;
    }
    size_t last = 0;
    Item  &brokerItem(const std::string &id)
    {
        for (auto &i : p.items)
            if (i.kind == "broker" && i.s("id") == id) return i;
        abort();
    }
    void listen(int port = 5672) { conf("LISTEN START " + std::to_string(port)); }
    void listenTls(int port = 5671)
    {
        conf("TLS INGRESS CERT_CHAIN_FILE @CERTS@/cert.pem");
        conf("TLS INGRESS KEY_FILE @CERTS@/key.pem");
        conf("LISTEN START_SECURE " + std::to_string(port));
        tlsIn = true;
    }
    void health()
    {
        Item &b = p.add("broker");
        b.set("id", "hb").set("ip", "10.0.250.1").set("port", 5672);
        conf("BACKEND ADD hb dc1 10.0.250.1 5672");
        conf("MAP BACKEND healthvh hb");
    }
    Item &client(int64_t t, const std::string &vhost, bool tls = false)
    {
        int   n = ++nclient;
        Item &c = p.add("client");
        c.set("id", "c" + std::to_string(n)).set("t", t).set("vhost", vhost);
        c.set("ip", "172.16." + std::to_string(n / 200) + "." + std::to_string(1 + n % 200)).set("sport", (int64_t)(1024 + (19977 + n * 6151) % 64000));
        if (tls) c.set("tls", 1).set("port", 5671);
        if (r.pct(50)) c.set("nprops", (int64_t)r.below(8));
        if (r.pct(30)) c.set("split_open", 1);
        if (r.pct(20)) c.set("legacy", 1);
        return c;
    }
    void traffic(Item &c, int maxUp, int maxDown, int maxFrame)
    {
        int up = maxUp ? r.below(maxUp + 1) : 0, down = maxDown ? r.below(maxDown + 1) : 0;
        if (r.pct(20)) up = 0;
        if (r.pct(20)) down = 0;
        if (up) c.set("up", (int64_t)up);
        if (down) c.set("down", (int64_t)down);
        c.set("maxframe", (int64_t)maxFrame);
        if (r.pct(50)) c.set("burst", (int64_t)one({2, 5, 20}));
        c.set("gap", (int64_t)one({0, 50, 500, 3000}));
        if (r.pct(30)) c.set("eager", 1);
        if (r.pct(30)) c.set("cap", (int64_t)one({2304, 4096, 8192}));
        if (r.pct(15)) c.set("stall", (int64_t)r.below(30000)).set("stall_for", (int64_t)one({1000, 50000, 400000}));
        if (r.pct(15)) c.set("bstall", (int64_t)r.below(30000)).set("bstall_for", (int64_t)one({1000, 50000, 400000}));
    }
    // A backend given by name: one broker actor per address ("n", "n_1", ...).
    std::string dnsBackend(const std::string &dc, int naddr, bool tls = false, bool pp = false, bool v6 = false)
    {
        int         n  = ++nbroker;
        std::string id = "b" + std::to_string(n), ips;
        int         port = one({5672, 5673});
        for (int k = 0; k < naddr; ++k) {
            std::string ip = v6 && r.pct(40) ? "fd00::" + std::to_string(n) + ":" + std::to_string(k + 1) : "10.1." + std::to_string(n) + "." + std::to_string(1 + k);
            Item       &b  = p.add("broker");
            b.set("id", k ? id + "_" + std::to_string(k) : id).set("ip", ip).set("port", (int64_t)port);
            if (tls) b.set("tls", 1);
            if (pp) b.set("pp", 1);
            ips += (k ? "," : "") + ip;
        }
        p.add("dns").set("host", id + ".example.com").set("ips", ips).set("delay", (int64_t)one({50, 1000, 1000, 20000}));
        if (tls && !tlsOut) {
            tlsOut = true;
            conf("TLS EGRESS CA_CERT_FILE @CERTS@/cert.pem");
            conf("TLS EGRESS VERIFY_MODE PEER");
        }
        conf("BACKEND ADD_DNS " + id + " " + dc + " " + id + ".example.com " + std::to_string(port) + (pp ? " SEND-PROXY" : "") + (tls ? " TLS" : ""));
        return id;
    }
    Item &dnsItem(const std::string &id)
    {
        for (auto &i : p.items)
            if (i.kind == "dns" && i.s("host") == id + ".example.com") return i;
        abort();
    }
    // A connection nobody has reason to disturb: open early, some traffic, stays.
    void bystander(int n = 1)
    {
        Item &b = p.add("broker");
        b.set("id", "by").set("ip", "10.0.251.1").set("port", 5672);
        conf("BACKEND ADD by dc1 10.0.251.1 5672");
        conf("MAP BACKEND vby by");
        while (n--) {
            Item &c = client(r.below(3000), "vby");
            c.set("bystander", 1).set("up", (int64_t)(3 + r.below(30))).set("down", (int64_t)(3 + r.below(30))).set("gap", (int64_t)one({500, 5000, 40000}));
            c.set("maxframe", (int64_t)one({64, 600, 4096}));
        }
    }
    void threadStalls(int64_t end)
    {
        if (!r.pct(30)) return;
        int n = 1 + r.below(3);
        while (n--) p.add("stallth").set("t", (int64_t)r.below(end)).set("th", (int64_t)r.below(5)).set("for", (int64_t)one({500, 20000, 300000}));
    }
};
using GenMap = std::map<std::string, std::function<void(G &)>>;
void addGens2(GenMap &m);
void addGens3(GenMap &m);
