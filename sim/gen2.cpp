// Plans for failover, balancing, authentication, limits and names.
#include "gen.h"
#include <algorithm>

namespace {
void mode(G &g, Item &b, int64_t &cost)
{
    int x = g.r.below(100);
    if (x < 45) return;
    if (x < 70) b.set("mode", "refuse");
    else if (x < 82) {
        b.set("mode", "unreach");
        cost += 3000000;
    }
    else if (x < 88) {
        b.set("mode", "blackhole");
        cost += 127000000;
    }
    else
        b.set("mode", "acceptrst");
    if (g.r.pct(20)) b.set("delay", (int64_t)g.one({1000, 30000}));
}
void genC04(G &g)
{
    int64_t end = g.one({300000, 1500000});
    g.base(end);
    g.bystander(1 + g.r.below(2));
    g.health();
    if (g.r.pct(80)) g.conf("DATACENTER SET dc1");
    int     nf = 1 + g.r.below(3);
    int64_t settle = 0;
    std::vector<std::string> vh, all;
    for (int f = 0; f < nf; ++f) {
        int64_t cost = 0;
        bool    big  = g.r.pct(12);   // many brokers, most of them dead
        int     nb   = big ? 5 + g.r.below(16) : 1 + g.r.below(4);
        int     good = big ? g.r.below(nb + 2) : -1;
        std::string fc = "FARM ADD f" + std::to_string(f) + " round-robin", v = "vf" + std::to_string(f), only;
        for (int i = 0; i < nb; ++i) {
            std::string dc = g.one({"dc1", "dc2"}), id;
            bool tls = g.r.pct(10), pp = g.r.pct(15);
            if (big && !g.r.pct(10)) {
                id = g.broker(dc, tls, pp);
                bool unreach = g.r.pct(15);
                if (i != good) g.brokerItem(id).set("mode", unreach ? "unreach" : "refuse"), cost += unreach ? 3000000 : 0;
            }
            else if (g.r.pct(35)) {
                int k = g.r.pct(10) ? 4 + g.r.below(12) : 1 + g.r.below(3);
                id    = g.dnsBackend(dc, k, tls, pp, g.r.pct(40));
                bool few = k > 3;
                for (int j = 0; j < k; ++j) {
                    std::string a = j ? id + "_" + std::to_string(j) : id;
                    if (!few) mode(g, g.brokerItem(a), cost);
                    else if (j != k - 1) g.brokerItem(a).set("mode", "refuse");
                    all.push_back(a);
                }
                if (g.r.pct(20)) {
                    Item &d = g.dnsItem(id);
                    switch (g.r.below(4)) {
                      case 0: d.set("ips", ""); break;
                      case 1: d.set("err", "again"); break;
                      case 2: d.set("err", "fail"); break;
                      default: d.set("err", "noname");
                    }
                    if (g.r.pct(30)) d.set("delay", 2000000), cost += 2000000;
                }
            }
            else {
                id = g.broker(dc, tls, pp);
                mode(g, g.brokerItem(id), cost);
                all.push_back(id);
            }
            fc += " " + id;
            only = id;
        }
        if (nb == 1 && g.r.pct(50)) g.conf("MAP BACKEND " + v + " " + only);
        else {
            g.conf(fc);
            if (g.r.pct(50)) g.conf("FARM PARTITION f" + std::to_string(f) + " datacenter-affinity");
            g.conf("MAP FARM " + v + " f" + std::to_string(f));
        }
        vh.push_back(v);
        settle = std::max(settle, cost);
    }
    if (g.r.pct(20)) g.conf("DATACENTER SET " + std::string(g.one({"dc2", "dc3"})));
    g.listen();
    for (auto &v : vh) {
        int nc = 1 + g.r.below(3);
        bool together = g.r.pct(40);
        int64_t t = g.r.below(end / 3);
        for (int i = 0; i < nc; ++i) {
            if (!together) t = g.r.below(end * 3 / 4);
            Item &c = g.client(t, v);
            if (g.r.pct(40)) g.traffic(c, 3, 3, 600);
            c.kv.erase("stall");
            if (g.r.pct(8)) c.set("fin_at", (int64_t)(1000 + g.r.below(20000)));
        }
    }
    if (g.r.pct(25) && !all.empty()) {
        int n = 1 + g.r.below(3);
        while (n--) g.p.add("brokerset").set("t", (int64_t)g.r.below(end)).set("id", g.r.pick(all)).set("mode", g.one({"accept", "refuse"}));
    }
    g.run().set("settle", settle + 34000000).set("keepmodes", 1);
    g.threadStalls(end);
}
void genC05(G &g)
{
    int64_t end = g.one({50000, 400000, 3000000});
    g.base(end);
    g.health();
    bool late = g.r.pct(35);   // the datacenter is named only when the farms exist
    if (!late) g.conf("DATACENTER SET dc1");
    else if (g.r.pct(50))
        g.conf("DATACENTER SET dc2");
    int nf = 1 + g.r.below(2), nb = g.r.pct(15) ? 7 + g.r.below(12) : 1 + g.r.below(6);
    std::vector<std::string> bs, vh;
    bool auth = g.r.pct(25);
    if (auth) g.conf("AUTH SERVICE authsvc 8080 /a");
    for (int i = 0; i < nb; ++i)
        bs.push_back(g.r.pct(20) ? g.dnsBackend(g.one({"dc1", "dc2"}), 1) : g.broker(g.one({"dc1", "dc1", "dc2"}), g.r.pct(10), g.r.pct(10)));
    for (int f = 0; f < nf; ++f) {
        std::string fn = "f" + std::to_string(f), fc = "FARM ADD " + fn + " round-robin";
        for (auto &b : bs)
            if (!f || g.r.pct(70)) fc += " " + b;
        if (fc.find(" b") == std::string::npos) fc += " " + bs[0];
        g.conf(fc);
        if (g.r.pct(40)) g.conf("FARM PARTITION " + fn + " datacenter-affinity");
        int nv = 1 + g.r.below(2);
        for (int i = 0; i < nv; ++i) {
            vh.push_back(fn + "v" + std::to_string(i));
            g.conf("MAP FARM " + vh.back() + " " + fn);
        }
        if (!f && g.r.pct(30)) {
            g.conf("MAP DEFAULT " + fn);
            vh.push_back("f0dflt");
        }
    }
    if (late) g.conf("DATACENTER SET dc1");
    g.listen();
    int nc = 4 + g.r.below(nb > 6 ? 44 : 22);
    if (g.r.pct(4)) {   // a long history
        nc  = 80 + g.r.below(300);
        end = g.one({3000000, 10000000});
        g.run().set("end", end).set("preempt", (int64_t)g.one({0, 20000})).set("pstall", 0);
    }
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end), g.r.pick(vh));
        if (auth) c.set("auth", g.r.pct(20) ? "deny" : "allow").set("authdelay", (int64_t)g.one({100, 500, 5000, 200000}));
        if (g.r.pct(30)) c.set("end", g.one({"fin", "amqp"})).set("dur", (int64_t)g.r.below(200000));
        if (g.r.pct(20)) g.traffic(c, 3, 3, 300);
    }
    if (g.r.pct(15)) {
        // some are turned away before a broker is chosen for them
        g.conf("LIMIT CONN_RATE VHOST " + vh[0] + " " + std::to_string(1 + g.r.below(5)));
        g.run().set("limited", 1);
    }
    g.run().set("settle", 3000000);
    g.threadStalls(end);
}
void genC20(G &g)
{
    int64_t end = g.one({4000000, 9000000});
    g.base(end);
    g.bystander(1);
    g.health();
    int nh = 1 + g.r.below(3);
    std::vector<std::string> ids, vh;
    std::map<std::string, int> na;
    int64_t sumDelay = 0;
    for (int i = 0; i < nh; ++i) {
        int k  = 2 + g.r.below(3);
        auto id = g.dnsBackend("dc1", k);
        na[id]  = k;
        ids.push_back(id);
        vh.push_back("vd" + std::to_string(i));
        g.conf("MAP BACKEND " + vh.back() + " " + id);
        for (int j = 0; j < k; ++j)
            if (g.r.pct(15)) g.brokerItem(j ? id + "_" + std::to_string(j) : id).set("mode", "refuse");
    }
    if (nh > 1 && g.r.pct(40)) {
        g.conf("FARM ADD fd round-robin " + ids[0] + " " + ids[1]);
        g.conf("MAP FARM vfarm fd");
        vh.push_back("vfarm");
    }
    g.listen();
    auto subset = [&](const std::string &id) {
        std::string s;
        int         k = na[id];
        std::vector<int> a;
        for (int j = 0; j < k; ++j)
            if (g.r.pct(50)) a.push_back(j);
        if (a.empty()) a.push_back(g.r.below(k));
        if (g.r.pct(30)) std::reverse(a.begin(), a.end());
        for (int j : a) s += (s.empty() ? "" : ",") + std::string("10.1.") + id.substr(1) + "." + std::to_string(1 + j);
        return s;
    };
    for (auto &id : ids) g.dnsItem(id).set("ips", subset(id));
    for (auto &id : ids) {
        int n = g.r.below(5);
        for (int i = 0; i < n; ++i) {
            Item &d = g.p.add("dnsset").set("t", (int64_t)g.r.below(end)).set("host", id + ".example.com");
            if (g.r.pct(25)) d.set("err", g.one({"noname", "again", "fail"}));
            else if (g.r.pct(10))
                d.set("ips", "");
            else
                d.set("ips", subset(id));
            int64_t dl = g.r.pct(15) ? g.one({300000, 1500000}) : g.one({50, 1000, 30000});
            d.set("delay", dl);
            sumDelay += dl * 3;
        }
    }
    int nc = 4 + g.r.below(14);
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.pct(30) ? g.r.below(200000) + (int64_t)g.r.below(end / 1000000) * 1000000 : g.r.below(end), g.r.pick(vh));
        if (g.r.pct(30)) g.traffic(c, 3, 3, 300);
    }
    g.run().set("settle", 6000000 + 10 * sumDelay).set("keepmodes", 1);
    g.threadStalls(end);
}
}  // namespace
void addGens2(GenMap &m)
{
    m["C04"] = genC04;
    m["C05"] = genC05;
    m["C20"] = genC20;
}
