// Plan generation: one (property, seed) pair gives one plan.
#include "gen.h"

namespace {
void genC01(G &g)
{
    int64_t end = g.one({300000, 800000, 2000000});
    g.base(end);
    int nb = 1 + g.r.below(3);
    std::vector<std::string> vh;
    for (int i = 0; i < nb; ++i) {
        auto b = g.broker("dc1", g.r.pct(25), g.r.pct(20));
        if (g.r.pct(20)) g.brokerItem(b).set("cap", (int64_t)g.one({700, 4000}));
        std::string v = "vh" + std::to_string(i);
        g.conf("MAP BACKEND " + v + " " + b);
        vh.push_back(v);
    }
    g.health();
    g.listen();
    bool tls = g.r.pct(45);
    if (tls) g.listenTls();
    int nc   = 1 + g.r.below(4);
    int mf   = g.one({64, 600, 4096, 40000, 131072});
    int msgs = mf > 20000 ? 14 : 40;
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end / 4), g.r.pick(vh), tls && g.r.pct(60));
        g.traffic(c, msgs, msgs, mf);
        int64_t dur = g.r.below(end / 2) + 1000;
        switch (g.r.below(9)) {
          case 0: c.set("end", "fin").set("dur", dur); if (g.r.pct(70)) { c.set("down", 0); c.set("eager", 0);} break;
          case 1: c.set("end", "amqp").set("dur", dur); break;
          case 2: c.set("end", "rst").set("dur", dur); break;
          case 3: c.set("bend", "fin").set("bdur", dur); if (g.r.pct(70)) c.set("up", 0); break;
          case 4: if (g.r.pct(50)) c.set("bend", g.one({"rst", "close"})).set("bdur", dur); else c.set("end", "halfclose").set("dur", dur).set("down", 0).set("eager", 0); break;
          default: break;
        }
    }
    g.threadStalls(end);
}

void genC02(G &g)
{
    int64_t end = 600000;
    g.base(end);
    int nb = 1 + g.r.below(3);
    std::vector<std::string> vh;
    bool deflt = g.r.pct(50);
    std::string farm = "FARM ADD f round-robin";
    for (int i = 0; i < nb; ++i) {
        auto  b  = g.broker("dc1", g.r.pct(20), g.r.pct(20));
        Item &bi = g.brokerItem(b);
        bi.set("chmax", (int64_t)g.one({0, 1, 2047, 65535})).set("frmax", (int64_t)g.one({0, 4096, 131072})).set("hb", (int64_t)g.one({0, 10, 65535}));
        if (g.r.pct(30)) {
            std::string st = g.one({"hdr", "startok", "open"});
            bi.set("hs", "close@" + st);
            bi.set("closecode", (int64_t)g.one({403, 530, 320, 541}));
            if (g.r.pct(60)) bi.set("closetext", amqp::rndName(g.r, 0, g.one({5, 60, 255})));
        }
        else if (g.r.pct(30))
            bi.set("opendelay", (int64_t)g.one({1000, 50000, 200000}));
        std::string v = g.one({"vh", "/", "a.b/c"}) + std::to_string(i);
        g.conf("MAP BACKEND " + v + " " + b);
        vh.push_back(v);
        farm += " " + b;
    }
    if (deflt) {
        g.conf(farm);
        g.conf("MAP DEFAULT f");
        vh.push_back("/");
        vh.push_back(amqp::rndName(g.r, 1, 150));
        vh.push_back("with space \xc3\xa9");
        vh.push_back(amqp::rndName(g.r, 255, 255));
    }
    g.health();
    int lp = 5672;
    g.listen();
    if (g.r.pct(40)) {
        lp = 5682;
        g.listen(5682);
    }
    bool tls = g.r.pct(40);
    if (tls) g.listenTls();
    if (g.r.pct(25)) {
        g.conf("MAPHOSTNAME DNS");
        for (int i = 1; i < 8; ++i)
            if (g.r.pct(60)) g.p.add("rdns").set("ip", "172.16.0." + std::to_string(1 + i)).set("host", "client" + std::to_string(i) + ".example.com");
    }
    int nc = 1 + g.r.below(6);
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end / 2), g.r.pick(vh), tls && g.r.pct(50));
        if (!c.has("tls")) c.set("port", (int64_t)lp);
        c.set("nprops", (int64_t)g.r.below(20)).set("pseed", (int64_t)g.r.below(1 << 30));
        if (g.r.pct(30)) c.set("emptyname", 1);
        if (g.r.pct(50)) c.set("mech", g.one({"PLAIN", "AMQPLAIN", "EXTERNAL", "x"}));
        if (g.r.pct(15)) {
            c.set("mech", amqp::rndName(g.r, 255, 255));
        }
        if (g.r.pct(40)) c.set("resp", amqp::rndBytes(g.r, g.one({0, 1, 40, 255, 256, 3000})));
        if (g.r.pct(30)) c.set("locale", g.one({"de_DE", "", "x"}));
        c.set("chmax", (int64_t)g.one({0, 1, 2047, 65535})).set("frmax", (int64_t)g.one({4096, 131072, 0})).set("hb", (int64_t)g.one({0, 1, 600, 65535}));
        if (g.r.pct(40)) c.set("connname", amqp::rndName(g.r, 0, 40));
        if (g.r.pct(30)) c.set("authclose", (int64_t)g.r.below(2));
        if (g.r.pct(40)) g.traffic(c, 4, 4, 600);
        if (g.r.pct(20)) c.set("fin_at", (int64_t)g.r.below(8000));
    }
    g.threadStalls(end);
}

void genC03(G &g)
{
    int64_t end = g.one({400000, 1500000});
    g.base(end);
    int nb = 2 + g.r.below(4);
    std::vector<std::string> bs, vh, farms;
    for (int i = 0; i < nb; ++i) bs.push_back(g.broker(g.one({"dc1", "dc2"})));
    g.health();
    int nf = 1 + g.r.below(3);
    auto farmCmd = [&](const std::string &f) {
        std::string c = "FARM ADD " + f + " round-robin";
        int         k = 1 + g.r.below(nb);
        for (int i = 0; i < k; ++i) c += " " + g.r.pick(bs);
        return c;
    };
    for (int i = 0; i < nf; ++i) {
        farms.push_back(g.one({"f", "f", "F", "Farm-"}) + std::to_string(g.r.pct(50) ? i : 0));
        if (!g.r.pct(15)) g.conf(farmCmd(farms.back()));
    }
    int nv = 2 + g.r.below(4);
    for (int i = 0; i < nv; ++i) vh.push_back(g.one({"v", "/v", "V"}) + std::to_string(i));
    vh.push_back("v1x");
    vh.push_back(amqp::rndName(g.r, 1, 255));
    if (g.r.pct(10)) vh.push_back(amqp::rndName(g.r, 215, 255));
    auto mapCmd = [&](const std::string &v) -> std::string {
        switch (g.r.below(6)) {
          case 0: case 1: return "MAP BACKEND " + v + " " + g.r.pick(bs);
          case 2: case 3: return "MAP FARM " + v + " " + g.r.pick(farms);
          case 4: return "MAP UNMAP " + v;
          default: return g.r.pct(50) ? "MAP BACKEND " + v + " nosuch" : "MAP FARM " + v + " nosuch";
        }
    };
    for (auto &v : vh)
        if (g.r.pct(70)) g.conf(mapCmd(v));
    if (g.r.pct(50)) g.conf("MAP DEFAULT " + g.r.pick(farms));
    g.listen();
    int nc = 2 + g.r.below(10);
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end), g.r.pick(vh));
        if (g.r.pct(30)) g.traffic(c, 3, 3, 600);
    }
    int nk = g.r.pct(70) ? g.r.below(8) : 0;
    for (int i = 0; i < nk; ++i) {
        int64_t     t = g.r.below(end);
        std::string v = g.r.pick(vh);
        switch (g.r.below(8)) {
          case 6: case 7: {   // a backend goes, and may come back as another broker
              std::string b = g.r.pick(bs);
              g.cmd(t, "BACKEND DELETE " + b);
              if (g.r.pct(40)) break;
              Item &o = g.brokerItem(g.r.pick(bs));
              std::string add = "BACKEND ADD " + b + " " + g.one({"dc1", "dc2"}) + " " + o.s("ip") + " " + std::to_string(o.n("port"));
              g.cmd(t + g.one({0, 300, 40000}), add);
              if (g.r.pct(30)) v = "";
              break;
          }
          case 0: g.cmd(t, "MAP DEFAULT " + g.r.pick(farms)); break;
          case 1: g.cmd(t, "MAP REMOVE_DEFAULT"); break;
          case 2: g.cmd(t, farmCmd(g.r.pick(farms))); break;
          case 3: g.cmd(t, "FARM DELETE " + g.r.pick(farms)); break;
          default: g.cmd(t, mapCmd(v));
        }
        if (!v.empty() && g.r.pct(40)) {   // the same vhost before and after
            g.client(std::max<int64_t>(0, t - g.one({1000, 20000, 60000})), v);
            g.client(t + g.one({1000, 20000, 60000}), v);
        }
    }
    g.run().set("settle", 4000000);
    g.threadStalls(end);
}
GenMap gens()
{
    GenMap m{{"C01", genC01}, {"C02", genC02}, {"C03", genC03}};
    addGens2(m);
    addGens3(m);
    return m;
}
}  // namespace

Plan generate(const std::string &prop, uint64_t seed)
{
    G    g(prop, seed);
    auto m  = gens();
    auto it = m.find(prop);
    if (it == m.end()) return g.p;
    it->second(g);
    return g.p;
}
std::vector<std::string> knownProperties()
{
    std::vector<std::string> r;
    for (auto &x : gens()) r.push_back(x.first);
    return r;
}
