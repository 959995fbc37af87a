// Plans for authentication, limits, pausing, disconnecting, ends and hostile peers.
#include "gen.h"
#include <algorithm>

namespace {
// n vhosts, each mapped to its own broker
std::vector<std::string> simpleVhosts(G &g, int n, const std::string &pre, int tlsPct = 15, int ppPct = 10)
{
    std::vector<std::string> r;
    for (int i = 0; i < n; ++i) {
        auto b = g.broker("dc1", g.r.pct(tlsPct), g.r.pct(ppPct));
        // names that begin alike, or differ only in case
        std::string n = pre + std::to_string(i);
        if (i && g.r.pct(25)) n = g.r.pct(70) ? r.back() + g.one({"x", "0", "/sub"}) : (char)toupper(r.back()[0]) + r.back().substr(1);
        if (std::count(r.begin(), r.end(), n)) n = pre + std::to_string(i);
        r.push_back(n);
        g.conf("MAP BACKEND " + r.back() + " " + b);
    }
    return r;
}
void smallStalls(G &g, int64_t end)
{
    if (!g.r.pct(25)) return;
    int n = 1 + g.r.below(3);
    while (n--) g.p.add("stallth").set("t", (int64_t)g.r.below(end)).set("th", (int64_t)g.r.below(5)).set("for", (int64_t)g.one({500, 5000, 20000}));
}

void genC06(G &g)
{
    int64_t end = g.one({300000, 2000000});
    g.base(end);
    g.health();
    auto vh = simpleVhosts(g, 1 + g.r.below(3), "va");
    std::string target = g.one({"/auth", "/auth?tier=dev", "/"});
    bool late = g.r.pct(15);
    if (!late) g.conf("AUTH SERVICE authsvc 8080 " + target);
    g.listen();
    bool tls = g.r.pct(25);
    if (tls) g.listenTls();
    if (g.r.pct(15)) g.p.add("authsvc").set("mode", g.one({"refuse", "unreach"}));
    int nc = 2 + g.r.below(10);
    int64_t t = g.r.below(end / 2);
    bool together = g.r.pct(40);
    for (int i = 0; i < nc; ++i) {
        if (!together) t = g.r.below(end);
        Item &c = g.client(t, g.r.pick(vh), tls && g.r.pct(40));
        const char *modes[] = {"allow", "allow", "allow", "allowcred", "allowcred", "deny", "deny", "denycred", "cutallow", "badenum", "garbage", "err500", "err500empty", "err403empty", "err404allow", "errNNNallow", "nothttp", "trunc", "fin", "rst", "hang"};
        std::string m = modes[g.r.below(sizeof modes / sizeof *modes)];
        if (m == "errNNNallow") m = "err" + std::to_string(g.one({300, 302, 307, 400, 401, 429, 500, 503})) + "allow";
        c.set("auth", m);
        c.set("authdelay", (int64_t)g.one({100, 500, 5000, 50000, 1500000}));
        if (g.r.pct(5)) c.set("authdelay", (int64_t)g.one({20000000, 29000000, 31000000, 45000000}));
        if (g.r.pct(30)) c.set("authhttp", g.one({"chunked", "eof", "drip"}));
        if (g.r.pct(10)) c.set("authext", 1);
        if (g.r.pct(60)) c.set("authclose", (int64_t)g.r.below(2));
        if (g.r.pct(60)) c.set("authreason", amqp::rndName(g.r, 0, g.one({5, 60, 254, 255, 256, 400})));
        if (m == "allowcred") c.set("newmech", g.one({"PLAIN", "EXTERNAL", "AMQPLAIN"})).set("newcred", amqp::rndBytes(g.r, g.one({0, 5, 60, 300})));
        if (g.r.pct(30)) c.set("connname", amqp::rndName(g.r, 0, 30));
        if (g.r.pct(30)) c.set("mech", g.one({"PLAIN", "AMQPLAIN", "x"}));
        if (g.r.pct(40)) g.traffic(c, 3, 3, 500);
        c.kv.erase("stall");
        c.kv.erase("bstall");
        if (g.r.pct(10)) c.set("fin_at", (int64_t)(500 + g.r.below(80000)));
    }
    if (late) g.cmd(g.r.below(end), "AUTH SERVICE authsvc 8080 " + target);
    if (g.r.pct(15)) g.cmd(g.r.below(end), "AUTH ALWAYS_ALLOW");
    // commands that are turned down change nothing
    if (g.r.pct(20)) g.cmd(g.r.below(end), g.one({"AUTH SERVICE authsvc 0 /x", "AUTH SERVICE authsvc 99999 /x", "AUTH SERVICE authsvc", "AUTH SERVICE", "AUTH SERVICE authsvc 8080", "AUTH ALWAYS", "AUTH", "AUTH SERVICE authsvc x /auth"}));
    if (g.r.pct(15)) g.cmd(g.r.below(end), "AUTH SERVICE authsvc 8080 " + target);
    if (g.r.pct(15)) {
        g.p.add("dnsset").set("t", (int64_t)g.r.below(end)).set("host", "authsvc").set("err", g.one({"noname", "again"}));
    }
    g.run().set("settle", 100000000);
    if (g.p.first("authsvc") || g.r.pct(1)) g.run().set("health", 0);
    for (auto &i : g.p.items)
        if (i.kind == "dnsset") g.run().set("health", 0);
    smallStalls(g, end);
}

void genC07(G &g)
{
    int64_t end = g.one({2500000, 6000000, 9000000});
    g.base(end);
    auto vh = simpleVhosts(g, 2 + g.r.below(3), "vl");
    g.bystander(1);
    g.health();
    g.listen();
    if (g.r.pct(15)) vh.push_back("vunmapped");
    auto lim = [&]() -> std::string {
        std::string kind = g.r.pct(75) ? "CONN_RATE" : "CONN_RATE_ALARM";
        std::string n    = std::to_string(g.one({0, 1, 2, 3, 5, 8}));
        switch (g.r.below(8)) {
          case 0: case 1: case 2: case 3: return "LIMIT " + kind + " VHOST " + g.r.pick(vh) + " " + n;
          case 4: case 5: return "LIMIT " + kind + " DEFAULT " + std::to_string(g.one({2, 3, 5}));
          case 6: return "LIMIT DISABLE " + kind + " VHOST " + g.r.pick(vh);
          default: return "LIMIT DISABLE " + kind + " DEFAULT";
        }
    };
    int n = 1 + g.r.below(4);
    while (n--) g.conf(lim());
    n = g.r.pct(60) ? g.r.below(5) : 0;
    while (n--) g.cmd(g.r.below(end), lim());
    // bursts
    for (auto &v : vh) {
        int64_t t = g.r.below(1500000);
        while (t < end - 700000) {
            int k = 1 + g.r.below(9);
            int64_t span = g.one({1000, 100000, 500000});
            for (int i = 0; i < k && g.nclient < 60; ++i) {
                Item &c = g.client(t + g.r.below(span), v);
                if (g.r.pct(20)) g.traffic(c, 2, 2, 300);
                c.kv.erase("stall");
                c.kv.erase("bstall");
                if (g.r.pct(20)) c.set("end", "fin").set("dur", (int64_t)g.r.below(100000));
            }
            t += g.one({1200000, 2200000, 2200000, 3300000}) + span;
        }
    }
    if (g.r.pct(30)) g.p.add("clock").set("t", (int64_t)g.r.below(end)).set("jump", (int64_t)g.one({-5000, 1500, 3600000}));
    g.run().set("settle", 4000000).set("health", 0);
    smallStalls(g, end);
}

void genC08(G &g)
{
    int64_t end = g.one({12000000, 25000000});
    g.base(end);
    g.run().set("cap", (int64_t)g.one({2304, 4096, 8192}));
    auto vh = simpleVhosts(g, 2, "vr", 20, 10);
    g.bystander(1);
    g.health();
    g.listen();
    bool tls = g.r.pct(35);
    if (tls) g.listenTls();
    auto rate = [&] { return std::to_string(g.one({3000, 6000, 12000, 30000, 60000})); };
    auto lim  = [&]() -> std::string {
        std::string kind = g.r.pct(80) ? "DATA_RATE" : "DATA_RATE_ALARM";
        switch (g.r.below(8)) {
          case 0: case 1: case 2: case 3: case 4: return "LIMIT " + kind + " VHOST " + g.r.pick(vh) + " " + rate();
          case 5: return "LIMIT " + kind + " DEFAULT " + rate();
          case 6: return "LIMIT DISABLE " + kind + " VHOST " + g.r.pick(vh);
          default: return "LIMIT DISABLE " + kind + " DEFAULT";
        }
    };
    g.conf("LIMIT DATA_RATE VHOST " + g.r.pick(vh) + " " + rate());
    if (g.r.pct(30)) g.conf(lim());
    if (g.r.pct(20)) {   // connections that wait for their vhost first
        const std::string &v = g.r.pick(vh);
        g.conf("VHOST PAUSE " + v);
        g.cmd(200000 + g.r.below(end / 3), "VHOST UNPAUSE " + v);
    }
    int n = g.r.pct(60) ? 1 + g.r.below(4) : 0;
    while (n--) g.cmd(g.r.below(end * 3 / 4), lim());
    if (g.r.pct(60)) {
        for (auto &v : vh) g.cmd(end * 9 / 10, "LIMIT DISABLE DATA_RATE VHOST " + v);
        g.cmd(end * 9 / 10, "LIMIT DISABLE DATA_RATE DEFAULT");
    }
    int nc = 1 + g.r.below(4);
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end / 4), g.r.pick(vh), tls && g.r.pct(60));
        c.set("maxframe", (int64_t)g.one({100, 600, 2000})).set("up", (int64_t)g.one({20, 80, 200})).set("down", (int64_t)g.one({0, 10, 60}));
        c.set("gap", (int64_t)g.one({0, 1000, 30000, 120000})).set("burst", (int64_t)g.one({1, 4, 12}));
        switch (g.r.below(4)) {
          case 0: {   // at about a limit's rate, so that the quota ends when it is renewed
              int64_t mf = g.one({100, 600}), x = g.one({3000, 6000, 12000});
              c.set("maxframe", mf).set("burst", 1).set("gap", (int64_t)((mf / 2 + 8) * 1000000 / x) * (int64_t)(70 + g.r.below(50)) / 100).set("up", std::min<int64_t>(400, 6 * x / (mf / 2 + 8)));
              break;
          }
          case 1:     // far above it
              c.set("maxframe", 2000).set("up", (int64_t)g.one({120, 300})).set("gap", (int64_t)g.one({0, 1000})).set("burst", 12);
              break;
          default: break;
        }
    }
    g.run().set("settle", 8000000);
    smallStalls(g, end);
}

void genC09(G &g)
{
    // sometimes waiting for the authentication service spans the pause
    bool    slow = g.r.pct(8);
    int64_t end  = slow ? 20000000 : g.one({100000, 400000, 1500000});
    g.base(end);
    g.run().set("preempt", (int64_t)g.one({0, 5000, 700, 250, 120})).set("pstall", (int64_t)g.one({0, 25, 50, 80}));
    auto vh = simpleVhosts(g, 1 + g.r.below(2), "vp");
    g.bystander(1);
    g.health();
    g.listen();
    bool tls = g.r.pct(20);
    if (tls) g.listenTls();
    bool auth = slow || g.r.pct(20);
    if (auth) g.conf("AUTH SERVICE authsvc 8080 /a");
    for (auto &v : vh) {
        int k = slow ? 1 : 1 + g.r.below(4);
        std::vector<int64_t> ts;
        for (int i = 0; i < 2 * k; ++i) ts.push_back(g.r.below(end * 8 / 10));
        std::sort(ts.begin(), ts.end());
        if (slow) ts = {300000 + (int64_t)g.r.below(200000), 15000000};
        if (g.r.pct(20)) g.conf("VHOST PAUSE " + v);
        for (int i = 0; i < 2 * k; ++i) g.cmd(ts[i], std::string("VHOST ") + (i % 2 ? "UNPAUSE " : "PAUSE ") + v);
        if (g.r.pct(40)) g.cmd(g.r.below(end * 8 / 10), "VHOST UNPAUSE " + v);
        // the last command is an unpause anyway
        if (g.r.pct(30)) g.cmd(end * 9 / 10, "VHOST UNPAUSE " + v);
        int nc = slow ? 6 + g.r.below(4) : 1 + g.r.below(7);
        if (slow) g.run().set("preempt", (int64_t)g.one({250, 120})).set("pstall", (int64_t)g.one({25, 50, 80}));
        for (int i = 0; i < nc; ++i) {
            // often close to a pause or unpause, so that the handshake overlaps it
            int64_t t = g.r.pct(60) ? std::max<int64_t>(0, g.r.pick(ts) - g.r.below(4000)) : g.r.below(end * 85 / 100);
            Item &c = g.client(t, v, tls && g.r.pct(50));
            g.traffic(c, 8, 4, 400);
            c.kv.erase("stall");
            c.kv.erase("bstall");
            if (auth) c.set("authdelay", (int64_t)slow ? g.one({100, 5000000, 8000000, 8000000}) : g.one({100, 1000, 20000, 100000}));
            // asks for its vhost at the very moment of a command
            if (slow || g.r.pct(50)) c.set("split_open", 1).set("open_at", (slow ? ts[0] : g.r.pct(50) ? ts.back() : g.r.pick(ts)) + (int64_t)g.r.below(g.one({800, 800, 5000, 40000}))).set("t", std::max<int64_t>(0, c.n("open_at") - 40000));
            if (g.r.pct(50)) c.set("gap", (int64_t)g.one({20000, 60000}));
            if (g.r.pct(12)) c.set("fin_at", (int64_t)(500 + g.r.below(end / 2)));
        }
        // one that is open through the pauses and receives all the time
        if (!slow && end >= 400000 && g.r.pct(20)) {
            g.run().set("preempt", (int64_t)g.one({0, 5000, 20000})).set("pstall", 0);   // not so slow that nothing moves
            Item &c = g.client(g.r.below(5000), v, tls && g.r.pct(50));
            c.set("down", (int64_t)g.one({30, 60, 120})).set("gap", (int64_t)g.one({5000, 15000, 30000})).set("maxframe", 300);
            if (g.r.pct(50)) c.set("up", 10);
        }
    }
    if (g.r.pct(15)) g.conf("LIMIT CONN_RATE DEFAULT 100");
    g.run().set("settle", (int64_t)(auth && g.run().n("pstall") ? 40000000 : 5000000));
    g.threadStalls(end);
}

void genC10(G &g)
{
    int64_t end = g.one({200000, 800000, 2000000});
    g.base(end);
    auto vh = simpleVhosts(g, 2 + g.r.below(2), "vx", g.r.pct(25) ? 80 : 20, 10);
    g.bystander(1);
    g.health();
    g.listen();
    bool tls = g.r.pct(40);
    if (tls) g.listenTls();
    int nc = 2 + g.r.below(6);
    std::vector<std::string> cs;
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end / 2), g.r.pick(vh), tls && g.r.pct(50));
        g.traffic(c, 40, 40, g.one({64, 600, 8000}));
        if (g.r.pct(60)) c.kv.erase("stall"), c.kv.erase("bstall");
        if (g.r.pct(50)) c.set("up", 40).set("down", 40).set("gap", (int64_t)g.one({200, 5000, 20000}));
        std::string stuck;
        c.set("onclose", g.one({"ok", "ok", "ok", "fin", "none"}));
        if (g.r.pct(12)) {   // stuck, one or both sides of it, for longer than anything should wait for it
            int64_t cap = g.one({2304, 4096});
            c.set("up", 60).set("down", 60).set("maxframe", 8000).set("gap", 100).set("cap", cap);
            if (g.r.pct(80)) c.set("stall", (int64_t)g.r.below(8000)).set("stall_for", 9000000);
            if (g.r.pct(80)) c.set("bstall", (int64_t)g.r.below(8000)).set("bstall_for", 9000000);
            stuck = c.s("id");
        }
        if (stuck.empty() && g.r.pct(20)) c.set("end", "amqp").set("dur", (int64_t)g.r.below(end));
        cs.push_back(c.s("id"));
        if (!stuck.empty()) g.cmd(end, "SESSION {" + stuck + "} FORCE_DISCONNECT");
    }
    if (g.r.pct(20)) {   // and some that are held, as their vhost is paused
        auto b = g.broker("dc1", g.r.pct(30));
        g.conf("MAP BACKEND vheld " + b);
        g.conf("VHOST PAUSE vheld");
        int k = 1 + g.r.below(3);
        while (k--) {
            Item &c = g.client(g.r.below(end / 2), "vheld", tls && g.r.pct(50));
            if (g.r.pct(50)) g.cmd(end / 2 + g.r.below(end / 2), "SESSION {" + c.s("id") + "} FORCE_DISCONNECT");
        }
        if (g.r.pct(60)) g.cmd(end / 2 + g.r.below(end / 2), "VHOST FORCE_DISCONNECT vheld");
    }
    int n = 1 + g.r.below(4);
    while (n--) {
        int64_t t = end / 8 + g.r.below(end * 7 / 8);
        switch (g.r.below(6)) {
          case 0: case 1: {
              std::string id = g.r.pick(cs);
              for (auto &i : g.p.items)   // at the moment the client closes by itself
                  if (i.kind == "client" && i.s("id") == id && i.s("end") == "amqp" && g.r.pct(80)) i.set("dur", std::max<int64_t>(0, t - i.n("t")) + (int64_t)g.r.below(1000));
              g.cmd(t, "SESSION {" + id + "} DISCONNECT_GRACEFUL");
              break;
          }
          case 2: g.cmd(t, "SESSION {" + g.r.pick(cs) + "} FORCE_DISCONNECT"); break;
          case 3: g.cmd(t, "VHOST FORCE_DISCONNECT " + g.r.pick(vh)); break;
          case 4: g.cmd(t, "VHOST BACKEND_DISCONNECT " + g.r.pick(vh)); break;
          default: g.cmd(t, "SESSION 999999 FORCE_DISCONNECT");
        }
    }
    g.run().set("settle", 4000000);
    g.threadStalls(end);
}

void genC11(G &g)
{
    int64_t end = g.one({200000, 1000000, 2500000});
    g.base(end);
    int nb = 1 + g.r.below(3);
    std::vector<std::string> vh, bs;
    for (int i = 0; i < nb; ++i) {
        std::string b;
        if (g.r.pct(25)) b = g.dnsBackend("dc1", 1 + g.r.below(3), g.r.pct(20), g.r.pct(15), g.r.pct(30));
        else
            b = g.broker("dc1", g.r.pct(30), g.r.pct(20));
        bs.push_back(b);
        Item &bi = g.brokerItem(b);
        if (g.r.pct(25)) bi.set("hs", g.one({"hang@connect", "hang@hdr", "hang@startok", "hang@open", "fin@connect", "fin@hdr", "rst@startok", "fin@open", "rst@open", "close@open", "close@startok"}));
        else if (g.r.pct(20))
            bi.set("mode", g.one({"refuse", "blackhole", "unreach", "acceptrst"}));
        if (g.r.pct(15)) bi.set("cap", (int64_t)g.one({700, 4000}));
        if (g.r.pct(20)) bi.set("opendelay", (int64_t)g.one({1000, 100000}));
        vh.push_back("ve" + std::to_string(i));
        g.conf("MAP BACKEND " + vh.back() + " " + b);
    }
    if (nb > 1 && g.r.pct(40)) {
        std::string f = "FARM ADD fe round-robin";
        for (auto &b : bs) f += " " + b;
        g.conf(f);
        g.conf("MAP FARM vfarm fe");
        vh.push_back("vfarm");
    }
    g.bystander(1);
    g.health();
    g.listen();
    bool tls = g.r.pct(50);
    if (tls) g.listenTls();
    if (g.r.pct(15)) g.conf("AUTH SERVICE authsvc 8080 /a");
    if (g.r.pct(10)) g.conf("LIMIT CONN_RATE VHOST " + g.r.pick(vh) + " 1");
    if (g.r.pct(10)) {
        auto v = g.r.pick(vh);
        g.conf("LIMIT DATA_RATE VHOST " + v + " 3000");
        g.cmd(end * 9 / 10, "LIMIT DISABLE DATA_RATE VHOST " + v);
    }
    if (g.r.pct(15)) {   // some leave while they are held
        auto v = g.r.pick(vh);
        g.conf("VHOST PAUSE " + v);
        if (g.r.pct(70)) g.cmd(end / 2 + g.r.below(end * 4 / 10), "VHOST UNPAUSE " + v);
    }
    vh.push_back("vnone");
    int nc = 2 + g.r.below(8);
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end * 3 / 4), g.r.pick(vh), tls && g.r.pct(60));
        g.traffic(c, 30, 30, g.one({64, 600, 8000, 60000}));
        if (g.r.pct(25)) c.set("stall", (int64_t)g.r.below(20000)).set("stall_for", (int64_t)g.one({300000, 900000, 1500000})).set("down", 40).set("eager", 0);
        if (g.r.pct(15)) c.set("bstall", (int64_t)g.r.below(20000)).set("bstall_for", (int64_t)g.one({300000, 900000, 1500000})).set("up", 40);
        int64_t dur = g.r.below(end / 2) + 500;
        switch (g.r.below(12)) {
          case 0: c.set("end", "fin").set("dur", dur); break;
          case 1: c.set("end", "amqp").set("dur", dur); break;
          case 2: c.set("end", "rst").set("dur", dur); break;
          case 3: c.set("end", "halfclose").set("dur", dur); break;
          case 4: c.set("bend", "fin").set("bdur", dur); break;
          case 5: c.set("bend", "rst").set("bdur", dur); break;
          case 6: c.set("bend", "close").set("bdur", dur); break;
          case 7: c.set("fin_at", (int64_t)g.r.below(g.one({3000, 30000}))); break;
          case 8: c.set("rst_at", (int64_t)g.r.below(g.one({3000, 30000}))); break;
          case 9: c.set("badstage", g.one({"hdr", "startok", "tuneok", "open"})).set("bad", g.one({"hang", "fin", "rst", "halffin"})).set("badseed", (int64_t)g.r.below(1000)); break;
          default: break;
        }
        if (g.r.pct(15)) c.set("auth", g.one({"deny", "hang", "rst"})).set("authdelay", (int64_t)g.one({500, 100000}));
    }
    int n = g.r.pct(35) ? 1 + g.r.below(2) : 0;
    while (n--) g.p.add("brokerset").set("t", (int64_t)g.r.below(end)).set("id", g.r.pick(bs)).set("kill", g.one({"rst", "fin"})).set("mode", g.one({"refuse", "accept"}));
    g.run().set("settle", 6000000).set("drainfor", 4000000).set("keepmodes", 1);
    if (g.p.first("authsvc")) g.run().set("settle", 70000000);
    g.threadStalls(end);
}

void genC12(G &g)
{
    int64_t end = g.one({150000, 500000});
    g.base(end);
    int nb = 1 + g.r.below(3);
    std::vector<std::string> vh;
    for (int i = 0; i < nb; ++i) {
        auto  b  = g.broker("dc1", g.r.pct(20), g.r.pct(15));
        Item &bi = g.brokerItem(b);
        if (g.r.pct(50)) {
            std::string st = g.one({"connect", "hdr", "startok", "open"});
            bi.set("hs", std::string(g.one({"garbage", "badmethod", "wrongmethod", "wrongmethod", "hugeframe", "wrongheader", "fin", "rst", "close", "hang"})) + "@" + st).set("badseed", (int64_t)g.r.below(1 << 20));
            if (g.r.pct(40)) bi.set("closetext", amqp::rndBytes(g.r, g.one({0, 30, 255})));
        }
        if (g.r.pct(30)) bi.set("opendelay", (int64_t)g.one({1000, 30000, 60000}));
        vh.push_back("vk" + std::to_string(i));
        g.conf("MAP BACKEND " + vh.back() + " " + b);
    }
    bool spoof = g.r.pct(35);
    if (spoof) {  // a broker that takes its time to open
        auto b = g.broker("dc1");
        g.brokerItem(b).set("opendelay", (int64_t)g.one({20000, 60000}));
        g.conf("MAP BACKEND vslow " + b);
        vh.push_back("vslow");
    }
    g.bystander(1 + g.r.below(2));
    g.health();
    g.listen();
    bool tls = g.r.pct(30);
    if (tls) g.listenTls();
    if (g.r.pct(10)) g.conf("AUTH SERVICE authsvc 8080 /a");
    vh.push_back("vnone");
    int nc = 2 + g.r.below(8);
    for (int i = 0; i < nc; ++i) {
        Item &c = g.client(g.r.below(end), g.r.pick(vh), tls && g.r.pct(40));
        g.traffic(c, 10, 10, 3000);
        c.kv.erase("stall");
        c.kv.erase("bstall");
        c.set("badseed", (int64_t)g.r.below(1 << 20)).set("badarg", (int64_t)g.one({3, 100, 2000, 20000}));
        int x = g.r.below(100);
        if (x < 60) {
            c.set("badstage", g.one({"hdr", "startok", "startok", "startok", "tuneok", "open"}));
            c.set("bad", g.one({"garbage", "flip", "flip", "trunc", "payload", "huge", "biglen", "short", "nest", "spoof", "order", "dup", "hang", "halffin"}));
            if (g.r.pct(30)) c.set("badarr", 1);
            if (spoof && g.r.pct(30)) c.set("badstage", "open").set("bad", "spoof").set("vhost", "vslow");
        }
        else if (x < 80)
            c.set("badstage", "data").set("bad", g.one({"endbyte", "huge", "garbage", "half"})).set("bad_at", (int64_t)g.r.below(20000));
        else if (x < 92)
            c.set("bbad", g.one({"endbyte", "huge", "garbage"})).set("bbad_at", (int64_t)g.r.below(20000));
        else
            c.set("raw", amqp::rndBytes(g.r, g.one({1, 8, 100, 3000})));
        c.set("nprops", (int64_t)g.r.below(12));
    }
    g.run().set("settle", 3000000);
    g.threadStalls(end);
}
}  // namespace
void addGens4(GenMap &m);
void addGens3(GenMap &m)
{
    m["C06"] = genC06;
    m["C07"] = genC07;
    m["C08"] = genC08;
    m["C09"] = genC09;
    m["C10"] = genC10;
    m["C11"] = genC11;
    m["C12"] = genC12;
    addGens4(m);
}
