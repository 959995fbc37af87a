// History checks for listeners, configuration changes, exit, TLS, isolation,
// back pressure, statistics and listings.
#include "oracle.h"
#include <algorithm>
#include <cstring>

using sim::fmt;

// the time after which an acknowledged command has certainly reached the data thread
static Time effectSlack(World &w) { return stallSlack(w) + 400 * MS; }

// ------------------------------------------------------------ C15 listeners
namespace {
enum Lst { OFF, PLAIN, SECURE };
struct LCmd {
    Time tSent, tCertain;
    char op;    // S start, X start secure, O off
};
}
void checkListeners(World &w, const std::string &P)
{
    Time slack = effectSlack(w);
    std::map<int, std::vector<LCmd>> tl;
    std::set<int> all;
    std::set<int> unusable;
    for (auto &i : w.plan.items) {
        if (i.kind == "busyport") unusable.insert(i.n("port"));
        if (i.kind == "client") all.insert(i.n("port", 5672));
    }
    bool fdTrouble = false;
    Time fdFrom = INT64_MAX, fdTo = 0;
    for (auto &i : w.plan.items)
        if (i.kind == "fdlimit") {
            fdTrouble = true;
            fdFrom    = std::min(fdFrom, w.t0 + i.n("t") * US);
            fdTo      = std::max(fdTo, w.t0 + (i.n("t") + i.n("for")) * US);
        }
    for (auto &c : w.ctls) {
        if (c->tag != "conf" && c->tag != "plan") continue;
        auto v = words(c->cmd);
        if (v.size() < 2 || v[0] != "LISTEN") continue;
        LCmd e{c->tSent, c->done ? (c->tag == "conf" ? w.t0 : c->tDone + slack) : INT64_MAX, v[1] == "START" ? 'S' : v[1] == "START_SECURE" ? 'X' : 'O'};
        if (v.size() == 3) tl[atoi(v[2].c_str())].push_back(e);
        else
            for (int p : all) tl[p].push_back(e);
    }
    // Possible states of the port at some moment of [a, b]
    auto states = [&](int port, Time a, Time b) {
        std::set<int> r;
        auto         &v = tl[port];
        size_t        kmin = 0, kmax = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].tCertain <= a) kmin = i + 1;
            if (v[i].tSent <= b) kmax = i + 1;
        }
        Lst cur = OFF;
        for (size_t k = 0;; ++k) {
            if (k >= kmin && k <= kmax) r.insert(cur);
            if (k >= v.size()) break;
            if (v[k].op == 'O') cur = OFF;
            else if (cur == OFF && !unusable.count(port)) {
                cur = v[k].op == 'S' ? PLAIN : SECURE;
                // a start while descriptors ran out may have failed
                if (fdTrouble && v[k].tSent <= fdTo && v[k].tCertain >= fdFrom && k + 1 >= kmin) r.insert(OFF), r.insert(PLAIN), r.insert(SECURE);
            }
        }
        // once a start may have failed, what follows is uncertain
        if (fdTrouble)
            for (size_t k = 0; k < kmin; ++k)
                if (v[k].op != 'O' && v[k].tSent <= fdTo && v[k].tCertain >= fdFrom) {
                    bool off = false;
                    for (size_t j = k + 1; j < kmin; ++j)
                        if (v[j].op == 'O') off = true;
                    if (!off) r.insert(OFF), r.insert(PLAIN), r.insert(SECURE);
                }
        return r;
    };
    Time wnd = 100 * MS + slack;
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.tConnect || id == "HEALTH" || !w.tSettled) continue;
        auto st = states(c.port, c.tConnect, c.tConnect + wnd);
        bool noFd = fdTrouble && c.tConnect <= fdTo && c.tConnect + wnd >= fdFrom;
        int  want = c.spec.n("tls") ? SECURE : PLAIN;
        if (st.size() == 1 && *st.begin() == OFF) {
            w.probe("refused_when_off");
            if (!c.refused) w.violate(P, "client %s could connect to port %d, which is not being listened on", id.c_str(), c.port);
        }
        if (!st.count(OFF)) {
            w.probe("taken_when_on");
            if (c.refused) w.violate(P, "client %s was refused on port %d, which is being listened on", id.c_str(), c.port);
            bool lost = c.c && c.c->acceptAborted;
            if (lost) w.probe("accept_aborted_clients");
            if (!lost && st.size() == 1 && *st.begin() == want && !noFd && !c.tOpenOk && !c.iClosedS())
                w.violate(P, "client %s connected to listening port %d but was never served", id.c_str(), c.port);
            if (!lost && st.size() == 1 && *st.begin() == want) w.probe("served_when_on");
        }
        if (st.size() == 1 && *st.begin() != want && c.tOpenOk) w.violate(P, "client %s %s TLS was served on port %d, which is %s", id.c_str(), want == SECURE ? "with" : "without", c.port, want == SECURE ? "plain" : "secure");
        // once served, only its own end may end it
        if (c.tOpenOk && !c.iClosedS() && !c.spec.has("end")) {
            w.probe("established");
            if (!w.openAtSettle.count(id)) w.violate(P, "established connection of %s was disturbed", id.c_str());
            checkFidelityOf(w, P, c);
        }
    }
    checkBystanders(w, P);
}

// ------------------------------------------------------------ C17 secured legs
// true when the bytes are TLS records (the last one may be incomplete)
static bool tlsRecords(const std::string &s, size_t *at)
{
    size_t o = 0;
    while (o < s.size()) {
        *at = o;
        uint8_t t = s[o];
        if (t < 20 || t > 24) return false;
        if (o + 1 < s.size() && s[o + 1] != 3) return false;
        if (o + 5 > s.size()) return true;
        size_t n = (uint8_t)s[o + 3] << 8 | (uint8_t)s[o + 4];
        if (n > 16384 + 2048) return false;
        o += 5 + n;
    }
    return true;
}
void checkTls(World &w, const std::string &P)
{
    bool verify = false, needCert = false;
    for (auto &c : w.ctls) {
        std::string u = upper(c->cmd);
        if (u.rfind("TLS EGRESS VERIFY_MODE", 0) == 0) verify = u.find("PEER") != std::string::npos;
        if (u.rfind("TLS INGRESS VERIFY_MODE", 0) == 0) needCert = u.find("FAIL_IF_NO_PEER_CERT") != std::string::npos;
    }
    for (auto &kv : w.brokers)
        for (auto &bp : kv.second->conns) {
            BrokerConn &b  = *bp;
            Broker     &br = *kv.second;
            if (br.pp && !b.plainSeen.empty()) {
                w.probe("proxy_headers");
                bool known = false;
                for (auto &id : w.clientOrder) {
                    Client     &c    = *w.clients[id];
                    bool        v6   = br.ip.find(':') != std::string::npos;
                    std::string want = fmt("PROXY %s %s%s %s %d %d\r\n", v6 ? "TCP6" : "TCP4", v6 ? "::ffff:" : "", c.ip.c_str(), br.ip.c_str(), c.sport, br.port);
                    if (b.plainSeen.compare(0, want.size(), want, 0, b.plainSeen.size()) == 0) {
                        known = true;
                        if (b.cl && b.cl != &c) w.violate(P, "broker %s was told by PROXY header that %s connects, but the connection is %s's", br.id.c_str(), id.c_str(), b.cl->id.c_str());
                        break;
                    }
                }
                if (!known) w.violate(P, "broker %s got a PROXY header that names no client and itself: '%s'", br.id.c_str(), pctEnc(b.plainSeen.substr(0, 120)).c_str());
            }
            size_t at = 0;
            if (br.tls) {
                if (!b.rawAll.empty()) w.probe("tls_broker_legs");
                if (!tlsRecords(b.rawAll, &at)) w.violate(P, "broker %s is marked TLS but was sent bytes outside TLS at offset %zu: %s", br.id.c_str(), at, pctEnc(b.rawAll.substr(at, 24)).c_str());
                if (b.hs != "ok" && !b.hs.empty()) continue;
                if (verify && br.spec.n("rogue")) {
                    w.probe("unverifiable_brokers");
                    if (b.hdrOk || b.tStartOk || !b.in.empty()) w.violate(P, "broker %s, whose certificate does not verify, was sent AMQP", br.id.c_str());
                }
            }
            else {
                if (!b.rawAll.empty() || b.tStartOk) w.probe("plain_broker_legs");
                std::string h = amqp::header(), f = b.rawAll.substr(0, 8);
                if (!br.pp && h.compare(0, f.size(), f) != 0) w.violate(P, "broker %s is plain but was sent %s", br.id.c_str(), pctEnc(b.rawAll.substr(0, 24)).c_str());
                if (br.pp && b.protoError) w.violate(P, "broker %s is plain but was sent something else after the PROXY header: %s", br.id.c_str(), b.protoErrorWhy.c_str());
            }
        }
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        size_t  at = 0;
        bool    secure = c.port == 5671, tls = c.spec.n("tls");
        if (secure && tls) {
            w.probe("tls_client_legs");
            if (!tlsRecords(c.rawAll, &at)) w.violate(P, "client %s on the secure listener was sent bytes outside TLS at offset %zu: %s", id.c_str(), at, pctEnc(c.rawAll.substr(at, 24)).c_str());
            if (needCert && c.spec.has("ccert") && c.spec.s("ccert") != "") {
                w.probe("clients_without_certificate");
                if (c.tStart || !c.conns.empty()) w.violate(P, "client %s without a valid certificate was let in", id.c_str());
            }
        }
        if (secure && !tls) {
            w.probe("plain_clients_on_secure");
            if (!tlsRecords(c.rawAll, &at)) w.violate(P, "client %s spoke plainly to the secure listener and was answered outside TLS: %s", id.c_str(), pctEnc(c.rawAll.substr(at, 24)).c_str());
            if (c.tStart || c.tOpenOk || !c.conns.empty()) w.violate(P, "client %s was served without TLS on the secure listener", id.c_str());
        }
        if (!secure && tls && (c.tOpenOk || !c.conns.empty())) w.violate(P, "client %s was served with TLS on the plain listener", id.c_str());
        // reaching a working broker after others failed, whatever their settings
        if (secure == tls && c.tOpenOk && !c.iClosedS() && !c.spec.has("end") && !clientFaulty(c)) {
            w.probe("mixed_legs_served");
            if (w.tSettled && !w.openAtSettle.count(id)) w.violate(P, "connection of %s did not stay up", id.c_str());
            checkFidelityOf(w, P, c);
        }
        if (w.tSettled && secure == tls && c.tOpenSent && !c.tOpenOk && !c.endedS() && !clientFaulty(c)) {
            bool hung = false;
            for (auto &b : w.brokers)
                if (b.second->spec.s("hs0", b.second->spec.s("hs", "ok")) != "ok") hung = true;
            if (!hung) w.violate(P, "client %s was left waiting", id.c_str());
        }
    }
    checkBystanders(w, P);
}

// ------------------------------------------------------------ C14 configuration changes
bool addressed(World &w, const RouteState::B &b, const Broker &br)
{
    if (b.port != br.port) return false;
    if (!b.dns) return b.host == br.ip;
    for (auto &e : dnsTimeline(w, b.host))
        for (auto &ip : e.ips)
            if (ip == br.ip) return true;
    return false;
}
void checkConfigChanges(World &w, const std::string &P)
{
    bool par = false, restricts = false;
    for (auto &c : w.ctls) {
        auto v = words(upper(c->cmd));
        if (v.size() < 2) continue;
        if (c->tag == "par" && (v[0] == "BACKEND" || v[0] == "FARM" || v[0] == "MAP" || v[0] == "DATACENTER")) par = true;
        if (v[0] == "AUTH" || v[0] == "LIMIT") restricts = true;
        // a command with no complete answer is reported by checkAlive
    }
    auto tl = routeTimeline(w);
    Time slack = effectSlack(w);
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (id == "HEALTH" || c.vhost == "vby") continue;
        for (auto *b : c.conns) {
            w.probe("routed");
            bool ok = false;
            if (par) {   // the order of commands is not known: any address ever configured
                for (auto &k : w.ctls) {
                    auto v = words(k->cmd);
                    if (v.size() >= 6 && v[0] == "BACKEND" && addressed(w, {v[3], v[4], atoi(v[5].c_str()), v[1] == "ADD_DNS"}, *b->b)) ok = true;
                }
            }
            else
                for (auto &x : routesDuring(tl, c.vhost, c.tOpenSent, b->tConn))
                    for (auto &n : x.names)
                        if (addressed(w, x.st->backends.at(n), *b->b)) ok = true;
            if (!ok) w.violate(P, "client %s of vhost %s was connected to %s:%d, which nothing in force then named", id.c_str(), c.vhost.c_str(), b->b->ip.c_str(), b->b->port);
        }
        if (c.tOpenOk && !c.iClosedS() && !c.spec.has("end")) {
            w.probe("established");
            if (w.tSettled && !w.openAtSettle.count(id)) w.violate(P, "established connection of %s was disturbed", id.c_str());
            checkFidelityOf(w, P, c);
        }
        if (c.protoError) w.violate(P, "client %s saw a protocol error: %s", id.c_str(), c.protoErrorWhy.c_str());
        if (!w.tSettled || c.refused || c.iClosedS() || c.spec.has("end")) continue;
        if (c.port == 5999 || !c.tOpenSent) continue;   // its listener may have gone before it was taken
        if (!c.tOpenOk && !c.endedS()) w.violate(P, "client %s was left waiting", id.c_str());
        if (!par && !restricts && !c.tOpenOk) {
            bool good = true;
            Time to = c.tEof ? c.tEof : c.tReset ? c.tReset : w.tSettled;
            for (auto &x : routesDuring(tl, c.vhost, c.tOpenSent, to + slack)) {
                if (x.names.empty()) good = false;
                for (auto &n : x.names)
                    for (auto &kv : w.brokers)
                        if (addressed(w, x.st->backends.at(n), *kv.second) && kv.second->spec.s("mode", "accept") != "accept") good = false;
            }
            if (good) w.violate(P, "client %s of vhost %s was never opened although its vhost was mapped to working brokers throughout", id.c_str(), c.vhost.c_str());
        }
    }
    checkBystanders(w, P);
}

// ------------------------------------------------------------ C18 stuck parties
void checkBackPressure(World &w, const std::string &P)
{
    // Taken in on one connection of a pair and not yet handed to the kernel on
    // the other.  A read takes in at most what the receive buffer holds, and a
    // partly received frame is kept until it is whole.
    auto held = [&](sim::Conn &in, sim::Conn &out) {
        int64_t h = 0, mx = 0;
        size_t  j = 0;
        for (auto &x : in.pIn) {
            while (j < out.pOut.size() && out.pOut[j].first < x.first) h -= out.pOut[j++].second;
            h  = std::max<int64_t>(h, -65536);   // what the proxy itself adds in the handshake
            mx = std::max(mx, h += x.second);
        }
        return mx;
    };
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.c || c.conns.size() != 1 || !c.conns[0]->c) continue;
        auto   &b   = *c.conns[0]->c;
        int64_t cap = std::max<int64_t>({(int64_t)c.c->toP.cap, (int64_t)b.toP.cap, c.spec.n("cap"), w.plan.first("run")->n("cap")}), B = cap + 131072 + 16384 + 8192;
        int64_t up = held(*c.c, b), down = held(b, *c.c);
        w.probe("pairs_measured");
        if (c.upSent.size() > (size_t)B + c.c->toP.cap + b.toA.cap + 65536 && c.spec.has("bstall")) w.probe("up_beyond_bound");
        if (c.conns[0]->downSent.size() > (size_t)B + c.c->toA.cap + b.toP.cap + 65536 && c.spec.has("stall")) w.probe("down_beyond_bound");
        if (getenv("AMQPSIM_DEBUG")) w.note("held by %s: up %ld of %zu, down %ld of %zu, cap %ld", id.c_str(), (long)up, c.upSent.size(), (long)down, c.conns[0]->downSent.size(), (long)cap);
        if (up > B) w.violate(P, "the proxy held %ld bytes from client %s for its broker, with receive buffers of %ld", (long)up, id.c_str(), (long)cap);
        if (down > B) w.violate(P, "the proxy held %ld bytes from the broker for client %s, with receive buffers of %ld", (long)down, id.c_str(), (long)cap);
        checkFidelityOf(w, P, c);
    }
    checkBystanders(w, P);
}

void checkIsolation(World &w, const std::string &P)
{
    const Time B  = 1500 * MS + stallSlack(w);
    int        kf = w.plan.first("run")->n("kf");
    // when the recorded ways of getting stuck were in effect
    auto within = [&](Time a, Time b, int what) {
        if (what == 1)
            for (auto &q : w.dnsQueries) {
                Time d = 0;
                for (auto &e : dnsTimeline(w, q.second)) d = std::max(d, e.delay);
                if (d >= 2 * SEC && q.first <= b) return true;   // and those queued behind it
            }
        if (what == 2)
            for (auto &c : w.ctls)
                if (c->cmd.find("slow.example.com") != std::string::npos && c->tSent <= b && (!c->done || c->tDone + 100 * MS >= a)) return true;
        if (what == 3)
            for (auto &id : w.clientOrder)
                if (w.clients[id]->ip == "172.16.9.9" && w.clients[id]->tConnect <= b) return true;
        return false;
    };
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.spec.n("prompt") || !c.tConnect) continue;
        Time to = c.tOpenOk ? c.tOpenOk : INT64_MAX;
        std::string why = !c.tOpenOk ? "was never served" : fmt("was served after %.1f s", (c.tOpenOk - c.tConnect) / 1e9);
        Time from = c.tConnect;
        bool late = to - from > B;
        if (!late) {
            w.probe("prompt_clients");
            Time d = c.spec.n("dur") * US, e = c.tEnded() == INT64_MAX || !c.gotCloseOk ? 0 : c.tEnded();
            from = c.tOpenOk;
            to   = e ? e : INT64_MAX;
            if (to - from > d + B + 2 * SEC) {
                late = true;
                why  = e ? fmt("took %.1f s to complete", (e - from) / 1e9) : "never completed";
            }
        }
        if (!late) {
            checkFidelityOf(w, P, c);
            continue;
        }
        if (kf == 1 && c.vhost == "vn" && within(from, std::min(to, w.tEnd), 1)) w.violate(P, "client %s of a quickly resolved broker name %s while other names were being looked up", id.c_str(), why.c_str());
        else if (kf == 3 && within(from, std::min(to, w.tEnd), 3))
            w.violate(P, "client %s %s while MAPHOSTNAME waited for the reverse lookup of another client", id.c_str(), why.c_str());
        else
            w.violate(P, "client %s %s while others were stuck", id.c_str(), why.c_str());
    }
    for (auto &c : w.ctls) {
        if (c->tag != "par") continue;
        w.probe("prompt_commands");
        if (c->done && c->tDone - c->tSent <= B) continue;
        std::string why = c->done ? fmt("was answered after %.1f s", (c->tDone - c->tSent) / 1e9) : "was never answered";
        if (kf == 2 && within(c->tSent, c->done ? c->tDone : INT64_MAX, 2)) w.violate(P, "control command '%s' %s while BACKEND ADD waited for a name lookup", c->cmd.c_str(), why.c_str());
        else if (kf == 3 && within(c->tSent, c->done ? c->tDone : INT64_MAX, 3))
            w.violate(P, "control command '%s' %s while MAPHOSTNAME waited for the reverse lookup of a client", c->cmd.c_str(), why.c_str());
        else
            w.violate(P, "control command '%s' %s while others were stuck", c->cmd.c_str(), why.c_str());
    }
    checkBystanders(w, P);
}
