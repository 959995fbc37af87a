// History checks. Each check looks only at what the simulated parties saw.
#include "actors.h"
#include "oracle.h"
#include <algorithm>
#include <cstring>
#include <sstream>

using namespace amqp;
using sim::fmt;

// ------------------------------------------------------------ model.h bits
std::vector<std::string> words(const std::string &s)
{
    std::istringstream       i(s);
    std::vector<std::string> r;
    std::string              w;
    while (i >> w) r.push_back(w);
    return r;
}
std::string upper(std::string s)
{
    for (auto &c : s) c = toupper(c);
    return s;
}

// Routing configuration as documented for the control commands.
void RouteState::apply(const std::string &cmd)
{
    auto        v  = words(cmd);
    std::string a  = v.size() > 0 ? upper(v[0]) : "", b = v.size() > 1 ? upper(v[1]) : "";
    if (a == "BACKEND" && (b == "ADD" || b == "ADD_DNS") && v.size() >= 6) {
        if (!backends.count(v[2])) backends[v[2]] = {v[3], v[4], atoi(v[5].c_str()), b == "ADD_DNS"};
    }
    else if (a == "BACKEND" && b == "DELETE" && v.size() >= 3)
        backends.erase(v[2]);
    else if (a == "FARM" && b == "ADD" && v.size() >= 5) {
        bool ok = upper(v[3]) == "ROUND-ROBIN";
        std::set<std::string> m;
        for (size_t i = 4; i < v.size(); ++i) {
            if (!backends.count(v[i])) ok = false;
            m.insert(v[i]);
        }
        if (ok) {
            farms[v[2]]      = m;
            partitions.erase(v[2]);
        }
    }
    else if (a == "FARM" && b == "DELETE" && v.size() >= 3) {
        farms.erase(v[2]);
        partitions.erase(v[2]);
    }
    else if (a == "FARM" && b == "PARTITION" && v.size() >= 4) {
        if (farms.count(v[2])) partitions.insert(v[2]);
    }
    else if (a == "DATACENTER" && b == "SET" && v.size() >= 3)
        dc = v[2];
    else if (a == "MAP" && b == "BACKEND" && v.size() >= 4)
        maps[v[2]] = {false, v[3]};
    else if (a == "MAP" && b == "FARM" && v.size() >= 4)
        maps[v[2]] = {true, v[3]};
    else if (a == "MAP" && b == "UNMAP" && v.size() >= 3)
        maps.erase(v[2]);
    else if (a == "MAP" && b == "DEFAULT" && v.size() >= 3)
        dflt = v[2];
    else if (a == "MAP" && b == "REMOVE_DEFAULT")
        dflt.clear();
}
// Backends a new connection of the vhost may be given; empty: must be refused
std::pair<bool, std::string> RouteState::mapping(const std::string &vhost) const
{
    auto it = maps.find(vhost);
    if (it != maps.end()) return it->second;
    return {true, dflt};
}
std::set<std::string> RouteState::members(const std::pair<bool, std::string> &m) const
{
    if (m.second.empty()) return {};
    if (!m.first) return backends.count(m.second) ? std::set<std::string>{m.second} : std::set<std::string>{};
    auto f = farms.find(m.second);
    if (f == farms.end()) return {};
    std::set<std::string> r;
    for (auto &b : f->second)
        if (backends.count(b)) r.insert(b);
    return r;
}
std::set<std::string> RouteState::targets(const std::string &vhost) const { return members(mapping(vhost)); }
std::vector<RouteResult> routesDuring(const std::vector<RouteStep> &tl, const std::string &vhost, Time a, Time b)
{
    std::vector<RouteResult>               r;
    std::set<std::pair<bool, std::string>> seen;
    for (auto *s : statesDuring(tl, a, b)) {
        seen.insert(s->mapping(vhost));
        for (auto &m : seen) r.push_back({s, s->members(m)});
    }
    return r;
}
std::string RouteState::farmOf(const std::string &vhost) const
{
    auto it = maps.find(vhost);
    if (it == maps.end()) return dflt;
    return it->second.first ? it->second.second : "";
}
std::vector<std::vector<std::string>> RouteState::partitionsOf(const std::string &vhost) const
{
    auto                                  t = targets(vhost);
    std::vector<std::vector<std::string>> r;
    if (t.empty()) return r;
    if (!partitions.count(farmOf(vhost))) {
        r.emplace_back(t.begin(), t.end());
        return r;
    }
    std::vector<std::string> near, far;
    for (auto &b : t) (backends.at(b).dc == dc ? near : far).push_back(b);
    if (!near.empty()) r.push_back(near);
    if (!far.empty()) r.push_back(far);
    return r;
}
std::vector<RouteStep> routeTimeline(World &w)
{
    std::vector<RouteStep> r;
    RouteState             s;
    r.push_back({0, 0, s});
    for (auto &c : w.ctls) {
        if (c->tag != "conf" && c->tag != "plan") continue;
        auto v = words(c->cmd);
        if (v.empty()) continue;
        std::string a = upper(v[0]);
        if (a != "MAP" && a != "FARM" && a != "BACKEND" && a != "DATACENTER") continue;
        s.apply(c->cmd);
        r.push_back({c->tSent, c->done ? c->tDone : INT64_MAX, s});
    }
    return r;
}
// all configurations that may have been in force at some moment of [a,b]
std::vector<const RouteState *> statesDuring(const std::vector<RouteStep> &tl, Time a, Time b)
{
    std::vector<const RouteState *> r;
    for (size_t i = 0; i < tl.size(); ++i) {
        Time from = tl[i].tSent, to = i + 1 < tl.size() ? tl[i + 1].tDone : INT64_MAX;
        if (from <= b && to >= a) r.push_back(&tl[i].st);
    }
    return r;
}

// Commands that entitle the proxy to interfere with the session of a client.
bool adminTouched(World &w, const Client &c)
{
    for (auto &k : w.ctls) {
        auto v = words(k->cmd);
        if (v.size() < 3) continue;
        std::string a = upper(v[0]), b = upper(v[1]);
        if (a == "VHOST" && v[2] == c.vhost) return true;
        if (a == "SESSION" && k->target == c.id) return true;
    }
    return false;
}
bool gracefulTouched(World &w, const Client &c)
{
    for (auto &k : w.ctls)
        if (k->target == c.id && upper(k->cmd).find("DISCONNECT_GRACEFUL") != std::string::npos) return true;
    return false;
}
bool clientFaulty(const Client &c)
{
    for (auto k : {"badstage", "raw", "rst_at", "fin_at"})
        if (c.spec.has(k)) return true;
    return c.spec.s("end") == "rst";
}
static bool prefixOf(const S &a, const S &b) { return a.size() <= b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
// length of the leading complete frames of s that the proxy must accept
static size_t completeFrames(const S &s)
{
    size_t o = 0;
    while (s.size() - o >= 8) {
        uint32_t n = (uint8_t)s[o + 3] << 24 | (uint8_t)s[o + 4] << 16 | (uint8_t)s[o + 5] << 8 | (uint8_t)s[o + 6];
        if (n > 131072 - 8) break;
        if (s.size() - o < n + 8ULL) break;
        if ((uint8_t)s[o + 7 + n] != 0xCE) break;
        o += n + 8;
    }
    return o;
}
static size_t firstDiff(const S &a, const S &b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return i;
}
BrokerConn *openConn(const Client &c)
{
    for (auto *b : c.conns)
        if (b->openOkSent) return b;
    return nullptr;
}

// ------------------------------------------------------------ C01 fidelity
static void checkFidelity(World &w, const std::string &P)
{
    for (auto &id : w.clientOrder) checkFidelityOf(w, P, *w.clients[id]);
}
void checkFidelityOf(World &w, const std::string &P, Client &c, bool upComplete)
{
    const std::string &id = c.id;
    do {
        int     opens = 0;
        for (auto *b : c.conns) opens += b->openOkSent;
        if (opens > 1) w.violate(P, "client %s has %d opened broker connections", id.c_str(), opens);
        BrokerConn *b = openConn(c);
        bool graceful = gracefulTouched(w, c);
        if (!b) {
            if (!c.downRecv.empty() && c.tOpenOk) w.violate(P, "client %s received %zu bytes without a broker", id.c_str(), c.downRecv.size());
            continue;
        }
        w.probe("pairs");
        if (!graceful) {
            if (!prefixOf(b->upRecv, c.upSent)) {
                size_t d = firstDiff(b->upRecv, c.upSent);
                w.violate(P, "up stream of %s altered at byte %zu (sent %zu, broker got %zu)", id.c_str(), d, c.upSent.size(), b->upRecv.size());
                continue;
            }
            if (!prefixOf(c.downRecv, b->downSent)) {
                size_t d = firstDiff(c.downRecv, b->downSent);
                w.violate(P, "down stream of %s altered at byte %zu (sent %zu, client got %zu)", id.c_str(), d, b->downSent.size(), c.downRecv.size());
                continue;
            }
        }
        if (graceful || adminTouched(w, c)) continue;
        size_t upMust = completeFrames(c.upSent), downMust = completeFrames(b->downSent);
        // both ends still there after the quiet period: everything must be through
        auto sn = w.snap.find(id);
        if (sn != w.snap.end() && sn->second.alive) {
            bool   badUp = c.spec.s("badstage") == "data", badDown = c.spec.has("bbad");
            size_t um = completeFrames(c.upSent.substr(0, sn->second.upSent)), dm = completeFrames(b->downSent.substr(0, sn->second.downSent));
            if (upComplete && sn->second.upRecv < um && !badUp && !badDown) w.violate(P, "up stream of %s stalled: %zu of %zu bytes delivered", id.c_str(), sn->second.upRecv, um);
            if (sn->second.downRecv < dm && !badDown && !badUp) w.violate(P, "down stream of %s stalled: %zu of %zu bytes delivered", id.c_str(), sn->second.downRecv, dm);
            w.probe("pairs_complete");
        }
        std::string e = c.spec.s("end"), be = c.spec.s("bend");
        bool plain = !clientFaulty(c) && !c.spec.has("bbad");
        bool killed = false;
        for (auto &i : w.plan.items)
            if (i.kind == "brokerset" && i.has("kill") && i.s("id") == b->b->id) killed = true;
        // orderly end by the client while nothing flows towards it
        if (plain && !killed && be.empty() && c.iClosedS() && (e == "fin" || e == "halfclose") && c.spec.n("down") == 0 && !c.spec.n("eager") && c.closes.empty() && c.tOpenOk) {
            w.probe("client_fin_pairs");
            if (b->upRecv.size() < upMust) w.violate(P, "frames of %s lost on its orderly close: %zu of %zu bytes delivered", id.c_str(), b->upRecv.size(), upMust);
        }
        if (plain && !killed && be.empty() && e == "amqp" && c.tOpenOk && (c.gotCloseOk || (w.tSettled && c.endedS()))) {
            w.probe("amqp_close_pairs");
            if (b->upRecv.size() < upMust) w.violate(P, "frames of %s lost before its Close: %zu of %zu bytes delivered", id.c_str(), b->upRecv.size(), upMust);
            if (c.downRecv.size() < downMust) w.violate(P, "frames for %s lost before CloseOk: %zu of %zu bytes delivered", id.c_str(), c.downRecv.size(), downMust);
        }
        if (plain && !killed && be == "fin" && (e == "hold" || e.empty()) && b->iClosedS() && c.spec.n("up") == 0 && c.tOpenOk) {
            w.probe("broker_fin_pairs");
            if (c.downRecv.size() < downMust) w.violate(P, "frames for %s lost on broker's orderly close: %zu of %zu bytes delivered", id.c_str(), c.downRecv.size(), downMust);
        }
    } while (false);
}

// ------------------------------------------------------------ C02 handshake
static std::string hostOf(World &w, const std::string &ip)
{
    (void)w;
    return ip;
}
static void checkHandshake(World &w, const std::string &P)
{
    bool mapped = false;
    for (auto &k : w.ctls)
        if (k->tag == "conf" && upper(k->cmd).rfind("MAPHOSTNAME", 0) == 0) mapped = true;
    for (auto &kv : w.brokers)
        for (auto &bp : kv.second->conns) {
            BrokerConn &b = *bp;
            if (b.protoError) w.violate(P, "broker %s saw a protocol error: %s", kv.first.c_str(), b.protoErrorWhy.c_str());
            if (!b.tStartOk) continue;
            if (!b.cl) {
                w.violate(P, "broker %s got StartOk that belongs to no client (%s)", kv.first.c_str(), b.simId.c_str());
                continue;
            }
            Client &c = *b.cl;
            if (c.spec.has("badstage") && c.spec.s("badstage") != "data") continue;  // its own StartOk was damaged
            w.probe("startok_compared");
            // expected properties: the client's own, then the proxy's two
            size_t nOwn = c.props.size();
            bool   cred = c.spec.s("auth") == "allowcred";
            size_t i    = 0;
            for (; i < nOwn && i < b.props.size(); ++i) {
                const Field &x = c.props[i], &y = b.props[i];
                if (x.name != y.name || x.raw != y.raw || (x.type != y.type && !(x.type == 'U' && y.type == 's'))) {
                    w.violate(P, "client property %zu of %s changed: %s/%c -> %s/%c", i, c.id.c_str(), pctEnc(x.name).c_str(), x.type, pctEnc(y.name).c_str(), y.type);
                    break;
                }
            }
            if (b.props.size() < nOwn + 2) w.violate(P, "StartOk for %s has %zu properties, expected at least %zu", c.id.c_str(), b.props.size(), nOwn + 2);
            else {
                bool haveC = false, haveH = false;
                for (size_t k = nOwn; k < b.props.size(); ++k) {
                    const Field &f = b.props[k];
                    std::string  v = f.raw.size() >= 4 ? f.raw.substr(4) : "";
                    if (f.name == "amqpprox_client") {
                        haveC = true;
                        std::string host = hostOf(w, c.ip), h2 = w.rdns.count(c.ip) ? w.rdns[c.ip] : "";
                        std::string tail = ":" + std::to_string(c.sport) + (c.spec.n("tls") ? " TLS" : "");
                        if (mapped && !h2.empty()) {
                            host = h2;
                            w.probe("hostname_mapped");
                        }
                        if (v != host + tail) w.violate(P, "amqpprox_client of %s is '%s', expected '%s'", c.id.c_str(), v.c_str(), (host + tail).c_str());
                    }
                    else if (f.name == "amqpprox_host") {
                        haveH = true;
                        std::string want = "(:" + std::to_string(c.port) + ") " + K->hostname + ":" + std::to_string(b.c->pAddr.port);
                        if (v != want) w.violate(P, "amqpprox_host of %s is '%s', expected '%s'", c.id.c_str(), v.c_str(), want.c_str());
                    }
                    else if (!cred)
                        w.violate(P, "unexpected property %s added for %s", pctEnc(f.name).c_str(), c.id.c_str());
                }
                if (!haveC || !haveH) w.violate(P, "proxy identification missing for %s", c.id.c_str());
            }
            std::string wantMech = cred ? c.spec.s("newmech", "PLAIN") : c.mech, wantResp = cred ? c.spec.s("newcred") : c.resp;
            if (b.mech != wantMech || b.resp != wantResp || b.locale != c.locale)
                w.violate(P, "StartOk of %s altered: mechanism %s/%s response %zu/%zu bytes locale %s/%s", c.id.c_str(), pctEnc(b.mech).c_str(), pctEnc(wantMech).c_str(), b.resp.size(),
                          wantResp.size(), pctEnc(b.locale).c_str(), pctEnc(c.locale).c_str());
            if (!b.tuneOkArgs.empty()) {
                S want = u16(c.chMax) + u32(c.frMax) + u16(c.hb);
                if (b.tuneOkArgs != want) w.violate(P, "TuneOk of %s altered", c.id.c_str());
            }
            if (b.tOpen && b.vhost != c.vhost) w.violate(P, "Open of %s names vhost '%s', client asked for '%s'", c.id.c_str(), pctEnc(b.vhost).c_str(), pctEnc(c.vhost).c_str());
            if (b.tOpen && b.openArgs != sstr(c.vhost) + sstr("") + u8(0)) w.violate(P, "Open arguments of %s altered", c.id.c_str());
        }
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (c.protoError) w.violate(P, "client %s saw a protocol error: %s", id.c_str(), c.protoErrorWhy.c_str());
        if (c.openOks > 1) w.violate(P, "client %s got %d OpenOk", id.c_str(), c.openOks);
        if (c.openOks) {
            BrokerConn *b = openConn(c);
            if (!b || b->tOpenOk > c.tOpenOk) w.violate(P, "client %s was told open before its broker accepted", id.c_str());
            w.probe("opens");
        }
        // a broker that answered while everybody stays: the client must be told
        BrokerConn *b = openConn(c);
        if (b && !c.openOks && !c.endedS() && !b->endedS() && !adminTouched(w, c)) w.violate(P, "broker opened %s but the client was never told", id.c_str());
        // Close during the handshake reaches the client
        for (auto *bc : c.conns) {
            std::string hs = bc->hs;
            if (hs.rfind("close@", 0) != 0 || hs == "close@connect") continue;
            if (clientFaulty(c) || adminTouched(w, c) || c.iClosedS()) {
                if (c.closes.empty()) continue;
            }
            w.probe("broker_close_in_handshake");
            bool got = false;
            for (auto &ci : c.closes)
                if (ci.code == bc->b->spec.n("closecode", 403) && ci.text == bc->b->spec.s("closetext", "refused by broker")) got = true;
            if (!got) w.violate(P, "broker refused %s with Close but the client was not told why (%zu closes)", id.c_str(), c.closes.size());
        }
    }
}

// ------------------------------------------------------------ C03 routing
static void checkRouting(World &w, const std::string &P)
{
    auto tl = routeTimeline(w);
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.tOpenSent || clientFaulty(c)) continue;
        Time from = c.tOpenSent;
        for (auto *b : c.conns) {
            // the choice was made between Open and the connection attempt
            bool ok = false;
            for (auto &x : routesDuring(tl, c.vhost, from, b->tConn))
                for (auto &n : x.names)
                    if (addressed(w, x.st->backends.at(n), *b->b)) ok = true;
            if (!ok) w.violate(P, "client %s of vhost %s was connected to %s, which its vhost did not map to", id.c_str(), pctEnc(c.vhost).c_str(), b->b->id.c_str());
            w.probe("routed");
        }
        if (adminTouched(w, c)) continue;
        Time to = c.tEof ? c.tEof : c.tReset ? c.tReset : c.closes.empty() ? w.tSettled : c.closes[0].t;
        auto sts = routesDuring(tl, c.vhost, from, to ? to : INT64_MAX);
        // A farm all of whose backends were deleted is like one whose brokers are all dead
        bool mayRefuse = false, mustRefuse = true, emptyFarm = false;
        for (auto &s : sts) {
            if (s.names.empty()) mayRefuse = true;
            else
                mustRefuse = false;
            for (auto &f : s.st->farms) {
                bool any = false;
                for (auto &m : f.second) any = any || s.st->backends.count(m);
                if (!any) emptyFarm = true;
            }
        }
        bool refused = false;
        for (auto &ci : c.closes)
            if (ci.text.rfind("No known broker mapping for vhost ", 0) == 0) refused = true;
        if (refused) w.probe("refused_unmapped");
        if (refused && !mayRefuse) w.violate(P, "client %s of mapped vhost %s was told there is no mapping", id.c_str(), pctEnc(c.vhost).c_str());
        if (mustRefuse) {
            if (c.openOks) w.violate(P, "client %s of unmapped vhost %s was opened", id.c_str(), pctEnc(c.vhost).c_str());
            if (w.tSettled && c.tOpenSent + 2 * SEC < w.tSettled && !c.iClosedS()) {
                if (!c.endedS()) w.violate(P, "client %s of unmapped vhost %s is left waiting", id.c_str(), pctEnc(c.vhost).c_str());
            }
            if (w.tSettled && !c.iClosedS() && c.endedS() && !refused && !emptyFarm) w.violate(P, "client %s of unmapped vhost %s was dropped without a reason", id.c_str(), pctEnc(c.vhost).c_str());
            if (refused)
                for (auto &ci : c.closes)
                    if (ci.text != ("No known broker mapping for vhost " + c.vhost).substr(0, 255) || ci.code != 506)
                        w.violate(P, "client %s got Close %d '%s'", id.c_str(), ci.code, pctEnc(ci.text).c_str());
        }
        if (!mayRefuse && !c.spec.has("noexpect") && w.tSettled && c.tOpenSent + 3 * SEC < w.tSettled) {
            bool brokersOk = true;
            for (auto &s : sts)
                for (auto &t : s.names)
                    for (auto &kv : w.brokers)
                        if (addressed(w, s.st->backends.at(t), *kv.second) && (kv.second->spec.s("mode", "accept") != "accept" || kv.second->spec.s("hs0", "ok") != "ok")) brokersOk = false;
            if (brokersOk && !c.openOks && !c.iClosedS()) w.violate(P, "client %s of mapped vhost %s was never opened", id.c_str(), pctEnc(c.vhost).c_str());
        }
    }
}

// ------------------------------------------------------------ common
static void checkAlive(World &w, const std::string &P)
{
    if (K->hang) {
        w.violate(P, "the proxy is spinning: block budget exhausted in phase %s", w.phase.c_str());
        return;
    }
    if (w.mainDone && !w.exitSent) {
        w.violate(P, "the proxy ended by itself (rc=%d) in phase %s", w.mainRc, w.phase.c_str());
        return;
    }
    if (w.phase == "startup") {
        w.violate(P, "the control socket never came up");
        return;
    }
    for (auto &s : w.ctlStuck) w.violate(P, "control command '%s' got no complete answer", s.c_str());
    if (w.phase == "config") {
        w.violate(P, "configuration did not finish");
        return;
    }
    if (w.healthRan && !w.healthOk) {
        Client *h = w.clientById("HEALTH");
        w.violate(P, "after all faults stopped a fresh client is not served (state %d, closes %zu, eof %d)", (int)h->st, h->closes.size(), (int)h->eof);
    }
    if (w.exitSent && !w.mainDone) w.violate(P, "EXIT did not end the process in time");
    if (w.exitSent && w.mainDone && w.mainRc != 0) w.violate(P, "EXIT ended with status %d", w.mainRc);
}

void checkAll(World &w)
{
    const std::string &P = w.prop;
    checkAlive(w, P);
    if (!w.configDone) return;
    if (P == "C01") checkFidelity(w, P);
    if (P == "C02") checkHandshake(w, P);
    if (P == "C03") checkRouting(w, P);
    if (P == "C04") checkFailover(w, P);
    if (P == "C05") checkEvenness(w, P);
    if (P == "C20") checkNames(w, P);
    if (P == "C06") checkAuth(w, P);
    if (P == "C07") checkConnRate(w, P);
    if (P == "C08") checkDataRate(w, P);
    if (P == "C09") checkPause(w, P);
    if (P == "C10") checkDisconnect(w, P);
    if (P == "C11") checkEnds(w, P);
    if (P == "C12") checkHostile(w, P);
    if (P == "C14") checkConfigChanges(w, P);
    if (P == "C18") checkIsolation(w, P);
    if (P == "C19") checkBackPressure(w, P);
    if (P == "C13") checkStats(w, P);
    if (P == "C15") checkListeners(w, P);
    if (P == "C21") checkControl(w, P);
    if (P == "C17") checkTls(w, P);
}
