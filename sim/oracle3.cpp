// History checks: authentication, limits, pausing, disconnecting, ends, hostile peers.
#include "oracle.h"
#include <algorithm>
#include <cstring>

using namespace amqp;
using sim::fmt;

static std::string hostNameOf(World &w, const Client &c)
{
    return w.rdns.count(c.ip) ? w.rdns[c.ip] : c.ip;
}

// ------------------------------------------------------------ C06 authentication
namespace {
struct AuthStep {
    Time        tSent, tDone;
    bool        service;
    std::string target;
};
std::vector<AuthStep> authTimeline(World &w)
{
    std::vector<AuthStep> r{{0, 0, false, ""}};
    for (auto &c : w.ctls) {
        if (c->tag != "conf" && c->tag != "plan") continue;
        auto v = words(c->cmd);
        if (v.size() < 2 || upper(v[0]) != "AUTH") continue;
        if (upper(v[1]) == "SERVICE" && v.size() >= 5 && atoi(v[3].c_str()) > 0 && atoi(v[3].c_str()) <= 65535) r.push_back({c->tSent, c->done ? c->tDone : INT64_MAX, true, v[4]});
        else if (upper(v[1]) == "ALWAYS_ALLOW")
            r.push_back({c->tSent, c->done ? c->tDone : INT64_MAX, false, ""});
    }
    return r;
}
std::vector<const AuthStep *> authDuring(const std::vector<AuthStep> &tl, Time a, Time b)
{
    std::vector<const AuthStep *> r;
    for (size_t i = 0; i < tl.size(); ++i) {
        Time to = i + 1 < tl.size() ? tl[i + 1].tDone : INT64_MAX;
        if (tl[i].tSent <= b && to >= a) r.push_back(&tl[i]);
    }
    return r;
}
bool allowing(const std::string &a) { return a == "allow" || a == "allowcred"; }
}  // namespace
void checkAuth(World &w, const std::string &P)
{
    auto tl = authTimeline(w);
    bool reachable = !w.plan.first("authsvc");
    for (auto &i : w.plan.items)
        if (i.kind == "dnsset" && i.s("host") == "authsvc") reachable = false;
    struct Perm {
        Time t;
    };
    std::map<std::string, std::vector<Time>> permitted;  // broker -> moments from which one more client may connect
    RouteState st = routeTimeline(w).back().st;
    bool       anyFaulty = false;
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (id == "HEALTH" || !c.tConnect) continue;
        auto sts     = authDuring(tl, c.tConnect, c.tStart ? c.tStart : INT64_MAX);
        bool mayFree = false, mayService = false;
        std::set<std::string> targets;
        for (auto *s : sts) {
            if (!s->service) mayFree = true;
            else {
                mayService = true;
                targets.insert(s->target);
            }
        }
        // requests made for this client
        std::vector<AuthReq *> mine;
        for (auto &r : w.authReqs)
            if (r.cred == c.resp) mine.push_back(&r);
        if (mine.size() > 1) w.violate(P, "%zu authentication requests for client %s", mine.size(), id.c_str());
        if (!mine.empty() && !mayService) w.violate(P, "authentication request for %s although no service is configured", id.c_str());
        AuthReq *r = mine.empty() ? nullptr : mine[0];
        if (r) {
            w.probe("auth_requests");
            std::string cn = c.spec.s("connname");
            if (!r->decoded || r->vhost != c.vhost || r->mech != c.mech || r->connName != cn || r->clientHost != c.ip || !targets.count(r->target) || r->method != "POST")
                w.violate(P, "authentication request for %s says vhost=%s mechanism=%s name=%s host=%s target=%s", id.c_str(), pctEnc(r->vhost).c_str(), pctEnc(r->mech).c_str(), pctEnc(r->connName).c_str(),
                          r->clientHost.c_str(), r->target.c_str());
        }
        bool allowed = r && allowing(r->answer) && r->tReply;
        Time from    = mayFree ? c.tOpenSent : allowed ? r->tReply : 0;
        if (from)
            for (auto &t : st.targets(c.vhost)) permitted[t].push_back(from);
        for (auto *b : c.conns) {
            w.probe("gated_connections");
            if (!mayFree && !(allowed && r->tReply <= b->tConn)) w.violate(P, "client %s reached broker %s without permission (answer %s)", id.c_str(), b->b->id.c_str(), r ? r->answer.c_str() : "none");
            std::string m = c.mech, cr = c.resp;
            if (allowed && r->answer == "allowcred") m = c.spec.s("newmech", "PLAIN"), cr = c.spec.s("newcred");
            if (b->mech != m || b->resp != cr) w.violate(P, "client %s was presented to its broker with the wrong credentials", id.c_str());
            if (b->mech.empty() && b->props.empty()) continue;
            // and the service's own remark goes with its credentials
            std::string remark;
            size_t      remarks = 0, own = 0;
            for (auto &f : c.props)
                if (f.name == "amqpprox_auth") ++own;
            for (auto &f : b->props)
                if (f.name == "amqpprox_auth") ++remarks, remark = f.raw;
            bool due = allowed && r->answer == "allowcred" && !c.spec.s("authreason").empty();
            if (own) continue;
            if (due) w.probe("remarks");
            if (remarks != (due ? 1u : 0u)) w.violate(P, "client %s was presented to its broker with %zu remarks of the service", id.c_str(), remarks);
            else if (due && remark != amqp::lstr(c.spec.s("authreason")))
                w.violate(P, "client %s was presented to its broker with a remark the service did not make", id.c_str());
        }
        if (!w.tSettled || !c.tOpenSent || clientFaulty(c)) continue;
        std::string a       = c.spec.s("auth", "allow");
        Time        delay   = c.spec.n("authdelay", 500) * US;
        bool        inTime  = delay + stallSlack(w) < 28 * SEC;
        if (allowing(a) && reachable && inTime) {
            w.probe("must_serve");
            if (!c.openOks) w.violate(P, "client %s was permitted but not served", id.c_str());
        }
        if (mayFree && !mayService && !c.openOks) w.violate(P, "client %s was not served although everybody is allowed", id.c_str());
        if (mayFree) continue;
        if (!allowed) {
            w.probe("must_refuse");
            if (c.openOks) w.violate(P, "client %s was opened although the service answered '%s'", id.c_str(), r ? r->answer.c_str() : "nothing");
            if (!c.endedS() && c.tOpenSent + 75 * SEC + stallSlack(w) < w.tSettled) w.violate(P, "client %s is left waiting (answer %s)", id.c_str(), r ? r->answer.c_str() : "none");
            if (c.eof || c.reset || !c.closes.empty()) {
                bool wants = c.spec.n("authclose");
                if (wants) {
                    std::string reason = c.spec.s("authreason").substr(0, 255);
                    bool        sure   = r && (r->answer == "deny" || r->answer == "denycred") && r->tReply && inTime;
                    if (c.closes.size() != 1 || c.closes[0].code != 403) w.violate(P, "client %s was refused without being told (%zu closes)", id.c_str(), c.closes.size());
                    else if (sure && c.closes[0].text != reason)
                        w.violate(P, "client %s was told '%s' instead of '%s'", id.c_str(), pctEnc(c.closes[0].text).c_str(), pctEnc(reason).c_str());
                    w.probe("told_403");
                }
                else if (!c.closes.empty())
                    w.violate(P, "client %s got a Close it did not ask for", id.c_str());
            }
        }
    }
    (void)anyFaulty;
    std::map<std::string, int> n;
    for (auto &a : w.attempts) {
        if (!permitted.count(a.broker) && backendOf(a.broker) == "hb") continue;
        int k = ++n[a.broker], ok = 0;
        for (Time t : permitted[a.broker])
            if (t <= a.t) ++ok;
        if (k > ok) w.violate(P, "broker %s was contacted %d times when %d clients were permitted", a.broker.c_str(), k, ok);
    }
}

// ------------------------------------------------------------ C07 connection rate
namespace {
struct LimitStep {
    Time                               tSent, tDone;
    std::map<std::string, int64_t>     spec;
    int64_t                            dflt;  // -1: none
    std::string                        vhost; // vhost changed by this step, empty: default
};
std::vector<LimitStep> limitTimeline(World &w, const std::string &kind)
{
    std::vector<LimitStep> r{{0, 0, {}, -1, ""}};
    for (auto &c : w.ctls) {
        if (c->tag != "conf" && c->tag != "plan") continue;
        auto v = words(c->cmd);
        if (v.size() < 3 || upper(v[0]) != "LIMIT") continue;
        LimitStep s = r.back();
        s.tSent     = c->tSent;
        s.tDone     = c->done ? c->tDone : INT64_MAX;
        if (upper(v[1]) == kind && upper(v[2]) == "VHOST" && v.size() >= 5) s.spec[s.vhost = v[3]] = atoll(v[4].c_str());
        else if (upper(v[1]) == kind && upper(v[2]) == "DEFAULT" && v.size() >= 4)
            s.dflt = atoll(v[3].c_str()), s.vhost.clear();
        else if (upper(v[1]) == "DISABLE" && upper(v[2]) == kind && v.size() >= 4) {
            if (upper(v[3]) == "DEFAULT") s.dflt = -1, s.vhost.clear();
            else if (v.size() >= 5)
                s.spec.erase(s.vhost = v[4]);
        }
        else
            continue;
        r.push_back(s);
    }
    return r;
}
int64_t limitOf(const LimitStep &s, const std::string &v)
{
    auto i = s.spec.find(v);
    return i != s.spec.end() ? i->second : s.dflt;
}
// the limit in force over [a,b]; false when it changed or a relevant command ran
bool constantLimit(const std::vector<LimitStep> &tl, const std::string &v, Time a, Time b, int64_t &out)
{
    size_t i = 0;
    while (i + 1 < tl.size() && tl[i + 1].tSent < a) ++i;
    if (tl[i].tDone > a) return false;
    out = limitOf(tl[i], v);
    for (size_t j = i + 1; j < tl.size() && tl[j].tSent <= b; ++j)
        if (tl[j].vhost.empty() || tl[j].vhost == v) return false;
    return true;
}
}  // namespace
void checkConnRate(World &w, const std::string &P)
{
    checkBystanders(w, P);
    auto tl = limitTimeline(w, "CONN_RATE");
    Time latMax = w.plan.first("run")->n("latmax", 300) * US, slack = stallSlack(w) + 2 * latMax;
    std::map<std::string, std::vector<Client *>> by;
    RouteState st = routeTimeline(w).back().st;
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (c.tOpenSent) by[c.vhost].push_back(&c);
        if (!c.tOpenSent || clientFaulty(c) || !w.tSettled) continue;
        // nobody is left hanging, and the reason is right
        bool mapped = !st.targets(c.vhost).empty(), limited = false;
        for (auto &k : c.closes) {
            std::string want = ("The connection for " + c.vhost + ", is limited by proxy.").substr(0, 255);
            if (k.text == want && k.code == 506) limited = true;
            else if (mapped)
                w.violate(P, "client %s got Close %d '%s'", id.c_str(), k.code, pctEnc(k.text).c_str());
        }
        if (limited) w.probe("limited");
        if (limited && !c.conns.empty()) w.violate(P, "client %s was refused but reached a broker", id.c_str());
        if (mapped && !limited && !c.openOks) w.violate(P, "client %s was neither admitted nor told it was limited (eof %d)", id.c_str(), (int)c.eof);
        if (limited && c.closes[0].t > c.tOpenSent + 2 * SEC + slack) w.violate(P, "client %s was kept waiting for its refusal", id.c_str());
        int64_t k;
        if (limited && constantLimit(tl, c.vhost, c.tOpenSent, c.closes[0].t, k) && k < 0) w.violate(P, "client %s was refused although its vhost is not limited", id.c_str());
    }
    // a connection is judged some time between its Open and the first sign of the verdict
    auto outcome = [&](Client *c) {
        if (!c->conns.empty()) return c->conns[0]->tConn;
        if (!c->closes.empty()) return c->closes[0].t;
        return w.tSettled ? w.tSettled : w.tEnd;
    };
    for (auto &kv : by) {
        auto &v = kv.second;
        bool  mapped = !st.targets(kv.first).empty();
        std::sort(v.begin(), v.end(), [](Client *a, Client *b) { return a->tOpenSent < b->tOpenSent; });
        for (size_t i = 0; i < v.size();) {
            size_t j = i;
            while (j + 1 < v.size() && v[j + 1]->tOpenSent - v[i]->tOpenSent < 600 * MS) ++j;
            Time    first = v[i]->tOpenSent, last = v[j]->tOpenSent;
            Time    before = 0;
            for (size_t x = 0; x < i; ++x) before = std::max(before, outcome(v[x]));
            for (size_t x = i; x <= j; ++x) last = std::max(last, outcome(v[x]));
            bool    quiet = i == 0 || first - before > 1300 * MS + slack;
            bool    after = (j + 1 == v.size() || v[j + 1]->tOpenSent > last) && last - first < 950 * MS;
            int64_t k     = -1;
            bool    sure  = quiet && after && slack < 300 * MS && mapped && constantLimit(tl, kv.first, first - 1300 * MS - slack, last + slack, k);
            int     in = 0, out = 0, unk = 0;
            for (size_t x = i; x <= j; ++x) {
                if (!v[x]->conns.empty() || v[x]->openOks) ++in;
                else if (!v[x]->closes.empty())
                    ++out;
                else
                    ++unk;
            }
            int n = j - i + 1;
            if (sure && !unk) {
                int want = k < 0 ? n : std::min<int64_t>(n, k);
                w.probe("bursts_judged");
                if (in != want) w.violate(P, "vhost %s: %d of %d connections admitted with limit %lld", kv.first.c_str(), in, n, (long long)k);
            }
            // however arrivals are spread: any window of length L admits at most k per started second + one
            i = j + 1;
        }
        // upper bound over every interval under one limit
        std::vector<Client *> adm;
        for (auto *c : v)
            if (!c->conns.empty()) adm.push_back(c);
        for (size_t a = 0; a < adm.size(); ++a) {
            Time last = 0;
            for (size_t b = a; b < adm.size(); ++b) {
                int64_t k;
                last = std::max(last, outcome(adm[b]));
                if (!constantLimit(tl, kv.first, adm[a]->tOpenSent - slack, last + slack, k)) break;
                if (k < 0) break;
                Time    L    = last - adm[a]->tOpenSent;
                int64_t wins = L / SEC + 2;
                if ((int64_t)(b - a + 1) > k * wins) w.violate(P, "vhost %s: %zu connections admitted within %.2f s with limit %lld", kv.first.c_str(), b - a + 1, L / 1e9, (long long)k);
                w.probe("intervals_judged");
            }
        }
    }
}

// ------------------------------------------------------------ C08 data rate
namespace {
struct Cum {
    std::vector<std::pair<Time, size_t>> v;
    explicit Cum(const std::vector<std::pair<Time, size_t>> &x)
    {
        size_t s = 0;
        for (auto &p : x) v.emplace_back(p.first, s += p.second);
    }
    size_t at(Time t) const
    {
        auto i = std::upper_bound(v.begin(), v.end(), t, [](Time a, const std::pair<Time, size_t> &b) { return a < b.first; });
        return i == v.begin() ? 0 : (i - 1)->second;
    }
    // first moment with at least n bytes
    Time when(size_t n) const
    {
        for (auto &p : v)
            if (p.second >= n) return p.first;
        return INT64_MAX;
    }
};
}  // namespace
void checkDataRate(World &w, const std::string &P)
{
    if (!w.tSettled) return;
    auto    tl = limitTimeline(w, "DATA_RATE");
    Time    latMax = w.plan.first("run")->n("latmax", 300) * US, slack = stallSlack(w) + 6 * latMax;
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (id == "HEALTH" || clientFaulty(c)) continue;
        if (!c.openOks) {
            if (c.tConnect && c.tConnect + 8 * SEC < w.tSettled) w.violate(P, "client %s was not served", id.c_str());
            continue;
        }
        checkFidelityOf(w, P, c, limitOf(tl.back(), c.vhost) < 0 && tl.back().tDone + 2 * SEC < w.tSettled);
        BrokerConn *b = openConn(c);
        if (!b) continue;
        if (!w.openAtSettle.count(id)) w.violate(P, "client %s was disconnected", id.c_str());
        Cum  sent(c.upTimes), got(b->upTimes), dsent(b->sentTimes), dgot(c.downTimes);
        Time readSize = w.plan.first("run")->n("cap", 65536);
        if (c.spec.has("cap")) readSize = std::max<Time>(readSize, c.spec.n("cap"));
        Time big = readSize + c.spec.n("maxframe", 4096) + 64;
        // direction towards the client is never limited
        for (auto &p : dsent.v) {
            Time t = dgot.when(p.second);
            if (t > p.first + 6 * SEC + slack && p.first + 6 * SEC + slack < w.tSettled) {
                w.violate(P, "data for client %s is slow: %zu bytes took %.2f s", id.c_str(), p.second, t == INT64_MAX ? -1. : (t - p.first) / 1e9);
                break;
            }
        }
        if (!dsent.v.empty()) w.probe("down_judged");
        // intervals between relevant commands
        std::vector<Time> cuts{c.tOpenOk};
        for (auto &s : tl)
            if (s.tSent > c.tOpenOk && s.tSent < w.tHeal) cuts.push_back(s.tSent), cuts.push_back(std::min(s.tDone, w.tHeal));
        cuts.push_back(w.tHeal);
        std::sort(cuts.begin(), cuts.end());
        for (size_t i = 0; i + 1 < cuts.size(); ++i) {
            Time    a = cuts[i], e = cuts[i + 1];
            int64_t X;
            if (e - a < 200 * MS || !constantLimit(tl, c.vhost, a + 1, e - 1, X)) continue;
            if (X < 0) {
                // unlimited now; an earlier limit may hold for the rest of its second
                size_t had   = sent.at(a) - std::min(sent.at(a), got.at(a));
                Time   bound = a + 2200 * MS + slack + (Time)(had / 700 + 4) * 6 * latMax;
                if (i && had > 0 && bound < e) {
                    w.probe("released_judged");
                    if (got.at(bound) < sent.at(a)) w.violate(P, "client %s is held back although its limit was removed %.2f s ago", id.c_str(), (bound - a) / 1e9);
                }
                for (auto &p : sent.v) {
                    if (p.first < a + 1200 * MS + slack || p.first > e) continue;
                    Time t = got.when(p.second);
                    if (p.first + 6 * SEC + slack > e) break;
                    if (t > p.first + 6 * SEC + slack) {
                        w.violate(P, "unlimited client %s is slow: %zu bytes took %.2f s", id.c_str(), p.second, t == INT64_MAX ? -1. : (t - p.first) / 1e9);
                        break;
                    }
                    w.probe("unlimited_judged");
                }
                continue;
            }
            // a change of the limit counts from the next refill
            Time from = i ? a + 1200 * MS + slack : a;
            if (from >= e) continue;
            auto judge = [&](Time x, Time y) {
                double L = (y - x) / 1e9;
                size_t g = got.at(y) - got.at(x);
                double most = (double)(X + big) * (L + 1.0 + slack / 1e9) + (x == a ? 2 * X + big : X + big);
                if ((double)g > most) {
                    w.violate(P, "client %s: %zu bytes in %.2f s with a limit of %lld per second", id.c_str(), g, L, (long long)X);
                    return false;
                }
                return true;
            };
            w.probe("limited_intervals");
            bool ok = judge(from, e);
            for (Time x = from; ok && x + 2 * SEC < e; x += SEC) ok = judge(x, x + 2 * SEC);
            // progress while there is a backlog
            for (Time x = from; x + 5 * SEC <= e; x += SEC) {
                Time y = x + 5 * SEC;
                bool backlog = true;
                for (Time z = x; z <= y; z += 250 * MS)
                    if (sent.at(z) < got.at(z) + 2 * big) backlog = false;
                if (!backlog) continue;
                double L = (y - x) / 1e9 - 2.5 - slack / 1e9;
                size_t g = got.at(y) - got.at(x);
                w.probe("backlog_intervals");
                if (L > 0 && (double)g + big < X * L * 0.85) {
                    w.violate(P, "client %s: only %zu bytes in %.2f s with a limit of %lld per second and data waiting", id.c_str(), g, (y - x) / 1e9, (long long)X);
                    break;
                }
            }
        }
    }
}

// ------------------------------------------------------------ C09 pause
namespace {
struct PauseStep {
    Time tSent, tDone;
    bool paused;
};
std::vector<PauseStep> pauseTimeline(World &w, const std::string &v)
{
    std::vector<PauseStep> r{{0, 0, false}};
    for (auto &c : w.ctls) {
        if (c->tag != "conf" && c->tag != "plan") continue;
        auto x = words(c->cmd);
        if (x.size() < 3 || upper(x[0]) != "VHOST" || x[2] != v) continue;
        if (upper(x[1]) == "PAUSE" || upper(x[1]) == "UNPAUSE") r.push_back({c->tSent, c->done ? c->tDone : INT64_MAX, upper(x[1]) == "PAUSE"});
    }
    return r;
}
}  // namespace
void checkPause(World &w, const std::string &P)
{
    checkBystanders(w, P);
    // whenever they asked, none is being connected once the pause has been carried out
    for (auto &i : w.plan.items) {
        auto x = words(i.s("cmd"));
        if (i.kind != "conf" || x.size() != 4 || x[0] != "MAP" || x[1] != "BACKEND") continue;
        auto tl = pauseTimeline(w, x[2]);
        for (size_t k = 0; k < tl.size(); ++k) {
            if (!tl[k].paused || tl[k].tDone == INT64_MAX) continue;
            Time un = INT64_MAX, from = tl[k].tDone + (w.plan.first("run")->n("pstall") ? 3000 : 20) * MS + 2 * stallSlack(w);
            for (size_t j = k + 1; j < tl.size() && un == INT64_MAX; ++j)
                if (!tl[j].paused) un = tl[j].tSent;
            if (from < un) w.probe("pauses_watched");
            for (auto &a : w.attempts)
                if (a.broker == x[3] && a.t > from && a.t < un) w.violate(P, "broker %s was contacted while vhost %s is paused", a.broker.c_str(), x[2].c_str());
        }
    }
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (id == "HEALTH" || c.spec.n("bystander") || !c.tOpenSent) continue;
        auto tl = pauseTimeline(w, c.vhost);
        // paused for sure when it asked, and until the next unpause was issued
        bool held = false;
        for (size_t i = 0; i < tl.size(); ++i) {
            if (!tl[i].paused || tl[i].tDone > c.tOpenSent) continue;
            Time un = INT64_MAX;
            for (size_t j = i + 1; j < tl.size(); ++j)
                if (!tl[j].paused) {
                    un = tl[j].tSent;
                    break;
                }
            if (un < c.tOpenSent) continue;
            held = true;
            for (auto *b : c.conns)
                if (b->tConn < un) w.violate(P, "client %s reached broker %s while its vhost is paused", id.c_str(), b->b->id.c_str());
            if ((c.tEof && c.tEof < un) || (c.tReset && c.tReset < un)) w.violate(P, "client %s was dropped while its vhost is paused", id.c_str());
        }
        if (held) w.probe("held");
        if (!w.tSettled || clientFaulty(c)) continue;
        if (tl.back().paused || tl.back().tDone > w.tHeal) continue;
        // every pause is over now
        bool reached = false;  // was it connected to its broker when paused or unpaused?
        for (auto &s : tl)
            if (s.tSent && !c.conns.empty() && c.conns[0]->tConn <= s.tDone) reached = true;
        // the moment of an unpause may meet a connection that is being made
        if (!c.openOks && !c.endedS()) w.violate(P, "client %s is left waiting after the last unpause", id.c_str());
        if (held && c.conns.empty() && c.endedS()) {
            // asked during a pause and was waiting when it ended
            bool repaused = false;
            Time un       = 0;
            for (auto &s : tl)
                if (s.tSent > c.tOpenSent) {
                    if (!s.paused && !un) un = s.tSent;
                    else if (s.paused && un && !repaused)
                        repaused = true;
                }
            Time e = endOf(w, c);
            (void)e;
            if (!repaused) w.violate(P, "client %s waited for the unpause but was dropped instead of served", id.c_str());
            else
                w.probe("dropped_in_repause");
        }
        if (!reached && c.openOks && endOf(w, c) < w.tSettled) {
            // served after the last command and yet gone
            bool after = true;
            for (auto &s : tl)
                if (s.tDone > c.tOpenSent) after = false;
            if (after) w.violate(P, "client %s was disturbed although its vhost was not paused", id.c_str());
        }
        bool never = true;  // no command since it connected
        for (auto &s : tl)
            if (s.tSent && (s.tDone > c.tConnect || s.paused) && s.tDone > c.tConnect) never = false;
        bool pausedBefore = false;
        for (auto &s : tl)
            if (s.tSent && s.tDone <= c.tConnect) pausedBefore = s.paused;
        if (never && !pausedBefore) {
            w.probe("unaffected");
            if (!w.openAtSettle.count(id)) w.violate(P, "client %s was not served although its vhost was not paused", id.c_str());
        }
        // sessions that were open during a pause are ended by the unpause
        for (size_t i = 1; i < tl.size(); ++i)
            if (tl[i].paused && c.tOpenOk && c.tOpenOk + 20 * MS < tl[i].tSent && endOf(w, c) > tl[i].tDone) {
                for (size_t j = i + 1; j < tl.size(); ++j)
                    if (!tl[j].paused) {
                        w.probe("unpause_ends_open");
                        Time dl = tl[j].tDone + 2 * SEC + stallSlack(w);
                        if (dl < w.tSettled && endOf(w, c) > dl) w.violate(P, "client %s was open during a pause and still is after the unpause", id.c_str());
                        break;
                    }
            }
        // and until then they still receive what their broker sends
        if (BrokerConn *b = c.tOpenOk && c.conns.size() == 1 ? c.conns[0] : nullptr) {
            Cum  dsent(b->sentTimes), dgot(c.downTimes);
            Time lat = 150 * MS + 40 * w.plan.first("run")->n("latmax", 300) * US + stallSlack(w);
            for (size_t i = 1; i < tl.size(); ++i) {
                if (!tl[i].paused || tl[i].tDone < c.tOpenOk) continue;
                Time un = i + 1 < tl.size() ? tl[i + 1].tSent : w.tHeal;
                un      = std::min(un, endOf(w, c));
                size_t n = dsent.at(un - lat);
                if (un - lat <= tl[i].tDone || n <= dsent.at(tl[i].tDone)) continue;
                w.probe("paused_downstream");
                if (dgot.at(un) < n) w.violate(P, "client %s does not receive what its broker sends while its vhost is paused", id.c_str());
            }
        }
        if (w.openAtSettle.count(id)) checkFidelityOf(w, P, c);
    }
}

// ------------------------------------------------------------ C10 disconnect
static bool takeFrames(const S &s, std::vector<S> &out, S &rest)
{
    size_t o = 0;
    while (s.size() - o >= 8) {
        uint32_t n = (uint8_t)s[o + 3] << 24 | (uint8_t)s[o + 4] << 16 | (uint8_t)s[o + 5] << 8 | (uint8_t)s[o + 6];
        if (s.size() - o < n + 8ULL) break;
        if ((uint8_t)s[o + 7 + n] != 0xCE) return false;
        out.push_back(s.substr(o, n + 8));
        o += n + 8;
    }
    rest = s.substr(o);
    return true;
}
static bool isMethod(const S &f, int c, int m) { return f.size() >= 12 && f[0] == 1 && f.substr(7, 4) == u16(c) + u16(m); }
// received = frames of the sent stream, in order, with a Close in between
static std::string streamWithClose(const S &recv, const S &sent, int &closes, bool &afterClose)
{
    std::vector<S> f;
    S              rest, body;
    closes     = 0;
    afterClose = false;
    if (!takeFrames(recv, f, rest)) return "contains a broken frame";
    for (auto &x : f) {
        if (isMethod(x, 10, 50)) {
            ++closes;
            continue;
        }
        if (isMethod(x, 10, 51)) continue;   // an answer to a Close, the proxy's or the peer's
        if (closes) afterClose = true;
        body += x;
    }
    // nor is the sender's own Close part of the comparison: the proxy may send one in its place
    std::vector<S> sf;
    S              srest, was;
    takeFrames(sent, sf, srest);
    for (auto &x : sf)
        if (!isMethod(x, 10, 50) && !isMethod(x, 10, 51)) was += x;
    was += srest;
    // a Close cut short by the end of the connection
    if (!rest.empty() && rest[0] == 1 && !(body.size() + rest.size() <= was.size() && !memcmp(was.data() + body.size(), rest.data(), rest.size()))) {
        S want = S("\1\0\0", 3);
        if (!rest.compare(0, 3, want, 0, std::min<size_t>(rest.size(), 3)) && (rest.size() < 11 || isMethod(rest + "\xce", 10, 50) || isMethod(rest + "\xce", 10, 51))) rest.clear();
    }
    body += rest;
    if (body.size() > was.size() || memcmp(body.data(), was.data(), body.size())) return "was altered";
    return "";
}
void checkDisconnect(World &w, const std::string &P)
{
    checkBystanders(w, P);
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (id == "HEALTH" || c.spec.n("bystander") || !c.tConnect) continue;
        bool touched = false, graceful = false, forced = false, backend = false;
        Time when = 0, force = 0, grace = 0, back = 0;
        for (auto &k : w.ctls) {
            if (k->tag != "plan") continue;
            auto v = words(k->cmd);
            if (v.size() < 3) continue;
            std::string a = upper(v[0]), op = upper(v[1]);
            bool        mine = false;
            if (a == "SESSION" && k->target == id) mine = true, op = upper(v[2]);
            if (a == "VHOST" && v[2] == c.vhost && (!k->done || k->tDone > c.tConnect)) mine = true;
            if (!mine) continue;
            touched = true;
            Time d  = k->done ? k->tDone : INT64_MAX;
            // it must be known to be the session's state that the command meets
            bool known = c.tOpenOk && c.tOpenOk < k->tSent && c.tEnded() > k->tSent;
            if (op == "FORCE_DISCONNECT") {
                forced = true;
                if ((known || a == "SESSION") && !force) force = d;
            }
            if (op == "DISCONNECT_GRACEFUL") {
                graceful = true;
                if (known && !grace) grace = d;
            }
            if (op == "BACKEND_DISCONNECT") {
                backend = true;
                if (known && !back) back = d;
            }
            if (!when) when = k->tSent;
        }
        if (!w.tSettled) continue;
        if (c.vhost == "vheld") {   // paused throughout
            Time out = force ? force : INT64_MAX;
            for (auto &k : w.ctls)
                if (k->tag == "plan" && k->cmd == "VHOST FORCE_DISCONNECT vheld" && k->done && c.tOpenSent && c.tOpenSent + 100 * MS + stallSlack(w) < k->tSent) out = std::min(out, k->tDone);
            Time dl = out == INT64_MAX ? out : out + 2 * SEC + stallSlack(w);
            if (out != INT64_MAX && dl < w.tSettled) {
                w.probe("held_forced");
                if (c.tEnded() > dl) w.violate(P, "client %s, held by a pause, is still connected after its forced disconnect", id.c_str());
            }
            if (!touched && c.endedS()) w.violate(P, "client %s, held by a pause, was named by no command but is gone", id.c_str());
            if (!c.conns.empty()) w.violate(P, "client %s reached a broker although its vhost is paused", id.c_str());
            continue;
        }
        BrokerConn *b = openConn(c);
        bool selfClose = c.spec.s("end") == "amqp";
        if (!touched) {
            w.probe("untouched");
            if (selfClose) checkFidelityOf(w, P, c);
            else if (!w.openAtSettle.count(id)) w.violate(P, "client %s was named by no command but is gone (open %d eof %d reset %d)", id.c_str(), c.openOks, (int)c.eof, (int)c.reset);
            else
                checkFidelityOf(w, P, c);
            continue;
        }
        bool stalls = c.spec.has("stall") || c.spec.has("bstall");
        auto due    = [&](Time d) { return std::max(d, stalls ? w.tHeal : d) + 2 * SEC + stallSlack(w); };
        if (force) {
            w.probe("forced");
            // It does not take the parties' cooperation: what does not read is let go of all the same
            if (force != INT64_MAX && c.c && c.c->pAccepted) {
                Time hard = force + 2 * SEC + stallSlack(w);
                if (c.spec.n("stall_for") > 5000000 && c.spec.n("bstall_for") > 5000000) {
                    w.probe("forced_stuck");
                    if (b && c.spec.n("tls") && b->useTls) w.probe("forced_stuck_tls");
                }
                auto held = [&](sim::Conn &x) { return !x.pReset && hard < K->now && (!x.pClosed || x.pClosedAt > hard); };
                if (held(*c.c)) w.violate(P, "the proxy still holds the connection of client %s 2 s after its forced disconnect", id.c_str());
                for (auto *x : c.conns)
                    if (x->c && x->tConn < force && held(*x->c)) w.violate(P, "the proxy still holds the broker connection of client %s 2 s after its forced disconnect", id.c_str());
            }
            Time dl = due(force);
            bool stuck = c.spec.n("stall_for") > 5000000 || c.spec.n("bstall_for") > 5000000;   // they do not see it happen
            if (dl < w.tSettled && !stuck) {
                if (c.tEnded() > dl) w.violate(P, "client %s is still connected after its forced disconnect", id.c_str());
                for (auto *x : c.conns)
                    if (x->tEnded() > dl) w.violate(P, "the broker connection of client %s survived its forced disconnect", id.c_str());
            }
        }
        if (back && b) {
            w.probe("backend_ended");
            Time dl = due(back);
            if (dl < w.tSettled && b->tEnded() > dl) w.violate(P, "the broker connection of client %s survived the backend disconnect", id.c_str());
        }
        if (!b) continue;
        int  upC = 0, downC = 0;
        bool upAfter, downAfter;
        std::string e1 = streamWithClose(c.downRecv, b->downSent, downC, downAfter), e2 = streamWithClose(b->upRecv, c.upSent, upC, upAfter);
        if (!e1.empty()) w.violate(P, "stream towards client %s %s", id.c_str(), e1.c_str());
        if (!e2.empty()) w.violate(P, "stream of client %s to its broker %s", id.c_str(), e2.c_str());
        if (!graceful && !selfClose && (upC || downC)) w.violate(P, "client %s or its broker got a Close nobody asked for", id.c_str());
        if (grace && !forced && !backend) {
            std::string oc = c.spec.s("onclose", "ok");
            w.probe("graceful");
            if (selfClose) w.probe("closes_crossing");
            if (oc == "none") {
                if (downC != 1 && !selfClose) w.violate(P, "client %s got %d Close methods", id.c_str(), downC);
                continue;
            }
            Time dl = due(grace) + SEC;
            if (dl >= w.tSettled) continue;
            if (downC > 1 || (!downC && !selfClose)) w.violate(P, "client %s got %d Close methods", id.c_str(), downC);
            else if (downC && c.closes[0].code != 200)
                w.violate(P, "client %s got Close %d '%s'", id.c_str(), c.closes[0].code, pctEnc(c.closes[0].text).c_str());
            if (downAfter && !selfClose) w.violate(P, "client %s got data after its Close", id.c_str());
            // A client that leaves at once while its broker is still sending can make the broker's
            // connection end in a reset, which overtakes the Close that was written to it before.
            bool overtaken = !upC && b->reset && b->c && (b->useTls || b->c->pTail.find(std::string("\0\x0a\0\x32", 4)) != std::string::npos);
            if (overtaken) w.probe("close_overtaken_by_reset");
            // The client's own Close, passed on while the proxy's was on its way to it, is followed by the proxy's
            if (upC > (selfClose ? 2 : 1) || (!upC && (oc == "ok" || oc == "fin") && !overtaken)) w.violate(P, "the broker of client %s got %d Close methods", id.c_str(), upC);
            if (c.tEnded() > dl) w.violate(P, "client %s is still connected after its graceful disconnect", id.c_str());
            if (b->tEnded() > dl) w.violate(P, "the broker connection of client %s survived its graceful disconnect", id.c_str());
            w.probe("graceful_complete");
        }
    }
}

// ------------------------------------------------------------ C11 ends
void checkEnds(World &w, const std::string &P)
{
    checkBystanders(w, P);
    Time latMax = w.plan.first("run")->n("latmax", 300) * US, slack = stallSlack(w) + 4 * latMax;
    // a data rate limit holds back what came before the end, and so the end: judged from when it is lifted
    std::map<std::string, Time> limited;
    for (auto &x : w.ctls) {
        auto f = words(x->cmd);
        if (f.size() == 5 && f[0] == "LIMIT" && f[1] == "DATA_RATE") limited[f[3]] = INT64_MAX;
        if (f.size() == 5 && f[0] == "LIMIT" && f[1] == "DISABLE" && x->done) limited[f[4]] = x->tDone + 2 * SEC;
    }
    for (auto &l : limited)
        if (l.second == INT64_MAX) return;
    if (w.tSettled)
        for (auto &id : w.clientOrder) {
            Client &c = *w.clients[id];
            if (id == "HEALTH" || !c.tConnect) continue;
            for (auto *b : c.conns) {
                Time tc = c.tEnded(), tb = b->tEnded();
                auto lim0 = limited.find(c.vhost);
                if (lim0 != limited.end()) {
                    if (tc < INT64_MAX) tc = std::max(tc, lim0->second);
                    if (tb < INT64_MAX) tb = std::max(tb, lim0->second);
                }
                // what is in flight towards a party that does not read holds the end back until it reads
                Time unread = (c.spec.n("stall_for", 0) + c.spec.n("bstall_for", 0)) * US;
                Time bound  = 3 * SEC + slack + unread;
                if (tc < INT64_MAX && tc + bound < w.tSettled) {
                    w.probe("client_ends");
                    if (tb > tc + bound) w.violate(P, "client %s ended, its connection to broker %s did not", id.c_str(), b->b->id.c_str());
                }
                // a broker that stays silent or half closes is still there
                if (tb < INT64_MAX && tb + bound < w.tSettled && b->tOpenOk) {
                    w.probe("broker_ends");
                    Time lim = tb + bound;
                    if (lim < w.tSettled && tc > lim) w.violate(P, "broker %s ended the connection of client %s, which was not told", b->b->id.c_str(), id.c_str());
                }
            }
        }
    if (w.drained) {
        w.probe("drained");
        if (w.openAtDrain) {
            std::string who;
            for (auto &c : K->conns)
                if (c->psock && c->pAddr.family != AF_UNIX && c->tag != "auth") who += " " + c->tag;
            w.violate(P, "%d connections are left although every client has gone", w.openAtDrain);
        }
        if (w.connAtEnd.find("id=") != std::string::npos) w.violate(P, "sessions are listed although every client has gone: %s", w.connAtEnd.substr(0, 200).c_str());
    }
}

// ------------------------------------------------------------ C12 hostile peers
void checkHostile(World &w, const std::string &P)
{
    checkBystanders(w, P);
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (c.openOks) {
            BrokerConn *b = openConn(c);
            if (!b || b->tOpenOk > c.tOpenOk) {
                // its own StartOk may have been damaged beyond recognition: look for any broker connection of its vhost
                bool any = false;
                for (auto &kv : w.brokers)
                    for (auto &bp : kv.second->conns)
                        if (bp->openOkSent && bp->tOpenOk <= c.tOpenOk && (!bp->cl || bp->cl == &c) && bp->vhost == c.vhost) any = true;
                if (!any) w.violate(P, "client %s was told open although no broker accepted it", id.c_str());
            }
            w.probe("opens");
        }
        if (c.spec.has("badstage") || c.spec.has("raw") || c.spec.has("bbad")) w.probe("hostile_clients");
        if (!clientFaulty(c) && !c.spec.has("bbad") && c.conns.size() && openConn(c)) checkFidelityOf(w, P, c);
    }
}
