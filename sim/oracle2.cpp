// History checks: failover, balancing, authentication, limits, names.
#include "oracle.h"
#include <algorithm>

using namespace amqp;
using sim::fmt;

std::string backendOf(const std::string &actor)
{
    auto p = actor.find('_');
    return p == std::string::npos ? actor : actor.substr(0, p);
}
Time endOf(World &w, const Client &c)
{
    Time t = w.tSettled ? w.tSettled : K->now;
    if (c.tEof) t = std::min(t, c.tEof);
    if (c.tReset) t = std::min(t, c.tReset);
    if (c.tClosedByMe) t = std::min(t, c.tClosedByMe);
    return t;
}
std::vector<DnsEntry> dnsTimeline(World &w, const std::string &host)
{
    std::vector<DnsEntry> r;
    auto mk = [](Time t, const Item &i) {
        DnsEntry e;
        e.t     = t;
        e.err   = !i.s("err").empty();
        e.delay = i.n("delay", 1000) * US;
        std::string cur;
        for (char c : i.s("ips") + ",") {
            if (c != ',') cur += c;
            else if (!cur.empty()) {
                e.ips.push_back(cur);
                cur.clear();
            }
        }
        return e;
    };
    for (auto &i : w.plan.items)
        if (i.kind == "dns" && i.s("host") == host) r.push_back(mk(0, i));
    std::vector<DnsEntry> later;
    for (auto &i : w.plan.items)
        if (i.kind == "dnsset" && i.s("host") == host) later.push_back(mk(w.t0 + i.n("t") * US, i));
    std::stable_sort(later.begin(), later.end(), [](auto &a, auto &b) { return a.t < b.t; });
    r.insert(r.end(), later.begin(), later.end());
    return r;
}
Time stallSlack(World &w)
{
    Time s = 0;
    for (auto &i : w.plan.items)
        if (i.kind == "stallth") s += i.n("for") * US;
    // a thread that loses its processor every few hundred blocks gets on slowly
    const Item *r = w.plan.first("run");
    if (r->n("preempt") && r->n("preempt") < 1000 && r->n("pstall") >= 25) s += SEC;
    return s;
}
// connections marked as bystanders must have been opened and never disturbed
void checkBystanders(World &w, const std::string &P)
{
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.spec.n("bystander") || !w.tSettled || (c.c && c.c->acceptAborted)) continue;
        w.probe("bystanders");
        if (!w.openAtSettle.count(id)) {
            w.violate(P, "bystander %s was disturbed (open %d, eof %d, reset %d, closes %zu)", id.c_str(), c.openOks, (int)c.eof, (int)c.reset, c.closes.size());
            continue;
        }
        checkFidelityOf(w, P, c);
    }
}

// ------------------------------------------------------------ C04 failover
void checkFailover(World &w, const std::string &P)
{
    checkBystanders(w, P);
    if (!w.tSettled) return;
    auto        tl = routeTimeline(w);
    const auto &st = tl.back().st;
    std::set<std::string> flapping;
    for (auto &i : w.plan.items)
        if (i.kind == "brokerset") flapping.insert(i.s("id"));
    auto actorsOf = [&](const std::string &be) {
        std::vector<std::string> r;
        for (auto &b : w.brokers)
            if (backendOf(b.first) == be) r.push_back(b.first);
        return r;
    };
    auto resolvable = [&](const std::string &be) {
        auto it = st.backends.find(be);
        if (it == st.backends.end()) return false;
        if (!it->second.dns) return true;
        auto d = dnsTimeline(w, it->second.host);
        return !d.empty() && !d[0].err && !d[0].ips.empty();
    };
    std::map<std::string, std::vector<Client *>> byVhost;
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (c.tOpenSent && !c.spec.n("bystander") && id != "HEALTH") byVhost[c.vhost].push_back(&c);
    }
    for (auto &kv : byVhost) {
        auto parts = st.partitionsOf(kv.first);
        std::set<std::string> members;
        for (auto &p : parts) members.insert(p.begin(), p.end());
        std::map<std::string, int> attempts;
        for (auto &a : w.attempts)
            if (members.count(backendOf(a.broker))) attempts[a.broker]++;
        for (auto &a : attempts)
            if (a.second > (int)kv.second.size()) w.violate(P, "broker %s was tried %d times for %zu clients", a.first.c_str(), a.second, kv.second.size());
        for (Client *cp : kv.second) {
            Client &c    = *cp;
            Time    from = c.tOpenSent, to = c.tOpenOk ? c.tOpenOk : endOf(w, c);
            bool    alone = !clientFaulty(c);
            for (Client *o : kv.second) {
                if (o == cp) continue;
                Time oto = o->tOpenOk ? o->tOpenOk : clientFaulty(*o) ? INT64_MAX : endOf(w, *o);
                if (o->tOpenSent <= to && oto >= from) alone = false;
            }
            // what this client's attempts were, when they can be told apart
            bool hitRst = false, certain = false, never = true;
            for (auto &m : members)
                for (auto &a : actorsOf(m)) {
                    std::string md = w.brokers[a]->spec.s("mode0", "accept");
                    bool        rs = resolvable(m);
                    if (md == "acceptrst" && rs) hitRst = true;
                    if (md == "accept" && rs && !flapping.count(a)) certain = true;
                    if ((md == "accept" || md == "acceptrst" || flapping.count(a)) && rs) never = false;
                }
            if (alone) {
                std::vector<const Attempt *> mine;
                for (auto &a : w.attempts)
                    if (a.t >= from && a.t <= to && members.count(backendOf(a.broker))) mine.push_back(&a);
                hitRst = false;
                for (auto *a : mine)
                    if (a->mode == sim::Acceptor::ACCEPT_RST) hitRst = true;
                // backends in sequence; addresses of one backend in answer order
                std::vector<std::string> seq;
                std::map<std::string, std::vector<std::string>> addrs;
                for (auto *a : mine) {
                    std::string be = backendOf(a->broker);
                    if (seq.empty() || seq.back() != be) seq.push_back(be);
                    addrs[be].push_back(a->broker);
                }
                std::set<std::string> uniq(seq.begin(), seq.end());
                std::string           txt;
                for (auto &s : seq) txt += s + " ";
                if (uniq.size() != seq.size()) w.violate(P, "client %s: a backend was tried again (%s)", c.id.c_str(), txt.c_str());
                for (auto &kv2 : addrs) {
                    std::set<std::string> u(kv2.second.begin(), kv2.second.end());
                    if (u.size() != kv2.second.size()) w.violate(P, "client %s: an address of %s was tried again", c.id.c_str(), kv2.first.c_str());
                }
                size_t pos = 0;
                bool   complete = true;
                for (auto &p : parts) {
                    std::vector<std::string> rp;
                    for (auto &m : p)
                        if (resolvable(m)) rp.push_back(m);
                    size_t n = std::min(rp.size(), seq.size() - pos);
                    for (size_t i = 0; i < n; ++i) {
                        auto it = std::find(rp.begin(), rp.end(), seq[pos + i]);
                        if (it == rp.end()) {
                            w.violate(P, "client %s: %s was tried out of turn (%s)", c.id.c_str(), seq[pos + i].c_str(), txt.c_str());
                            break;
                        }
                    }
                    pos += n;
                    if (n < rp.size()) {
                        complete = false;
                        if (pos < seq.size()) w.violate(P, "client %s: a partition was left before all of it was tried (%s)", c.id.c_str(), txt.c_str());
                        break;
                    }
                }
                for (auto &kv2 : addrs)
                    if (kv2.first != seq.back()) {
                        size_t want = 0;
                        auto   it   = st.backends.find(kv2.first);
                        want        = it->second.dns ? dnsTimeline(w, it->second.host)[0].ips.size() : 1;
                        if (kv2.second.size() != want && !hitRst) w.violate(P, "client %s: %zu of %zu addresses of %s were tried", c.id.c_str(), kv2.second.size(), want, kv2.first.c_str());
                    }
                if (c.eof && !c.openOks && !complete && !hitRst) w.violate(P, "client %s was dropped although not every broker was tried (%s)", c.id.c_str(), txt.c_str());
                w.probe("attempt_sequences");
                if (seq.size() > 1) w.probe("failovers");
            }
            if (clientFaulty(c)) continue;
            if (certain && !hitRst) {
                w.probe("must_serve");
                if (!c.openOks) w.violate(P, "client %s was not served although a broker of its farm works", c.id.c_str());
            }
            else if (!c.openOks && !c.endedS())
                w.violate(P, "client %s is left waiting after its brokers failed", c.id.c_str());
            if (never && c.openOks) w.violate(P, "client %s was opened without a broker", c.id.c_str());
            if (never && c.endedS()) w.probe("all_failed");
        }
    }
}

// ------------------------------------------------------------ C05 evenness
void checkEvenness(World &w, const std::string &P)
{
    if (!w.tSettled) return;
    auto        tl = routeTimeline(w);
    const auto &st = tl.back().st;
    std::map<std::string, std::map<std::string, int>> count;
    std::map<std::string, std::vector<std::string>>   pref;
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (id == "HEALTH" || !c.tOpenSent) continue;
        auto parts = st.partitionsOf(c.vhost);
        if (parts.empty()) continue;
        std::string farm = st.farmOf(c.vhost);
        pref[farm]       = parts[0];
        for (auto *b : c.conns) {
            count[farm][backendOf(b->b->id)]++;
            w.probe("balanced_connections");
        }
        bool away = c.spec.s("auth") == "deny" || w.plan.first("run")->n("limited");
        if (c.conns.empty() && !clientFaulty(c) && !away) w.violate(P, "client %s got no broker", id.c_str());
    }
    for (auto &f : count) {
        int lo = INT32_MAX, hi = 0, in = 0, all = 0;
        for (auto &b : pref[f.first]) {
            int n = f.second.count(b) ? f.second[b] : 0;
            lo    = std::min(lo, n);
            hi    = std::max(hi, n);
            in += n;
        }
        for (auto &b : f.second) all += b.second;
        if (all != in) w.violate(P, "farm %s: %d connections outside the preferred datacenter", f.first.c_str(), all - in);
        if (hi - lo > 1) w.violate(P, "farm %s: connections per broker between %d and %d", f.first.c_str(), lo, hi);
        if (pref[f.first].size() > 1) w.probe("farms_judged");
    }
}

// ------------------------------------------------------------ C20 names
void checkNames(World &w, const std::string &P)
{
    checkBystanders(w, P);
    if (!w.tSettled) return;
    auto        tl = routeTimeline(w);
    const auto &st = tl.back().st;
    Time        maxDelay = 0;
    for (auto &i : w.plan.items)
        if (i.kind == "dns" || i.kind == "dnsset") maxDelay = std::max(maxDelay, i.n("delay", 1000) * US);
    // a cached answer lives one second; the lookup it came from may have been slow
    // and, behind other slow lookups, late
    int lookups = 0;
    for (auto &h : st.backends)
        if (h.second.dns) lookups++;
    Time window = 1300 * MS + maxDelay * (1 + lookups) + stallSlack(w);
    auto during = [](const std::vector<DnsEntry> &d, Time a, Time b) {
        std::vector<const DnsEntry *> r;
        for (size_t i = 0; i < d.size(); ++i) {
            Time to = i + 1 < d.size() ? d[i + 1].t : INT64_MAX;
            if (d[i].t <= b && to >= a) r.push_back(&d[i]);
        }
        return r;
    };
    for (auto &a : w.attempts) {
        auto be = st.backends.find(backendOf(a.broker));
        if (be == st.backends.end() || !be->second.dns) continue;
        std::string ip = w.brokers[a.broker]->ip;
        bool        ok = false;
        auto d = dnsTimeline(w, be->second.host);
        for (auto *e : during(d, a.t - window, a.t))
            if (!e->err && std::find(e->ips.begin(), e->ips.end(), ip) != e->ips.end()) ok = true;
        w.probe("name_attempts");
        if (d.size() > 1) w.probe("name_attempts_with_changes");
        if (!ok) w.violate(P, "%s was connected at %s, which its name no longer had", be->first.c_str(), ip.c_str());
    }
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.tOpenSent || id == "HEALTH" || c.spec.n("bystander") || clientFaulty(c)) continue;
        Time from = c.tOpenSent, to = c.tOpenOk ? c.tOpenOk : w.tSettled;
        bool good = false, bad = true;
        for (auto &t : st.targets(c.vhost)) {
            bool tGood = true, tBad = true;
            auto d     = dnsTimeline(w, st.backends.at(t).host);
            for (auto *e : during(d, from - window, to)) {
                bool reach = false;
                for (auto &ip : e->ips)
                    for (auto &b : w.brokers)
                        if (b.second->ip == ip && b.second->spec.s("mode0", "accept") == "accept") reach = true;
                // a failure that was over when it asked is nothing it could still be given
                bool over = (e->err || e->ips.empty()) && &d.back() != e && (e + 1)->t + stallSlack(w) < from;
                if (over) w.probe("failure_over");
                else if (e->err || !reach)
                    tGood = false;
                else
                    tBad = false;
            }
            if (tGood) good = true;
            if (!tBad) bad = false;
        }
        if (good) {
            w.probe("must_serve");
            if (!c.openOks) w.violate(P, "client %s was not served although its broker's name resolved and worked", id.c_str());
        }
        else if (!c.openOks && !c.endedS())
            w.violate(P, "client %s is left waiting on a name", id.c_str());
        if (bad && c.openOks) w.violate(P, "client %s was opened through a name that never worked", id.c_str());
    }
}
