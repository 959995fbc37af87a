// History checks for statistics and control listings.
#include "oracle.h"
#include <algorithm>
#include <cstring>

using namespace sim;
namespace {
struct Json {
    bool        ok = false, num = false;
    uint64_t    n  = 0;
    std::string raw;
    std::map<std::string, Json> o;
    const Json &operator[](const std::string &k) const
    {
        static const Json none;
        auto it = o.find(k);
        return it == o.end() ? none : it->second;
    }
};
struct Parser {
    const std::string &s;
    size_t i = 0;
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; }
    bool eat(char c) { ws(); return i < s.size() && s[i] == c ? ++i, true : false; }
    Json val()
    {
        Json j;
        ws();
        if (eat('{')) {
            if (eat('}')) return j.ok = true, j;
            do {
                if (!eat('"')) return j;
                std::string k;
                while (i < s.size() && s[i] != '"') k += s[i++];
                if (!eat('"') || !eat(':')) return j;
                Json v = val();
                if (!v.ok || j.o.count(k)) return j;
                j.o[k] = v;
            } while (eat(','));
            j.ok = eat('}');
            return j;
        }
        size_t b = i;
        while (i < s.size() && (isdigit(s[i]) || s[i] == '-' || s[i] == '.' || s[i] == 'e' || s[i] == '+')) ++i;
        j.raw = s.substr(b, i - b);
        j.ok  = !j.raw.empty();
        j.num = j.ok && j.raw.find_first_not_of("0123456789") == std::string::npos;
        if (j.num) j.n = strtoull(j.raw.c_str(), nullptr, 10);
        return j;
    }
};
Json parse(const std::string &s)
{
    Parser p{s};
    Json   j = p.val();
    p.ws();
    if (p.i != s.size()) j.ok = false;
    return j;
}
std::vector<std::pair<Time, std::string>> linesOf(const Ctl &c)
{
    std::vector<std::pair<Time, std::string>> r;
    size_t b = 0, k = 0;
    for (;;) {
        size_t e = c.out.find('\n', b);
        if (e == std::string::npos) return r;
        while (k < c.outAt.size() && c.outAt[k].second <= e) ++k;
        r.emplace_back(k < c.outAt.size() ? c.outAt[k].first : 0, c.out.substr(b, e - b));
        b = e + 1;
    }
}
struct Cnt {
    uint64_t bytes = 0, frames = 0;
};
Cnt framesIn(const std::string &s)
{
    Cnt c;
    while (c.bytes + 8 <= s.size()) {
        uint64_t n = 8 + ((uint64_t)(uint8_t)s[c.bytes + 3] << 24 | (uint8_t)s[c.bytes + 4] << 16 | (uint8_t)s[c.bytes + 5] << 8 | (uint8_t)s[c.bytes + 6]);
        if (c.bytes + n > s.size()) break;
        c.bytes += n;
        c.frames++;
    }
    return c;
}
struct Range {
    uint64_t lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0};   // bytes up, frames up, bytes down, frames down
    uint64_t sessions = 0;
    void add(const Range &r)
    {
        for (int k = 0; k < 4; ++k) lo[k] += r.lo[k], hi[k] += r.hi[k];
        sessions += r.sessions;
    }
};
const char *metrics[] = {"bytesReceived", "framesReceived", "bytesSent", "framesSent"};
const char *all[]     = {"pausedConnectionCount", "activeConnectionCount", "authDeniedConnectionCount", "limitedConnectionCount", "removedConnectionGraceful", "removedConnectionBrokerSnapped", "removedConnectionClientSnapped",
    "packetsReceived", "packetsSent", "framesReceived", "framesSent", "bytesReceived", "bytesSent"};
}

void checkStats(World &w, const std::string &P)
{
    Ctl *main = nullptr;
    for (auto &c : w.ctls)
        if (c->tag == "stream" && c->target == "main") main = c.get();
    if (!main || !w.drained) return;
    auto ticks = linesOf(*main);
    bool persource = true;
    for (auto &c : w.ctls)
        if (upper(c->cmd).find("PER-SOURCE") != std::string::npos) persource = false;
    std::map<std::string, std::map<std::string, uint64_t>> tot;   // axis/key -> metric -> sum
    std::vector<std::pair<Time, Json>> js;
    for (auto &t : ticks) {
        Json j = parse(t.second);
        if (!j.ok) {
            w.violate(P, "a line of STAT LISTEN json all is not well formed: %.80s", t.second.c_str());
            return;
        }
        w.probe("ticks");
        auto add = [&](const std::string &key, const Json &x) {
            for (auto m : all) {
                if (!x[m].num || x[m].n > (1ULL << 50)) w.violate(P, "%s of %s is %s in one interval", m, key.c_str(), x[m].raw.c_str());
                tot[key][m] += x[m].n;
            }
        };
        add("overall", j["overall"]);
        for (auto ax : {"vhosts", "backends", "sources"}) {
            for (auto &kv : j[ax].o) add(std::string(ax) + "/" + kv.first, kv.second);
            if (ax == std::string("sources") && !persource) continue;
            for (auto m : all) {
                uint64_t s = 0;
                for (auto &kv : j[ax].o) s += kv.second[m].n;
                if (s != j["overall"][m].n) {
                    // under configuration changes of the names themselves a recorded finding would differ
                    w.violate(P, "%s summed over %s is %lu, overall %s", m, ax, (unsigned long)s, j["overall"][m].raw.c_str());
                }
            }
        }
        js.emplace_back(t.first, j);
    }
    if (js.empty()) {
        w.violate(P, "no statistics were reported in %.1f s", (w.tExit - w.t0) / 1e9);
        return;
    }
    // sessions from before the first report are not known to be in it
    for (auto &id : w.clientOrder)
        if (w.clients[id]->tConnect && w.clients[id]->tConnect < js[0].first) {
            w.probe("stream_too_late");
            return;
        }
    // what each session may have carried
    std::map<std::string, Range> want;
    uint64_t accepted = 0, denied = 0, clientEnds = 0, brokerEnds = 0, forced = 0;
    bool     mapped = false, limits = false, pauses = false, authDeny = false;
    for (auto &c : w.ctls) {
        std::string u = upper(c->cmd);
        if (u.find("MAPHOSTNAME") == 0) mapped = true;
        if (u.find("LIMIT CONN") == 0) limits = true;
        if (u.find("PAUSE") != std::string::npos) pauses = true;
    }
    for (auto &id : w.clientOrder) {
        Client &c = *w.clients[id];
        if (!c.c || !c.c->pAccepted) continue;
        ++accepted;
        Range r;
        r.sessions = 1;
        std::string bk;
        if (BrokerConn *b = openConn(c)) {
            // the broker's OpenOk is the first of the frames passed on
            Cnt us = framesIn(c.upSent), ur = framesIn(b->upRecv), ds = framesIn(b->downSent), dr = framesIn(c.downRecv);
            bool adm = adminTouched(w, c) || clientFaulty(c);
            r.hi[0] = us.bytes, r.hi[1] = us.frames, r.hi[2] = ds.bytes + 13, r.hi[3] = ds.frames + 1;
            if (!adm) {
                r.lo[0] = ur.bytes, r.lo[1] = ur.frames;
                if (c.tOpenOk) r.lo[2] = dr.bytes + 13, r.lo[3] = dr.frames + 1;
            }
            bk = sim::fmt("backends/%s_%d", b->b->ip.c_str(), b->b->port);
            std::string e = c.spec.s("end"), be = c.spec.s("bend");
            if (!adm && c.tOpenOk && c.openOks == 1) {
                // an end is noticed on reading from the side that ended, unless something is being written to it
                if (be.empty() && e != "amqp" && c.iClosed && !b->tClosedByMe && c.downRecv.size() == b->downSent.size()) clientEnds++;
                if (!be.empty() && b->tClosedByMe && !c.iClosed && b->upRecv.size() == c.upSent.size()) brokerEnds++;
                if (e != "amqp" && be.empty()) w.probe("sessions_client_end");
            }
        }
        if (c.spec.s("auth") == "deny" && !c.closes.empty() && c.closes[0].code == 403) denied++;
        if (c.spec.s("auth") == "deny") authDeny = true;
        for (std::string k : {std::string("overall"), c.tOpenSent ? "vhosts/" + c.vhost : std::string(), bk, "sources/" + c.ip})
            if (!k.empty()) want[k].add(r);
    }
    for (auto &kv : want) {
        if (kv.first.rfind("sources/", 0) == 0 && (mapped || !persource)) continue;
        if (kv.first.rfind("backends/", 0) == 0 && mapped) continue;
        auto &t = tot[kv.first];
        uint64_t exact = 0;
        for (int k = 0; k < 4; ++k) {
            uint64_t v = t[metrics[k]];
            if (v < kv.second.lo[k]) w.violate(P, "%s of %s adds up to %lu, but %lu were carried", metrics[k], kv.first.c_str(), (unsigned long)v, (unsigned long)kv.second.lo[k]);
            if (v > kv.second.hi[k]) w.violate(P, "%s of %s adds up to %lu, but only %lu were sent", metrics[k], kv.first.c_str(), (unsigned long)v, (unsigned long)kv.second.hi[k]);
            exact += kv.second.lo[k] == kv.second.hi[k];
        }
        w.probe(exact == 4 ? "axes_exact" : "axes_bounded");
    }
    auto &o = tot["overall"];
    uint64_t removed = o["removedConnectionGraceful"] + o["removedConnectionBrokerSnapped"] + o["removedConnectionClientSnapped"], active = js.back().second["overall"]["activeConnectionCount"].n;
    if (removed + active != accepted) w.violate(P, "%lu connections were reported as ended and %lu as active, but there were %lu", (unsigned long)removed, (unsigned long)active, (unsigned long)accepted);
    if (o["removedConnectionClientSnapped"] < clientEnds) w.violate(P, "%lu connections were reported as ended by the client, but %lu were", (unsigned long)o["removedConnectionClientSnapped"], (unsigned long)clientEnds);
    if (o["removedConnectionBrokerSnapped"] < brokerEnds) w.violate(P, "%lu connections were reported as ended by the broker, but %lu were", (unsigned long)o["removedConnectionBrokerSnapped"], (unsigned long)brokerEnds);
    (void)forced;
    if (o["authDeniedConnectionCount"] < denied) w.violate(P, "%lu denied connections were reported, but %lu were denied", (unsigned long)o["authDeniedConnectionCount"], (unsigned long)denied);
    if (!authDeny && o["authDeniedConnectionCount"]) w.violate(P, "%lu denied connections were reported, but none was denied", (unsigned long)o["authDeniedConnectionCount"]);
    if (!limits && o["limitedConnectionCount"]) w.violate(P, "%lu limited connections were reported, but there is no limit", (unsigned long)o["limitedConnectionCount"]);
    if (!pauses && o["pausedConnectionCount"]) w.violate(P, "%lu paused connections were reported, but nothing was paused", (unsigned long)o["pausedConnectionCount"]);
    // the gauge of active connections
    const Item *run = w.plan.first("run");
    bool        slow = run->n("preempt") && run->n("preempt") < 5000 && run->n("pstall");   // readers of many reports fall behind
    const Time S = SEC + (mapped ? SEC : 0) + (slow ? 4 * SEC : 0) + 2 * stallSlack(w);   // a report is taken before it arrives
    for (auto &t : js) {
        uint64_t lo = 0, hi = 0;
        for (auto &id : w.clientOrder) {
            Client &c = *w.clients[id];
            if (!c.c || !c.c->pAccepted) continue;
            BrokerConn *b = openConn(c);
            Time e = std::min(c.tEnded(), b ? b->tEnded() : INT64_MAX);
            if (c.tOpenOk && c.tOpenOk < t.first - S && e > t.first + 300 * MS + stallSlack(w)) lo++;
            if (c.tConnect <= t.first) hi++;
        }
        uint64_t a = t.second["overall"]["activeConnectionCount"].n;
        if (a < lo) w.violate(P, "at %.3f s %lu active connections were reported, but %lu were open", t.first / 1e9, (unsigned long)a, (unsigned long)lo);
        if (a > hi) w.violate(P, "at %.3f s %lu active connections were reported, but only %lu had connected", t.first / 1e9, (unsigned long)a, (unsigned long)hi);
    }
    if (active && w.openAtDrain == 0) w.violate(P, "%lu connections are reported active after all had ended", (unsigned long)active);
    // every other reader sees the same
    for (auto &c : w.ctls) {
        if (c->tag != "stream" || c.get() == main || c->target != "same") continue;
        auto l = linesOf(*c);
        if (l.empty()) continue;
        // the same lines from some point on; equal lines repeat, so every start is tried
        size_t best = 0;
        bool   ok   = false;
        for (size_t at = 0; at < ticks.size() && !ok; ++at) {
            size_t k = 0;
            while (k < l.size() && at + k < ticks.size() && ticks[at + k].second == l[k].second) ++k;
            best = std::max(best, k);
            ok   = k == l.size() || (k && at + k == ticks.size() && l.size() - k <= 2);
        }
        if (!ok) w.violate(P, "a slow reader of STAT LISTEN got a line no other reader got (line %zu of %zu): %.100s", best, l.size(), l[best].second.c_str());
        w.probe("other_readers_lines", l.size());
    }
    // and none is cut off or left behind
    for (auto &c : w.ctls) {
        if (c->tag != "stream" || c->target.empty() || (c->done && !c->tDone)) continue;
        if (c->tDone && c->tDone < w.tExit) {
            w.violate(P, "'%s' ended by itself after %.2f s", c->cmd.c_str(), (c->tDone - c->tSent) / 1e9);
            continue;
        }
        if (slow) continue;
        size_t need = 0, have = linesOf(*c).size();
        Time   from = c->tSent + SEC + 2 * stallSlack(w), to = w.tExit - 2 * SEC - 2 * stallSlack(w);
        for (auto &t : ticks)
            if (t.first > from && t.first < to) ++need;
        if (need < 8) continue;
        w.probe("readers_kept_up");
        if (have + 5 < need) w.violate(P, "'%s' got %zu reports while another reader got %zu", c->cmd.c_str(), have, need);
    }
    // a reader of part of it sees that part of each report
    for (auto &c : w.ctls) {
        if (c->tag != "stream" || c->target != "filter") continue;
        auto        l = linesOf(*c);
        std::string f = words(c->cmd)[3];
        size_t      eq = f.find('=');
        std::string ax = f.substr(0, eq), key = eq == std::string::npos ? "" : f.substr(eq + 1);
        if (l.empty() || (ax == "source" && (mapped || !persource)) || (ax == "backend" && mapped)) continue;
        std::vector<Json> fl;
        for (auto &x : l) fl.push_back(parse(x.second));
        size_t best = 0;
        bool   ok   = false;
        auto   same = [&](const Json &a, const Json &whole) {
            if (!a.ok) return false;
            const Json *b = nullptr;
            if (ax == "overall") b = &whole["overall"];
            else
                for (auto &kv : whole[ax + "s"].o)
                    if (kv.first == key) b = &kv.second;
            for (auto m : all)
                if (!a[m].num || a[m].n != (b ? (*b)[m].n : 0)) return false;
            return true;
        };
        for (size_t at = 0; at < js.size() && !ok; ++at) {
            size_t k = 0;
            while (k < fl.size() && at + k < js.size() && same(fl[k], js[at + k].second)) ++k;
            best = std::max(best, k);
            ok   = k == fl.size() || (at + k == js.size() && fl.size() - k <= 2);
        }
        if (!ok) w.violate(P, "STAT LISTEN json %s differs from the whole report (line %zu of %zu): %.100s", f.c_str(), best, l.size(), l[best].second.c_str());
        w.probe("filtered_lines", l.size());
    }
    // datagrams: the same reports, one after another
    Time sendFrom = 0, sendTo = INT64_MAX, stopped = INT64_MAX;
    for (auto &c : w.ctls) {
        if (upper(c->cmd).find("STAT SEND") == 0) sendFrom = c->done ? c->tDone : INT64_MAX;
        if (upper(c->cmd).find("STAT STOP SEND") == 0) sendTo = std::min(sendTo, c->tSent), stopped = c->done ? c->tDone : INT64_MAX;
    }
    bool sending = false;
    for (auto &c : w.ctls)
        if (upper(c->cmd).find("STAT SEND") == 0) sending = true;
    if (sending) {
        typedef std::map<std::string, uint64_t> Tick;
        std::vector<Tick> ut, jt;
        for (auto &u : w.udp) {
            // amqpprox.NAME,tag=v,...:VALUE|T
            size_t bar = u.data.rfind('|'), col = u.data.rfind(':', bar), com = u.data.find(',');
            if (u.data.rfind("amqpprox.", 0) || bar == std::string::npos || col == std::string::npos || bar + 2 != u.data.size() || !strchr("gcd", u.data[bar + 1])) {
                w.violate(P, "a statsd datagram is not well formed: %.80s", u.data.c_str());
                return;
            }
            w.probe("datagrams");
            std::string v = u.data.substr(col + 1, bar - col - 1), key = u.data.substr(9, col - 9);
            if (v.find_first_not_of("0123456789.") != std::string::npos || strtoull(v.c_str(), nullptr, 10) > (1ULL << 50)) w.violate(P, "a statsd datagram has the value %s", v.c_str());
            if (com == std::string::npos || com > col) continue;
            bool counted = false;
            for (auto m : all) counted = counted || u.data.compare(9, com - 9, m) == 0;
            if (!counted) continue;
            if (ut.empty() || ut.back().count(key)) ut.emplace_back();
            ut.back()[key] = strtoull(v.c_str(), nullptr, 10);
        }
        for (auto &t : js) {
            jt.emplace_back();
            auto add = [&](const std::string &tags, const Json &x) {
                for (auto m : all) jt.back()[m + tags] = x[m].n;
            };
            add(",rmqEndpointType=overall", t.second["overall"]);
            for (auto &kv : t.second["vhosts"].o)
                if (!kv.first.empty()) add(",rmqEndpointType=vhost,rmqVhostName=" + kv.first, kv.second);
            for (auto &kv : t.second["sources"].o) add(",rmqEndpointType=sources,rmqEndpointHostname=" + kv.first, kv.second);
            for (auto &kv : t.second["backends"].o) add(",rmqEndpointType=backends,rmqEndpointHostname=" + kv.first, kv.second);
        }
        bool faulty = false;
        for (auto &i : w.plan.items)
            if (i.kind == "sysfault") faulty = true;
        if (stopped != INT64_MAX && sendFrom < sendTo) {
            w.probe("send_stopped");
            for (auto &u : w.udp)
                if (u.t > stopped + 100 * MS + stallSlack(w)) {
                    w.violate(P, "statistics are still sent %.2f s after STAT STOP SEND", (u.t - stopped) / 1e9);
                    break;
                }
        }
        if (!faulty && sendFrom && sendFrom < sendTo) {
            size_t due = 0;
            for (auto &t : js)
                if (t.first > sendFrom + 100 * MS + stallSlack(w) && t.first < std::min(sendTo, w.tExit)) ++due;
            if (due > 3) {
                w.probe("sends_judged");
                if (ut.size() + 2 < due) w.violate(P, "%zu reports were sent to statsd, but %zu were printed meanwhile", ut.size(), due);
            }
        }
        // the last may be cut short by the end of the run
        if (!ut.empty()) ut.pop_back();
        size_t best = 0, bestAt = 0;
        bool   ok   = ut.empty();
        for (size_t at = 0; at < jt.size() && !ok; ++at) {
            size_t k = 0;
            while (k < ut.size() && at + k < jt.size() && ut[k] == jt[at + k]) ++k;
            if (k > best) best = k, bestAt = at;
            ok = k == ut.size() || (at + k == jt.size() && ut.size() - k <= 2);
        }
        w.probe("statsd_ticks", ut.size());
        if (!ok) {
            std::string what = "something else";
            if (best < ut.size() && bestAt + best < jt.size())
                for (auto &kv : jt[bestAt + best])
                    if (!ut[best].count(kv.first) || ut[best][kv.first] != kv.second) {
                        what = sim::fmt("%s as %ld instead of %ld", kv.first.c_str(), ut[best].count(kv.first) ? (long)ut[best][kv.first] : -1L, (long)kv.second);
                        break;
                    }
            w.violate(P, "report %zu of %zu sent to statsd differs from the one printed: %s", best, ut.size(), what.c_str());
        }
    }
    checkBystanders(w, P);
}
