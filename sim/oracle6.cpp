// History check for control commands and listings: the answers of all commands,
// from however many users at once, must be those of one after another, in an
// order compatible with when each was sent and answered.
#include "oracle.h"
#include <algorithm>
#include <climits>
#include <cstring>
#include <optional>

using namespace sim;
namespace {
std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> r;
    size_t b = 0;
    while (b < s.size()) {
        size_t e = s.find('\n', b);
        if (e == std::string::npos) e = s.size();
        std::string l = s.substr(b, e - b);
        if (l.find_first_not_of(" \t\r") != std::string::npos) r.push_back(l);
        b = e + 1;
    }
    return r;
}
std::string sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto &x : v) s += x + "\n";
    return s;
}
std::string norm(const std::string &l)   // single spaces, none at the ends
{
    std::string s;
    for (auto &x : words(l)) s += (s.empty() ? "" : " ") + x;
    return s;
}
bool has(const std::string &s, const std::string &x) { return s.find(x) != std::string::npos; }

// What the commands have configured.
struct Settings {
    std::map<std::string, std::string>           backends;   // name -> line
    std::map<std::string, std::set<std::string>> farms;
    std::map<std::string, std::string>           maps;       // vhost -> Farm:x
    std::string                                  dc, auth;
    typedef std::map<std::string, uint64_t> Lim;             // "" is the default
    Lim  lim[4];                                             // conn, conn alarm, data, data alarm
    std::map<std::string, bool> paused;

    std::string key() const
    {
        std::string s = dc + "|" + auth + "|";
        for (auto &x : backends) s += x.second + ",";
        for (auto &x : farms) {
            s += "|" + x.first + ":";
            for (auto &m : x.second) s += m + ",";
        }
        for (auto &x : maps) s += "|" + x.first + ">" + x.second;
        for (auto &l : lim) {
            s += "|";
            for (auto &x : l) s += x.first + "=" + std::to_string(x.second) + ",";
        }
        for (auto &x : paused) s += x.first + (x.second ? "+" : "-");
        return s;
    }
    static int limitKind(const std::string &u)
    {
        return u == "CONN_RATE" ? 0 : u == "CONN_RATE_ALARM" ? 1 : u == "DATA_RATE" ? 2 : u == "DATA_RATE_ALARM" ? 3 : -1;
    }
    std::vector<std::string> limitsOf(const std::string &vhost) const
    {
        std::vector<std::string> r;
        for (int k = 0; k < 4; ++k) {
            auto it = vhost.empty() ? lim[k].end() : lim[k].find(vhost);
            if (it == lim[k].end()) it = lim[k].find("");
            if (it != lim[k].end()) r.push_back(sim::fmt("%d %lu", k, (unsigned long)it->second));
        }
        return r;
    }
    // Carries out the command; false if it would not have been answered with out.
    // Commands that only report whether they worked are judged by that.
    bool step(const std::string &cmd, const std::string &out)
    {
        auto        a = words(cmd);
        std::string v = upper(a[0]), s = a.size() > 1 ? upper(a[1]) : "";
        auto arg = [&](size_t i) { return i < a.size() ? a[i] : std::string(); };
        std::string o = norm(out);
        if (v == "BACKEND") {
            if (s == "ADD" || s == "ADD_DNS") {
                bool pp = false, tls = false;
                for (size_t i = 6; i < a.size() && i < 8; ++i) pp |= upper(a[i]) == "SEND-PROXY", tls |= upper(a[i]) == "TLS";
                if (arg(5).empty() || atoi(arg(5).c_str()) == 0) return !o.empty();
                if (backends.count(arg(2))) return !o.empty() && has(o, arg(2));
                // name (dc): host ip:port
                backends[arg(2)] = arg(2) + " (" + arg(3) + "): " + arg(4) + " " + (s == "ADD" ? arg(4) : "") + ":" + arg(5) + (pp ? " PP" : "") + (tls ? " TLS" : "");
                return o.empty();
            }
            if (s == "DELETE") return backends.erase(arg(2)) ? o.empty() : !o.empty();
            if (s == "PRINT") {
                std::vector<std::string> got, want;
                for (auto &l : lines(out)) {
                    std::string n = norm(l);
                    // the wording for the PROXY header is the proxy's own
                    bool tls = n.size() > 4 && n.substr(n.size() - 4) == " TLS";
                    if (tls) n.resize(n.size() - 4);
                    size_t c = n.rfind(':'), e = n.find(' ', c);
                    if (c == std::string::npos) return false;
                    std::string pp = e == std::string::npos ? "" : n.substr(e);
                    if (e != std::string::npos) n.resize(e);
                    if (has(upper(pp), "PROXY") || has(upper(pp), "SEND")) n += " PP";
                    else if (!pp.empty()) return false;
                    got.push_back(n + (tls ? " TLS" : ""));
                }
                for (auto &b : backends) want.push_back(norm(b.second));
                return sorted(got) == sorted(want);
            }
        }
        if (v == "FARM") {
            if (s == "ADD" || s == "ADD_MANUAL") {
                if (arg(4).empty() || arg(3) != "round-robin") return !o.empty();
                for (size_t i = 4; i < a.size(); ++i)
                    if (!backends.count(a[i])) return !o.empty() && has(o, a[i]);
                farms[arg(2)] = std::set<std::string>(a.begin() + 4, a.end());
                return o.empty();
            }
            if (s == "PARTITION") return farms.count(arg(2)) && arg(3) == "datacenter-affinity" ? o.empty() : !o.empty();
            if (s == "DELETE") {
                farms.erase(arg(2));
                return true;   // also answers nothing for a farm that is not there
            }
            if (s == "PRINT") {
                std::vector<std::string> got, want;
                for (auto &l : lines(out)) {
                    size_t c = l.find(':');
                    if (c == std::string::npos) return false;
                    auto m = words(l.substr(c + 1));
                    std::sort(m.begin(), m.end());
                    std::string x = l.substr(0, c) + ":";
                    for (auto &y : m) x += " " + y;
                    got.push_back(x);
                }
                for (auto &f : farms) {
                    std::string x = f.first + ":";
                    for (auto &y : f.second) x += " " + y;
                    want.push_back(x);
                }
                return sorted(got) == sorted(want);
            }
        }
        if (v == "MAP") {
            if (s == "BACKEND" || s == "FARM") {
                if (arg(3).empty()) return !o.empty();
                maps[arg(2)] = (s == "FARM" ? "Farm:" : "Backend:") + arg(3);
                return o.empty();
            }
            if (s == "UNMAP") {
                maps.erase(arg(2));
                return true;
            }
            if (s == "PRINT") {
                std::vector<std::string> got, want;
                for (auto &l : lines(out)) got.push_back(norm(l));
                for (auto &m : maps) want.push_back("\"" + m.first + "\" => " + m.second);
                return sorted(got) == sorted(want);
            }
            return true;
        }
        if (v == "DATACENTER") {
            if (s == "SET") {
                dc = arg(2);
                return o.empty();
            }
            if (s == "PRINT") return o == dc;
        }
        if (v == "AUTH") {
            if (s == "SERVICE") {
                int port = atoi(arg(3).c_str());
                if (arg(4).empty() || port <= 0 || port > 65535) return !o.empty() && !has(o, "http://");
                auth = "http://" + arg(2) + ":" + std::to_string(port) + arg(4);
            }
            if (s == "ALWAYS_ALLOW") auth = "";
            if (s == "SERVICE" || s == "ALWAYS_ALLOW" || s == "PRINT") return auth.empty() ? !o.empty() && !has(o, "http://") : has(o + " ", auth + " ");
        }
        if (v == "LIMIT") {
            if (s == "PRINT") {
                std::vector<std::string> got;
                std::string              vh = arg(2);
                for (auto &l0 : lines(out)) {
                    std::string l = norm(l0);
                    if (has(l, "No ") && has(l, "limit configured")) {
                        if (lines(out).size() != 1) return false;
                        continue;
                    }
                    bool   al = has(upper(l), "ALARM"), data = has(l, "bytes per");
                    size_t at = l.find(data ? " max " : " average ");
                    if (at == std::string::npos || !has(l, vh.empty() ? "any vhost" : "vhost " + vh + ",")) return false;
                    got.push_back(sim::fmt("%d %lu", (data ? 2 : 0) + al, strtoul(l.c_str() + at + (data ? 5 : 9), nullptr, 10)));
                }
                return sorted(got) == sorted(limitsOf(vh));
            }
            bool        off = s == "DISABLE";
            size_t      i   = off ? 2 : 1;
            int         k   = limitKind(upper(arg(i)));
            std::string w   = upper(arg(i + 1)), who = w == "VHOST" ? arg(i + 2) : "";
            std::string n   = arg(i + (w == "VHOST" ? 3 : 2));
            if (k < 0) return true;
            if (off) lim[k].erase(who);
            else {
                lim[k][who] = strtoull(n.c_str(), nullptr, 10);
                if (k < 2 && !has(o, " " + n + " ")) return false;   // says what was set
            }
            return true;
        }
        if (v == "VHOST") {
            if (s == "PAUSE" || s == "UNPAUSE") {
                paused[arg(2)] = s == "PAUSE";
                return true;
            }
            if (s == "PRINT") {
                std::map<std::string, bool> got;
                for (auto &l : lines(out)) {
                    auto x = words(l);
                    if (x.size() != 3 || x[1] != "=" || (x[2] != "PAUSED" && x[2] != "UNPAUSED") || got.count(x[0])) return false;
                    got[x[0]] = x[2] == "PAUSED";
                }
                for (auto &p : paused)
                    if (!got.count(p.first) || got[p.first] != p.second) return false;
                // a vhost that was only ever connected to may be listed as well
                for (auto &g : got)
                    if (g.second && !paused.count(g.first)) return false;
                return true;
            }
        }
        return true;
    }
};

struct Search {
    std::vector<const Ctl *>              ops;    // by time sent
    std::set<std::pair<std::string, std::string>> seen;
    size_t                                best = 0, states = 0;
    const Ctl                            *stuckOn = nullptr;
    bool                                  gaveUp  = false;
    // done: flags; first: first not carried out
    bool go(std::vector<char> &done, size_t n, const Settings &st)
    {
        if (n == ops.size()) return true;
        if (++states > 30000) return gaveUp = true;
        // the earliest answer among the rest bounds who may be next
        Time   bound = INT64_MAX;
        size_t first = 0;
        while (done[first]) ++first;
        for (size_t i = first; i < ops.size(); ++i)
            if (!done[i]) bound = std::min(bound, ops[i]->tDone);
        std::string d(done.begin() + first, done.end());
        for (auto &c : d) c = c ? '1' : '0';
        while (!d.empty() && d.back() == '0') d.pop_back();
        if (!seen.insert({std::to_string(first) + ":" + d, st.key()}).second) return false;
        std::vector<std::pair<size_t, Settings>> next;
        for (size_t i = first; i < ops.size() && ops[i]->tSent <= bound; ++i) {
            if (done[i]) continue;
            Settings x = st;
            if (!x.step(ops[i]->cmd, ops[i]->out)) {
                if (n >= best) best = n, stuckOn = ops[i];
                continue;
            }
            // a listing or a refusal, which never changes anything, can as well be next as be later
            auto a    = words(ops[i]->cmd);
            bool same = (a.size() > 1 && upper(a[1]) == "PRINT") || ((upper(a[0]) == "BACKEND" || upper(a[0]) == "FARM") && !norm(ops[i]->out).empty());
            if (same) next.clear();
            next.emplace_back(i, std::move(x));
            if (same) break;
        }
        for (auto &x : next) {
            done[x.first] = 1;
            if (go(done, n + 1, x.second)) return true;
            done[x.first] = 0;
        }
        return false;
    }
};
std::map<std::string, std::string> fields(const std::string &l, bool &ok)
{
    std::map<std::string, std::string> r;
    for (auto &x : words(l)) {
        size_t e = x.find('=');
        if (e == std::string::npos && x.find_first_not_of("0123456789.:e-+") == std::string::npos) continue;   // how long ago data was seen
        if (e == std::string::npos || r.count(x.substr(0, e))) {
            ok = false;
            continue;
        }
        r[x.substr(0, e)] = x.substr(e + 1);
    }
    return r;
}
uint64_t wholeFrames(const std::string &s, size_t upto, uint64_t *frames = nullptr)
{
    uint64_t at = 0, n = 0;
    upto = std::min(upto, s.size());
    while (at + 8 <= upto) {
        uint64_t z = 8 + ((uint64_t)(uint8_t)s[at + 3] << 24 | (uint8_t)s[at + 4] << 16 | (uint8_t)s[at + 5] << 8 | (uint8_t)s[at + 6]);
        if (at + z > upto) break;
        at += z;
        ++n;
    }
    if (frames) *frames = n;
    return at;
}
size_t sizeAt(const std::vector<std::pair<Time, size_t>> &v, Time t)
{
    size_t n = 0;
    for (auto &x : v)
        if (x.first <= t) n += x.second;
    return n;
}
// the frames of closing are recorded without their time
size_t sentBy(const std::string &s, const std::vector<std::pair<Time, size_t>> &v, Time t) { return sizeAt(v, t) + s.size() - sizeAt(v, INT64_MAX); }
}

static void checkListing(World &w, const std::string &P, const Ctl &q)
{
    const Time S = 300 * MS + 2 * stallSlack(w);
    std::map<std::string, std::vector<std::map<std::string, std::string>>> by;   // by client address
    std::set<std::string> ids;
    for (auto &l : lines(q.out)) {
        bool ok = true;
        auto f  = fields(l, ok);
        if (!ok || f["id"].empty() || f["ingressRemote"].empty()) {
            w.violate(P, "a line of CONN is not well formed: %.120s", l.c_str());
            return;
        }
        if (!ids.insert(f["id"]).second) w.violate(P, "CONN lists id %s twice", f["id"].c_str());
        by[f["ingressRemote"]].push_back(f);
    }
    for (auto &id : w.clientOrder) {
        Client     &c = *w.clients[id];
        std::string at = c.ip + ":" + std::to_string(c.sport);
        auto        it = by.find(at);
        size_t      n  = it == by.end() ? 0 : it->second.size();
        BrokerConn *b  = openConn(c);
        Time        e  = std::min(c.tEnded(), b ? b->tEnded() : INT64_MAX);
        if (n > 1) {
            w.violate(P, "CONN lists the connection of %s %zu times", id.c_str(), n);
            continue;
        }
        bool open = b && c.tOpenOk && c.tOpenOk <= q.tSent && e > q.tDone;
        if (open && n == 0) w.violate(P, "CONN sent at %.6f s does not list the open connection of %s", q.tSent / 1e9, id.c_str());
        if (n && (!c.tConnect || c.tConnect > q.tDone)) w.violate(P, "CONN lists %s, which had not connected", id.c_str());
        if (!n) continue;
        auto &f = it->second[0];
        if (b && e < q.tSent && q.tSent - e > 60 * SEC) w.probe("listed_long_after_end");
        if (!open) continue;
        w.probe("listed_open");
        std::string er = b->b->ip + ":" + std::to_string(b->b->port), el = ":" + std::to_string(b->c->pAddr.port);
        if (f["vhost"] != c.vhost) w.violate(P, "CONN lists %s with vhost '%s', it is '%s'", id.c_str(), f["vhost"].c_str(), c.vhost.c_str());
        if (f["egressRemote"] != er) w.violate(P, "CONN lists %s as connected to %s, it is connected to %s", id.c_str(), f["egressRemote"].c_str(), er.c_str());
        if (f["egressLocal"].size() < el.size() || f["egressLocal"].substr(f["egressLocal"].size() - el.size()) != el) w.violate(P, "CONN lists %s as connected from %s, it is port %s", id.c_str(), f["egressLocal"].c_str(), el.c_str());
        if (f["disconnected"] != "N" && !adminTouched(w, c)) w.violate(P, "CONN lists the open connection of %s as disconnected", id.c_str());
        if (f["authDenied"] != "N") w.violate(P, "CONN lists the open connection of %s as denied", id.c_str());
        if (adminTouched(w, c)) continue;
        // what was carried, whole frames; towards the client the broker's OpenOk counts too
        struct { const char *b, *f; uint64_t lo, hi, flo, fhi; } d[2];
        d[0].b = "inBytes", d[0].f = "inFrames", d[1].b = "outBytes", d[1].f = "outFrames";
        d[0].lo = wholeFrames(b->upRecv, sizeAt(b->upTimes, q.tSent - S), &d[0].flo);
        d[0].hi = wholeFrames(c.upSent, sentBy(c.upSent, c.upTimes, q.tDone), &d[0].fhi);
        d[1].lo = wholeFrames(c.downRecv, sizeAt(c.downTimes, q.tSent - S), &d[1].flo);
        d[1].hi = wholeFrames(b->downSent, sentBy(b->downSent, b->sentTimes, q.tDone), &d[1].fhi) + 13;
        d[1].fhi++;
        if (c.tOpenOk <= q.tSent - S) d[1].lo += 13, d[1].flo++;
        for (auto &x : d) {
            uint64_t v = strtoull(f[x.b].c_str(), nullptr, 10), vf = strtoull(f[x.f].c_str(), nullptr, 10);
            if (v < x.lo || v > x.hi) w.violate(P, "CONN at %.6f s lists %s of %s as %lu, between %lu and %lu were carried", q.tSent / 1e9, x.b, id.c_str(), (unsigned long)v, (unsigned long)x.lo, (unsigned long)x.hi);
            if (vf < x.flo || vf > x.fhi) w.violate(P, "CONN at %.6f s lists %s of %s as %lu, between %lu and %lu were carried", q.tSent / 1e9, x.f, id.c_str(), (unsigned long)vf, (unsigned long)x.flo, (unsigned long)x.fhi);
            w.probe(x.lo == x.hi ? "counts_exact" : "counts_bounded");
        }
    }
}

void checkControl(World &w, const std::string &P)
{
    // settings that do not depend on each other are looked at separately
    static const std::map<std::string, int> group{{"BACKEND", 0}, {"FARM", 0}, {"MAP", 1}, {"DATACENTER", 2}, {"AUTH", 3}, {"LIMIT", 4}, {"VHOST", 5}};
    std::map<int, std::vector<const Ctl *>> ops;
    for (auto &q : w.ctls) {
        if (q->stream || q->tag == "exit" || q->refused) continue;
        if (!q->done) {
            if (w.tSettled && q->tSent < w.tSettled - 30 * SEC) w.violate(P, "'%s' was never answered", q->cmd.c_str());
            continue;
        }
        auto a = words(q->cmd);
        if (a.empty()) continue;
        std::string v = upper(a[0]);
        if (v == "CONN") checkListing(w, P, *q);
        auto gr = group.find(v);
        if (gr == group.end()) continue;
        ops[gr->second].push_back(q.get());
        if (q->tag == "par") w.probe("parallel_commands");
        if (a.size() > 1 && upper(a[1]) == "PRINT") w.probe("listings");
    }
    for (auto &kv : ops) {
        Search s;
        s.ops = kv.second;
        std::stable_sort(s.ops.begin(), s.ops.end(), [](const Ctl *a, const Ctl *b) { return a->tSent < b->tSent; });
        std::vector<char> done(s.ops.size());
        bool ok = s.go(done, 0, Settings());
        w.probe("commands", s.ops.size());
        w.probe("orders_examined", s.states);
        if (s.gaveUp) w.probe("search_gave_up");
        else if (!ok)
            w.violate(P, "no order of the commands explains their answers: %zu of %zu explained, then '%s' was answered with '%.160s'", s.best, s.ops.size(), s.stuckOn ? s.stuckOn->cmd.c_str() : "?",
                      s.stuckOn ? s.stuckOn->out.c_str() : "");
    }
    checkBystanders(w, P);
}
