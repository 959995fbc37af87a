// Reference models used by the history checks.
#pragma once
#include "actors.h"
#include <set>
std::vector<std::string> words(const std::string &s);
std::string              upper(std::string s);
struct RouteState {
    struct B {
        std::string dc, host;
        int         port;
        bool        dns;
    };
    std::map<std::string, B>                             backends;
    std::map<std::string, std::set<std::string>>         farms;
    std::set<std::string>                                partitions;  // farms with datacenter affinity
    std::map<std::string, std::pair<bool, std::string>>  maps;
    std::string                                          dflt, dc;
    void                  apply(const std::string &cmd);
    std::set<std::string> targets(const std::string &vhost) const;
    // targets() in two steps, which the proxy takes one after the other
    std::pair<bool, std::string> mapping(const std::string &vhost) const;   // farm?, name ("" if none)
    std::set<std::string>        members(const std::pair<bool, std::string> &m) const;
    // order in which candidates are considered: preferred datacenter first
    std::vector<std::vector<std::string>> partitionsOf(const std::string &vhost) const;
    std::string farmOf(const std::string &vhost) const;
};
struct RouteStep {
    Time       tSent, tDone;
    RouteState st;
};
std::vector<RouteStep>          routeTimeline(World &w);
std::vector<const RouteState *> statesDuring(const std::vector<RouteStep> &tl, Time a, Time b);
// every result a look-up during [a,b] may have had: the mapping as of one moment, what it names as of a later one
struct RouteResult {
    const RouteState     *st;
    std::set<std::string> names;
};
std::vector<RouteResult> routesDuring(const std::vector<RouteStep> &tl, const std::string &vhost, Time a, Time b);
bool addressed(World &w, const RouteState::B &b, const Broker &br);   // may a connection to this backend reach that broker?
bool adminTouched(World &w, const Client &c);
bool gracefulTouched(World &w, const Client &c);
bool clientFaulty(const Client &c);
