// Shared by the history checks.
#pragma once
#include "actors.h"
#include "model.h"
struct DnsEntry {
    Time                     t = 0, delay = 0;
    bool                     err = false;
    std::vector<std::string> ips;
};
std::string           backendOf(const std::string &actor);
Time                  endOf(World &w, const Client &c);
std::vector<DnsEntry> dnsTimeline(World &w, const std::string &host);
Time                  stallSlack(World &w);
bool                  adminTouched(World &w, const Client &c);
bool                  clientFaulty(const Client &c);
std::string           upper(std::string s);
BrokerConn           *openConn(const Client &c);
void checkBystanders(World &w, const std::string &P);
void checkFidelityOf(World &w, const std::string &P, Client &c, bool upComplete = true);
void checkFailover(World &w, const std::string &P);
void checkEvenness(World &w, const std::string &P);
void checkNames(World &w, const std::string &P);
void checkAuth(World &w, const std::string &P);
void checkConnRate(World &w, const std::string &P);
void checkDataRate(World &w, const std::string &P);
void checkPause(World &w, const std::string &P);
void checkDisconnect(World &w, const std::string &P);
void checkEnds(World &w, const std::string &P);
void checkHostile(World &w, const std::string &P);
void checkListeners(World &w, const std::string &P);
void checkConfigChanges(World &w, const std::string &P);
void checkStats(World &w, const std::string &P);
void checkBackPressure(World &w, const std::string &P);
void checkIsolation(World &w, const std::string &P);
void checkControl(World &w, const std::string &P);
void checkTls(World &w, const std::string &P);
