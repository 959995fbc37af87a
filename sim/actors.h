// Simulated parties around the proxy: AMQP clients, brokers, the HTTP auth
// service, control-socket users, the statsd sink. All of them see the proxy
// only through bytes on simulated sockets.
#pragma once
#include "amqp.h"
#include "kernel.h"
#include "plan.h"
#include <openssl/ssl.h>

using sim::Time;
using sim::K;
using sim::MS;
using sim::US;
using sim::SEC;
using sim::ConnPtr;
using sim::Conn;

struct World;

void    initCrypto(const std::string &certDir);
extern std::string gCertDir;

// Stream endpoint with optional TLS over memory BIOs.
struct Stream : sim::ConnHandler {
    ConnPtr  c;
    bool     useTls = false, tlsServer = false;
    int      rogueCert = 0;   // which of the bad certificates the server has
    SSL     *ssl    = nullptr;
    BIO     *rb = nullptr, *wb = nullptr;
    bool     tlsUp = false, tlsFailed = false, sawCloseNotify = false;
    std::string rawFirst;  // first bytes on the wire (before TLS)
    std::string rawAll;    // everything on the wire after a PROXY header, where the run keeps it
    std::string clientCert; // "none", "rogue", "expired", "chain" or the good one
    std::string pendingPlain;
    ~Stream() override;
    void startTls(bool server);
    void tlsPump();
    void tx(const std::string &s);
    void rxRaw(const std::string &s);
    virtual void onPlain(const std::string &) = 0;
    virtual void onTlsUp() {}
    virtual void onTlsFail() {}
    void onData(Conn &, const std::string &s) override { rxRaw(s); }
};

struct CloseInfo {
    int         code = 0, cls = 0, mth = 0;
    std::string text;
    Time        t = 0;
};

struct BrokerConn;
struct Client : Stream {
    World       *w = nullptr;
    Item         spec;
    std::string  id, vhost, ip;
    int          sport = 0, port = 0;
    Rng          rng;
    enum St { IDLE, CONNECTING, HDR_SENT, STARTOK_SENT, TUNEOK_SENT, OPEN_SENT, OPEN, CLOSING, DONE } st = IDLE;
    std::vector<amqp::Field> props;
    std::string  mech, resp, locale;
    int          chMax = 2047, hb = 60;
    uint32_t     frMax = 131072;
    std::string  startOkArgs;
    // observations
    Time tConnect = 0, tConnected = 0, tStart = 0, tTune = 0, tOpenSent = 0, tOpenOk = 0, tClosedByMe = 0, tEof = 0, tReset = 0, tRefused = 0;
    bool eof = false, reset = false, refused = false, iClosed = false;
    int  openOks = 0;
    std::vector<CloseInfo> closes;
    bool gotCloseOk = false;
    std::string in;           // undecoded input
    std::string upSent;       // bytes sent after open-ok
    std::string downRecv;     // bytes received after open-ok
    std::vector<std::pair<Time, size_t>> downTimes, upTimes;
    std::string startProps;
    std::vector<std::string> startMechs, startLocales;
    std::string preOpenExtra; // unexpected bytes before open
    int  tuneCh = -1, tuneFr = -1, tuneHb = -1;
    std::string badHeaderReply;
    bool protoError = false;
    std::string protoErrorWhy;
    int  pendingUp = 0;
    bool upDone = false;
    std::vector<BrokerConn *> conns;   // broker connections carrying this id
    bool ended() const { return eof || reset || refused || iClosed; }
    // as of the moment the run had settled, before the simulator itself ends everything
    bool snapTaken = false, snapEnded = false, snapIClosed = false;
    void settle() { snapTaken = true, snapEnded = ended(), snapIClosed = iClosed; }
    bool endedS() const { return snapTaken ? snapEnded : ended(); }
    bool iClosedS() const { return snapTaken ? snapIClosed : iClosed; }
    Time tEnded() const
    {
        Time t = INT64_MAX;
        for (Time x : {tEof, tReset, tRefused, tClosedByMe})
            if (x) t = std::min(t, x);
        return t;
    }
    void start();
    void onConnected(Conn &) override;
    void onRefused(Conn &) override;
    void onPlain(const std::string &) override;
    void onTlsUp() override;
    void onTlsFail() override;
    void onEof(Conn &) override;
    void onReset(Conn &) override;
    void later(std::function<void()> f);
    void sendHs(const std::string &stage, const std::string &bytes);
    void gotFrame(const amqp::Frame &f);
    void afterOpen();
    void sendOneUp();
    void finish(const std::string &how);
    void doClose();
};

struct Broker;
struct BrokerConn : Stream {
    World       *w = nullptr;
    Broker      *b = nullptr;
    uint64_t     idx = 0;
    Rng          rng;
    enum St { WAIT_PROXY, WAIT_TLS, WAIT_HDR, START_SENT, TUNE_SENT, WAIT_OPEN, OPEN, DONE } st = WAIT_HDR;
    Client      *cl = nullptr;
    std::string  in, proxyHeader, plainSeen;
    std::string  startOkArgs, tuneOkArgs, openArgs;
    std::vector<amqp::Field> props;
    std::string  mech, resp, locale, vhost, simId;
    Time tConn = 0, tStartOk = 0, tOpen = 0, tOpenOk = 0, tEof = 0, tReset = 0;
    bool eof = false, reset = false, iClosed = false, hdrOk = false, protoError = false;
    bool openOkSent = false;
    std::string protoErrorWhy;
    std::string upRecv, downSent, downSentRaw;
    std::vector<std::pair<Time, size_t>> upTimes, sentTimes;
    Time tClosedByMe = 0;
    void selfClosed()
    {
        if (!iClosed) tClosedByMe = K->now;
        iClosed = true;
    }
    Time tEnded() const
    {
        Time t = INT64_MAX;
        for (Time x : {tEof, tReset, tClosedByMe})
            if (x) t = std::min(t, x);
        return t;
    }
    std::vector<CloseInfo> closes;     // Connection.Close received from the proxy while open
    bool gotCloseOk = false;
    int  pendingDown = 0;
    std::string hs;                     // handshake fault
    bool ended() const { return eof || reset || iClosed; }
    bool snapTaken = false, snapEnded = false, snapIClosed = false;
    void settle() { snapTaken = true, snapEnded = ended(), snapIClosed = iClosed; }
    bool endedS() const { return snapTaken ? snapEnded : ended(); }
    bool iClosedS() const { return snapTaken ? snapIClosed : iClosed; }
    void onConnected(Conn &) override;
    void onPlain(const std::string &) override;
    void onData(Conn &, const std::string &) override;
    void onTlsUp() override;
    void onTlsFail() override;
    void onEof(Conn &) override;
    void onReset(Conn &) override;
    void later(std::function<void()> f);
    void gotFrame(const amqp::Frame &f);
    void afterOpen();
    void sendOneDown();
    void scanUp(const std::string &s);
    std::string scan;
    bool stageFault(const char *stage);
};
struct Attempt {
    Time              t;
    std::string       broker;
    sim::Acceptor::Mode mode;
    sim::Addr         from;
};
struct Broker {
    World      *w = nullptr;
    Item        spec;
    std::string id, ip;
    int         port = 0;
    bool        tls = false, pp = false;
    sim::Acceptor::Mode mode = sim::Acceptor::ACCEPT;
    std::vector<std::unique_ptr<BrokerConn>> conns;
    void install();
    void setMode(const std::string &m);
};

// One control command on its own connection.
struct Ctl : sim::ConnHandler {
    World      *w = nullptr;
    std::string cmd, out;
    std::vector<std::pair<Time, size_t>> outAt;   // when so much had arrived
    ConnPtr     c;
    Time        tSent = 0, tReply = 0, tDone = 0;
    bool        done = false, refused = false, stream = false;
    std::string tag, target;
    std::function<void()> then;
    int         chunk = 0;
    void onConnected(Conn &) override;
    void onRefused(Conn &) override;
    void onData(Conn &, const std::string &) override;
    void onEof(Conn &) override;
    void onReset(Conn &) override;
    void fin();
};

struct AuthReq {
    Time        t = 0, tReply = 0;
    std::string method, target, vhost, mech, cred, connName, clientHost, host;
    std::string answer;  // allow, deny, ...
    bool        decoded = false;
};
struct AuthConn : sim::ConnHandler {
    World  *w = nullptr;
    ConnPtr c;
    std::string in;
    bool    handled = false;
    void onData(Conn &, const std::string &) override;
    void onEof(Conn &c) override { c.close(); }
};

struct UdpMsg {
    Time        t;
    std::string data;
};

struct Violation {
    std::string prop, what;
};

struct World {
    Plan   plan;
    std::string prop;
    Rng    rng;
    Time   t0 = 0;            // configuration finished
    Time   tEnd = 0;          // end of the plan's activity (absolute)
    std::map<std::string, std::unique_ptr<Client>> clients;
    std::vector<std::string>                       clientOrder;
    std::map<std::string, std::unique_ptr<Broker>> brokers;
    std::vector<std::unique_ptr<Ctl>>              ctls;
    std::vector<std::unique_ptr<AuthConn>>         authConns;
    std::vector<AuthReq>                           authReqs;
    std::vector<Attempt>                           attempts;
    std::vector<UdpMsg>                            udp;
    std::map<std::string, sim::DnsResult>          dnsMap;
    std::vector<std::pair<Time, std::string>>      dnsQueries;
    std::map<std::string, std::string>             rdns;
    std::vector<std::pair<Time, std::string>>      events;  // human readable history
    std::vector<Violation> violations;
    bool   configDone = false;
    bool   exitSent = false;
    int    mainRc = -1;
    bool   mainDone = false;
    Time   tMainDone = 0;
    std::vector<std::string> console;
    bool   keepRaw = false;
    std::string phase = "startup";
    std::map<std::string, uint64_t> probes;
    void probe(const std::string &n, uint64_t k = 1) { probes[n] += k; }
    Time   tHeal = 0, tSettled = 0, tExit = 0;
    bool   cmdBusy = false, healthOk = false, healthRan = false, drained = false;
    int    openAtDrain = 0;
    Ctl   *lastCmd = nullptr;
    std::deque<Item> cmdQueue;
    std::vector<Ctl *> streams;
    std::vector<std::string> ctlStuck;
    std::set<std::string> openAtSettle;
    struct Snap { size_t upSent = 0, downSent = 0, upRecv = 0, downRecv = 0; bool alive = false; };
    std::map<std::string, Snap> snap;      // sent sizes at heal, received sizes at the end of the quiet period
    std::string connAtSettle, connAtEnd;
    std::vector<std::tuple<Time, std::string, int>> brokerModeLog;
    std::vector<std::tuple<Time, std::string, std::string, std::string>> dnsLog;
    std::string ask(const std::string &cmd, Time limit);
    void heal();
    void pumpCommands();
    static std::string sessionIdOf(const std::string &connOut, const Client &c);
    void note(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void violate(const std::string &prop, const char *f, ...) __attribute__((format(printf, 3, 4)));
    Ctl *command(const std::string &cmd, std::function<void()> then = nullptr, const std::string &tag = "");
    void setup();
    void startActivity();
    void run();               // whole run including exit
    Client *clientById(const std::string &s);
    Client *addClient(const Item &spec);
    void authRules(AuthReq &r, const std::string &user, std::string &mode, Time &delay);
};
extern World *W;
void setLogDir(const std::string &d);

void checkAll(World &w);                                   // oracle.cpp
Plan generate(const std::string &prop, uint64_t seed);      // gen.cpp
std::vector<std::string> knownProperties();
