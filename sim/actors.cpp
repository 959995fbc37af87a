#include "actors.h"
#include "authrequest.pb.h"
#include "authresponse.pb.h"
#include <cstdarg>
#include <cstdio>
#include <netdb.h>
#include <unistd.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/pem.h>

using namespace amqp;
// frame lengths above what the proxy takes, at the limits of the types involved
static uint32_t hugeLength(Rng &r)
{
    switch (r.below(6)) {
      case 0: return 0xffffffffu - r.below(16);
      case 1: return 0x80000000u - 8 + r.below(16);
      case 2: return 149993 + r.below(16);
      case 3: return (uint32_t)r.next() | 0x100000;
      case 4: return 0x7fffffff;
      default: return 200000 + r.below(1000000);
    }
}
using sim::fmt;

World      *W = nullptr;
std::string gCertDir;
static SSL_CTX *ctxClient, *ctxServer, *ctxBad[3], *ctxClientNone, *ctxClientBad[3];   // bad: another CA's, expired, with another CA's in its chain

// ------------------------------------------------------------- randomness
static int rndBytesCb(unsigned char *b, int n)
{
    static Rng pre(12345);
    Rng       &r = K ? K->cryptoRng : pre;
    for (int i = 0; i < n; ++i) b[i] = (unsigned char)r.next();
    return 1;
}
static int  rndSeed(const void *, int) { return 1; }
static int  rndAdd(const void *, int, double) { return 1; }
static int  rndStatus() { return 1; }
static void rndClean() {}
void        initCrypto(const std::string &certDir)
{
    gCertDir = certDir;
    static RAND_METHOD m = {rndSeed, rndBytesCb, rndClean, rndAdd, rndBytesCb, rndStatus};
    RAND_set_rand_method(&m);
    ctxClient = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(ctxClient, SSL_VERIFY_NONE, nullptr);
    SSL_CTX_use_certificate_chain_file(ctxClient, (certDir + "/cert.pem").c_str());
    SSL_CTX_use_PrivateKey_file(ctxClient, (certDir + "/key.pem").c_str(), SSL_FILETYPE_PEM);
    ctxClientNone = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_verify(ctxClientNone, SSL_VERIFY_NONE, nullptr);
    for (int i = 0; i < 3; ++i) {
        std::string k = std::to_string(i + 2) + ".pem";
        SSL_CTX    *x = ctxClientBad[i] = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(x, SSL_VERIFY_NONE, nullptr);
        if (SSL_CTX_use_certificate_chain_file(x, (certDir + "/cert" + k).c_str()) != 1 || SSL_CTX_use_PrivateKey_file(x, (certDir + "/key" + k).c_str(), SSL_FILETYPE_PEM) != 1) {
            fprintf(stderr, "sim: cannot load certificates from %s\n", certDir.c_str());
            _exit(4);
        }
    }
    auto mk = [&](const char *c, const char *k) {
        SSL_CTX *x = SSL_CTX_new(TLS_server_method());
        if (SSL_CTX_use_certificate_chain_file(x, (certDir + c).c_str()) != 1 || SSL_CTX_use_PrivateKey_file(x, (certDir + k).c_str(), SSL_FILETYPE_PEM) != 1) {
            fprintf(stderr, "sim: cannot load certificates from %s\n", certDir.c_str());
            _exit(4);
        }
        SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF);
        SSL_CTX_set_options(x, SSL_OP_NO_TICKET);
        return x;
    };
    ctxServer = mk("/cert.pem", "/key.pem");
    ctxBad[0] = mk("/cert2.pem", "/key2.pem");
    ctxBad[1] = mk("/cert3.pem", "/key3.pem");
    ctxBad[2] = mk("/cert4.pem", "/key4.pem");
}

// ------------------------------------------------------------- Stream
Stream::~Stream()
{
    if (ssl) SSL_free(ssl);
}
void Stream::startTls(bool server)
{
    tlsServer = server;
    ssl       = SSL_new(server ? (rogueCert ? ctxBad[(rogueCert - 1) % 3] : ctxServer) : clientCert == "none" ? ctxClientNone : clientCert == "rogue" ? ctxClientBad[0] : clientCert == "expired" ? ctxClientBad[1] : clientCert == "chain" ? ctxClientBad[2] : ctxClient);
    rb        = BIO_new(BIO_s_mem());
    wb        = BIO_new(BIO_s_mem());
    SSL_set_bio(ssl, rb, wb);
    if (server)
        SSL_set_accept_state(ssl);
    else
        SSL_set_connect_state(ssl);
    tlsPump();
}
void Stream::tlsPump()
{
    if (!ssl || tlsFailed) return;
    std::string plain;
    ERR_clear_error();
    if (!tlsUp) {
        int r = SSL_do_handshake(ssl);
        if (r == 1) {
            tlsUp = true;
        }
        else {
            int e = SSL_get_error(ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { tlsFailed = true; if (getenv("SIM_TLSDBG")) ERR_print_errors_fp(stderr); }
        }
    }
    bool justUp = tlsUp && !pendingPlain.empty();
    (void)justUp;
    if (tlsUp) {
        char buf[16384];
        for (;;) {
            int r = SSL_read(ssl, buf, sizeof buf);
            if (r > 0) {
                plain.append(buf, r);
                continue;
            }
            int e = SSL_get_error(ssl, r);
            if (e == SSL_ERROR_ZERO_RETURN) sawCloseNotify = true;
            else if (e == SSL_ERROR_SSL) tlsFailed = true;
            break;
        }
        if (!pendingPlain.empty()) {
            SSL_write(ssl, pendingPlain.data(), pendingPlain.size());
            pendingPlain.clear();
        }
    }
    ERR_clear_error();
    char  *p;
    long   n = BIO_get_mem_data(wb, &p);
    if (n > 0) {
        std::string o(p, n);
        (void)BIO_reset(wb);
        if (c) c->send(o);
    }
    static thread_local int depth = 0;
    if (tlsFailed) {
        onTlsFail();
        return;
    }
    (void)depth;
    if (!plain.empty()) onPlain(plain);
}
void Stream::rxRaw(const std::string &s)
{
    if (rawFirst.size() < 64) rawFirst += s.substr(0, 64);
    if (W->keepRaw) rawAll += s;
    if (!ssl) {
        onPlain(s);
        return;
    }
    BIO_write(rb, s.data(), s.size());
    bool was = tlsUp;
    // run the handshake first so that onTlsUp precedes data
    if (!tlsUp) {
        ERR_clear_error();
        int r = SSL_do_handshake(ssl);
        if (r == 1) tlsUp = true;
        else {
            int e = SSL_get_error(ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { tlsFailed = true; if (getenv("SIM_TLSDBG")) ERR_print_errors_fp(stderr); }
        }
        ERR_clear_error();
        char *p;
        long  n = BIO_get_mem_data(wb, &p);
        if (n > 0) {
            std::string o(p, n);
            (void)BIO_reset(wb);
            if (c) c->send(o);
        }
        if (tlsFailed) {
            onTlsFail();
            return;
        }
        if (tlsUp && !was) onTlsUp();
    }
    if (tlsUp) tlsPump();
}
void Stream::tx(const std::string &s)
{
    if (!c || s.empty()) return;
    if (!ssl) {
        c->send(s);
        return;
    }
    if (!tlsUp) {
        pendingPlain += s;
        return;
    }
    ERR_clear_error();
    size_t off = 0;
    while (off < s.size()) {
        size_t z = std::min<size_t>(16384, s.size() - off);
        // records as another implementation might cut them
        if (K->net.recPct && z > 1 && (int)K->netRng.below(100) < K->net.recPct) z = K->netRng.pct(30) ? z - 1 : 1 + K->netRng.below(z);
        int n = SSL_write(ssl, s.data() + off, z);
        if (n <= 0) break;
        off += n;
    }
    ERR_clear_error();
    char *p;
    long  n = BIO_get_mem_data(wb, &p);
    if (n > 0) {
        std::string o(p, n);
        (void)BIO_reset(wb);
        c->send(o);
    }
}

// ------------------------------------------------------------- World basics
void World::note(const char *f, ...)
{
    char    buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    events.emplace_back(K->now, buf);
    K->traceHash = fnv(buf, strlen(buf), K->traceHash);
    if (K->verbose) fprintf(stderr, "[%12.6f] ### %s\n", K->now / 1e9, buf);
}
void World::violate(const std::string &p, const char *f, ...)
{
    char    buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    violations.push_back({p, buf});
}
Client *World::clientById(const std::string &s)
{
    auto it = clients.find(s);
    return it == clients.end() ? nullptr : it->second.get();
}

// ------------------------------------------------------------- Client
void Client::later(std::function<void()> f)
{
    Time th = spec.n("think", 200) * US;
    K->after(th ? (Time)rng.below(th) : 0, std::move(f));
}
void Client::start()
{
    st       = CONNECTING;
    tConnect = K->now;
    c        = K->actorConnect(sim::inet(ip, sport), sim::inet("192.168.0.1", port), this);
    c->tag   = id;
    if (spec.has("cap")) c->toA.cap = c->toP.cap = spec.n("cap");
    w->note("client %s connecting vhost=%s port=%d", id.c_str(), vhost.c_str(), port);
    if (spec.has("rst_at")) K->after(spec.n("rst_at") * US, [this] {
        if (!ended()) {
            K->fault("client_rst");
            finish("rst");
        }
    });
    if (spec.has("fin_at")) K->after(spec.n("fin_at") * US, [this] {
        if (!ended()) {
            K->fault("client_fin");
            finish("fin");
        }
    });
}
void Client::onConnected(Conn &)
{
    tConnected = K->now;
    useTls     = spec.n("tls");
    clientCert = spec.s("ccert");
    if (useTls) startTls(false);
    else
        onTlsUp();
}
void Client::onRefused(Conn &)
{
    refused  = true;
    tRefused = K->now;
    st       = DONE;
    w->note("client %s refused", id.c_str());
}
void Client::onTlsFail()
{
    w->note("client %s tls failed", id.c_str());
    finish("fin");
}
void Client::onTlsUp()
{
    std::string raw = spec.s("raw");
    if (!raw.empty()) {
        // a peer that does not speak AMQP: sends raw bytes and waits
        later([this, raw] { tx(raw); });
        st = HDR_SENT;
        return;
    }
    later([this] { sendHs("hdr", spec.n("legacy") ? S("AMQP\x01\x01\x00\x09", 8) : header()); });
    st = HDR_SENT;
}
// Sends handshake bytes of a stage, applying the stage's fault if planned.
void Client::sendHs(const std::string &stage, const std::string &bytes)
{
    if (ended()) return;
    if (spec.s("badstage") == stage) {
        std::string k = spec.s("bad");
        Rng         r(spec.n("badseed", 7), 99);
        K->fault(("client_bad_" + k).c_str());
        w->note("client %s bad=%s at %s", id.c_str(), k.c_str(), stage.c_str());
        if (k == "hang") return;
        if (k == "fin") return finish("fin");
        if (k == "rst") return finish("rst");
        if (k == "halffin") {
            tx(bytes.substr(0, r.below(bytes.size())));
            return finish("fin");
        }
        if (k == "garbage") {
            tx(rndBytes(r, 1 + r.below(300)));
            return;
        }
        if (k == "flip") {
            std::string b = bytes;
            int         n = 1 + r.below(4);
            while (n--) b[r.below(b.size())] = (char)r.next();
            tx(b);
            return;
        }
        if (k == "trunc") {  // valid frame around a truncated payload
            if (bytes.size() > 8) {
                std::string pl = bytes.substr(7, bytes.size() - 8);
                tx(frame(1, 0, pl.substr(0, r.below(pl.size()))));
            }
            else
                tx(bytes.substr(0, r.below(bytes.size())));
            return;
        }
        if (k == "payload") {  // valid frame, mutated payload
            std::string pl = bytes.size() > 8 ? bytes.substr(7, bytes.size() - 8) : bytes;
            int         n  = 1 + r.below(6);
            while (n--) {
                size_t lo = std::min<size_t>(pl.size(), 4);
                if (pl.size() > lo) {
                    size_t at = lo + r.below(pl.size() - lo);
                    static const unsigned char iv[] = {0, 1, 0x7f, 0x80, 0xff, 'S', 'F', 'A', 'x', 'V', 't', 'l', 'I', 'T', 'D', 'd', 'f'};
                    pl[at]    = r.pct(70) ? iv[r.below(sizeof iv)] : (char)r.next();
                }
            }
            if (r.pct(30)) pl = pl.substr(0, r.below(pl.size() + 1));
            tx(frame(1, 0, pl));
            return;
        }
        if (k == "huge") {
            tx(u8(1) + u16(0) + u32(hugeLength(r)) + rndBytes(r, 20));
            return;
        }
        if (k == "biglen") {  // valid frame, a length field inside of it near a limit of its type
            std::string pl = bytes.size() > 8 ? bytes.substr(7, bytes.size() - 8) : bytes;
            if (pl.size() > 8) {
                std::string v  = r.pct(30) ? u32(pl.size() - r.below(8)) : u32(hugeLength(r));
                size_t      at = 4 + (r.pct(50) ? 0 : r.below(pl.size() - 7));
                pl.replace(at, std::min<size_t>(4, pl.size() - at), v.substr(0, std::min<size_t>(4, pl.size() - at)));
            }
            tx(frame(1, 0, pl));
            return;
        }
        if (k == "short") {  // method frames shorter than a method id
            tx(frame(1, 0, rndBytes(r, r.below(4))));
            tx(bytes);
            return;
        }
        if (k == "nest") {  // deeply nested tables
            int         d = spec.n("badarg", 2000);
            std::string t;
            bool        arr = spec.n("badarr");
            // build from the inside out, lengths first
            std::string inner;
            size_t      len = 0;
            std::vector<std::string> heads;
            for (int i = 0; i < d; ++i) {
                if (arr) {
                    heads.push_back(S("A") + u32(len));
                    len += 5;
                }
                else {
                    heads.push_back(u8(0) + S("F") + u32(len));
                    len += 6;
                }
            }
            for (int i = d - 1; i >= 0; --i) inner += heads[i];
            std::string tbl = arr ? u8(0) + inner : inner;
            tx(method(10, 11, lstr(tbl) + sstr(mech) + lstr(resp) + sstr(locale)));
            return;
        }
        if (k == "spoof" && stage == "open") {  // methods a broker would send, while the proxy talks to the broker
            tx(bytes);
            Time at = 0;
            int  from = r.pct(70) ? 2 : r.below(2);
            for (int i = from; i < 3; ++i) {
                std::string m = i == 0 ? method(10, 10, u8(0) + u8(9) + lstr("") + lstr("PLAIN") + lstr("en_US")) : i == 1 ? method(10, 30, u16(1) + u32(4096) + u16(0)) : method(10, 41, sstr(""));
                at += (Time)r.below(r.pct(30) ? 1500 : 30000) * US;
                K->after(at, [this, m] {
                    if (!ended() && c) tx(m);
                });
            }
            return;
        }
        if (k == "spoof") {
            tx(method(10, 10, u8(0) + u8(9) + lstr("") + lstr("PLAIN") + lstr("en_US")));
            tx(method(10, 30, u16(1) + u32(4096) + u16(0)));
            tx(method(10, 41, sstr("")));
            return;
        }
        if (k == "order") {  // wrong method for the state
            tx(method(10, 40, sstr(vhost) + sstr("") + u8(0)));
            return;
        }
        if (k == "dup") {
            tx(bytes + bytes);
            return;
        }
    }
    tx(bytes);
}
void Client::onPlain(const std::string &s)
{
    if (st == OPEN || st == CLOSING) {
        downRecv += s;
        downTimes.emplace_back(K->now, s.size());
    }
    in += s;
    if (st == HDR_SENT && in.size() >= 4 && in.substr(0, 4) == "AMQP") {
        badHeaderReply = in.substr(0, 8);
        in.erase(0, 8);
    }
    Frame f;
    bool  broken;
    while (nextFrame(in, f, broken)) {
        bool wasOpen = st == OPEN || st == CLOSING;
        gotFrame(f);
        if (!wasOpen && st == OPEN) {
            // bytes that followed open-ok in the same delivery
            downRecv = in;
            if (!in.empty()) downTimes.emplace_back(K->now, in.size());
        }
    }
    if (broken) {
        protoError    = true;
        protoErrorWhy = "broken frame from proxy";
        in.clear();
    }
}
void Client::gotFrame(const Frame &f)
{
    Rd  r(f.payload);
    int cls = 0, mth = 0;
    if (f.type == 1) {
        cls = r.u(2);
        mth = r.u(2);
    }
    if (f.type == 1 && cls == 10 && mth == 50) {
        CloseInfo ci;
        ci.code = r.u(2);
        ci.text = r.ss();
        ci.cls  = r.u(2);
        ci.mth  = r.u(2);
        ci.t    = K->now;
        closes.push_back(ci);
        w->note("client %s got Close %d %s", id.c_str(), ci.code, ci.text.substr(0, 80).c_str());
        if (spec.s("onclose", "ok") == "ok") {
            later([this] {
                if (ended()) return;
                if (st == OPEN || st == CLOSING) upSent += method(10, 51, "");
                tx(method(10, 51, ""));
                later([this] { finish("fin"); });
            });
        }
        else if (spec.s("onclose") == "fin")
            later([this] { finish("fin"); });
        return;
    }
    if (f.type == 1 && cls == 10 && mth == 51) {
        gotCloseOk = true;
        if (st == CLOSING) later([this] { finish("fin"); });
        return;
    }
    if (st == OPEN || st == CLOSING) return;
    if (f.type != 1 || cls != 10) {
        protoError    = true;
        protoErrorWhy = fmt("unexpected frame type %d class %d before open", f.type, cls);
        return;
    }
    if (mth == 10 && st == HDR_SENT) {
        tStart = K->now;
        r.u(1);
        r.u(1);
        r.table();
        S ms = r.ls(), ls = r.ls();
        startMechs.push_back(ms);
        startLocales.push_back(ls);
        if (r.bad) {
            protoError    = true;
            protoErrorWhy = "undecodable Start";
        }
        startOkArgs = lstr(encFields(props)) + sstr(mech) + lstr(resp) + sstr(locale);
        st          = STARTOK_SENT;
        later([this] { sendHs("startok", method(10, 11, startOkArgs)); });
    }
    else if (mth == 30 && st == STARTOK_SENT) {
        tTune  = K->now;
        tuneCh = r.u(2);
        tuneFr = r.u(4);
        tuneHb = r.u(2);
        st     = OPEN_SENT;
        std::string tk = method(10, 31, u16(chMax) + u32(frMax) + u16(hb));
        std::string op = method(10, 40, sstr(vhost) + sstr("") + u8(0));
        if (spec.n("split_open"))
            later([this, tk, op] {
                sendHs("tuneok", tk);
                auto open = [this, op] {
                    if (ended()) return;
                    tOpenSent = K->now;
                    sendHs("open", op);
                };
                Time at = w->t0 + spec.n("open_at") * US;
                if (spec.has("open_at") && at > K->now) K->at(at, open);
                else
                    later(open);
            });
        else
            later([this, tk, op] {
                tOpenSent = K->now;
                if (spec.has("badstage") && (spec.s("badstage") == "tuneok" || spec.s("badstage") == "open")) {
                    sendHs("tuneok", tk);
                    sendHs("open", op);
                }
                else
                    tx(tk + op);
            });
    }
    else if (mth == 41 && st == OPEN_SENT) {
        openOks++;
        tOpenOk = K->now;
        st      = OPEN;
        w->note("client %s open", id.c_str());
        afterOpen();
    }
    else {
        protoError    = true;
        protoErrorWhy = fmt("unexpected method 10/%d in state %d", mth, (int)st);
    }
}
void Client::afterOpen()
{
    pendingUp = spec.n("up");
    if (spec.has("stall")) {
        for (int k = 0; k < spec.n("stall_rep", 1); ++k) K->after((spec.n("stall") + k * spec.n("stall_every")) * US, [this] {
            if (ended()) return;
            K->fault("client_read_stall");
            c->pauseRead(true);
            K->after(spec.n("stall_for", 1000) * US, [this] { c->pauseRead(false); });
        });
    }
    if (spec.s("badstage") == "data") {
        K->after(spec.n("bad_at", 1000) * US, [this] {
            if (ended()) return;
            std::string k = spec.s("bad");
            Rng         r(spec.n("badseed", 7), 99);
            K->fault(("client_bad_data_" + k).c_str());
            if (k == "endbyte") {
                std::string f = rndFrame(r, 2000);
                f.back()      = (char)0xCD;
                upSent += f;
                tx(f);
            }
            else if (k == "huge") {
                std::string f = u8(3) + u16(1) + u32(hugeLength(r)) + rndBytes(r, 30);
                upSent += f;
                tx(f);
            }
            else if (k == "garbage") {
                std::string f = rndBytes(r, 50 + r.below(3000));
                upSent += f;
                tx(f);
            }
            else {  // half a frame, then close
                std::string f = rndFrame(r, 5000);
                f             = f.substr(0, r.below(f.size()));
                upSent += f;
                tx(f);
                finish("fin");
            }
            pendingUp = 0;
        });
    }
    if (pendingUp > 0)
        later([this] { sendOneUp(); });
    else
        upDone = true;
    std::string e = spec.s("end", "hold");
    if (e != "hold") K->after(spec.n("dur", 100000) * US, [this, e] { finish(e); });
}
void Client::sendOneUp()
{
    if (ended() || st != OPEN || pendingUp <= 0) return;
    if (c->unsent() > 300000) {  // do not build unbounded backlog
        K->after(spec.n("gap", 500) * US + MS, [this] { sendOneUp(); });
        return;
    }
    int n = 1;
    if (spec.n("burst", 1) > 1) n = 1 + rng.below(spec.n("burst"));
    std::string b;
    while (n-- > 0 && pendingUp > 0) {
        pendingUp--;
        b += rndFrame(rng, spec.n("maxframe", 4096));
    }
    upSent += b;
    upTimes.emplace_back(K->now, b.size());
    tx(b);
    if (pendingUp > 0) {
        Time g = spec.n("gap", 500) * US;
        K->after(g ? (Time)rng.below(2 * g) : 0, [this] { sendOneUp(); });
    }
    else
        upDone = true;
}
void Client::doClose()
{
    iClosed     = true;
    tClosedByMe = K->now;
    st          = DONE;
}
void Client::finish(const std::string &how)
{
    if (ended() || !c) return;
    if (how == "amqp") {
        if (st != OPEN) return finish("fin");
        st = CLOSING;
        std::string m = method(10, 50, u16(200) + sstr("bye") + u16(0) + u16(0));
        upSent += m;
        tx(m);
        return;
    }
    w->note("client %s closes (%s)", id.c_str(), how.c_str());
    if (how == "rst") {
        doClose();
        c->rst();
    }
    else if (how == "halfclose") {
        c->closeWrite();
    }
    else {
        doClose();
        if (ssl && tlsUp && spec.n("closenotify", 1)) {
            SSL_shutdown(ssl);
            char *p;
            long  n = BIO_get_mem_data(wb, &p);
            if (n > 0) c->send(std::string(p, n));
            (void)BIO_reset(wb);
        }
        c->close();
    }
}
void Client::onEof(Conn &cc)
{
    if (iClosed) return;
    eof  = true;
    tEof = K->now;
    st   = DONE;
    w->note("client %s eof", id.c_str());
    cc.close();
}
void Client::onReset(Conn &)
{
    if (iClosed || eof) return;
    reset  = true;
    tReset = K->now;
    st     = DONE;
    w->note("client %s reset", id.c_str());
}

// ------------------------------------------------------------- Broker
static sim::Acceptor::Mode parseMode(const std::string &m)
{
    if (m == "refuse") return sim::Acceptor::REFUSE;
    if (m == "blackhole") return sim::Acceptor::BLACKHOLE;
    if (m == "unreach") return sim::Acceptor::UNREACH;
    if (m == "acceptrst") return sim::Acceptor::ACCEPT_RST;
    return sim::Acceptor::ACCEPT;
}
void Broker::setMode(const std::string &m) { mode = parseMode(m); }
void Broker::install()
{
    ip   = spec.s("ip");
    port = spec.n("port", 5672);
    tls  = spec.n("tls");
    pp   = spec.n("pp");
    mode = parseMode(spec.s("mode", "accept"));
    spec.set("mode0", spec.s("mode", "accept")).set("hs0", spec.s("hs", "ok"));
    std::vector<std::string> ips;
    ips.push_back(ip);
    sim::Acceptor a;
    a.delay    = spec.n("delay") * US;
    a.modeFn   = [this] { return mode; };
    a.onAttempt = [this](const sim::Addr &from, sim::Acceptor::Mode m) {
        w->attempts.push_back({K->now, id, m, from});
        w->note("attempt on broker %s mode=%d", id.c_str(), (int)m);
    };
    a.onAccept = [this](Conn &c) -> sim::ConnHandler * {
        auto bc = std::make_unique<BrokerConn>();
        bc->w   = w;
        bc->b   = this;
        bc->c   = c.shared_from_this();
        bc->idx = conns.size();
        bc->rng.reseed(K->seed, 500000 + c.id);
        bc->tConn = K->now;
        bc->hs    = spec.s("hs", "ok");
        if (spec.has("cap")) c.toA.cap = c.toP.cap = spec.n("cap");
        bc->st = pp ? BrokerConn::WAIT_PROXY : tls ? BrokerConn::WAIT_TLS : BrokerConn::WAIT_HDR;
        c.tag  = id;
        BrokerConn *p = bc.get();
        conns.push_back(std::move(bc));
        return p;
    };
    K->acceptors[sim::inet(ip, port)] = a;
}
void BrokerConn::later(std::function<void()> f)
{
    Time th = b->spec.n("think", 200) * US;
    K->after(th ? (Time)rng.below(th) : 0, std::move(f));
}
void BrokerConn::onConnected(Conn &)
{
    w->note("broker %s conn %llu up", b->id.c_str(), (unsigned long long)idx);
    rogueCert = b->spec.n("rogue");
    if (b->tls && !b->pp) {
        useTls = true;
        startTls(true);
    }
    stageFault("connect");
}
// returns true when the planned handshake fault was applied at this stage
bool BrokerConn::stageFault(const char *stage)
{
    if (hs == "ok") return false;
    auto        at = hs.find('@');
    std::string k  = hs.substr(0, at), s = at == std::string::npos ? "" : hs.substr(at + 1);
    if (s != stage) return false;
    K->fault(("broker_" + k).c_str());
    w->note("broker %s fault %s", b->id.c_str(), hs.c_str());
    Rng r(b->spec.n("badseed", 3) + idx, 77);
    if (k == "hang") {
    }
    else if (k == "fin") {
        selfClosed();
        st      = DONE;
        later([this] { c->close(); });
    }
    else if (k == "rst") {
        selfClosed();
        st      = DONE;
        later([this] { c->rst(); });
    }
    else if (k == "close") {
        std::string text = b->spec.s("closetext", "refused by broker");
        later([this, text] { tx(method(10, 50, u16(b->spec.n("closecode", 403)) + sstr(text) + u16(10) + u16(40))); });
    }
    else if (k == "garbage") {
        std::string g = rndBytes(r, 8 + r.below(400));
        later([this, g] { tx(g); });
    }
    else if (k == "badmethod") {
        // a well framed method with a mutated payload
        std::string tbl = lstr(encFields({rndField(r, 2, "a"), rndField(r, 2, "b")}));
        std::string pl  = std::string(stage) == "hdr" ? u16(10) + u16(10) + u8(0) + u8(9) + tbl + lstr("PLAIN") + lstr("en_US") : u16(10) + u16(30) + u16(10) + u32(4096) + u16(9);
        int         n   = 1 + r.below(5);
        while (n--) pl[4 + r.below(pl.size() - 4)] = (char)r.next();
        pl = pl.substr(0, 4 + r.below(pl.size() - 3));
        later([this, pl] { tx(frame(1, 0, pl)); });
    }
    else if (k == "wrongmethod") {
        // well formed, but not the answer: another method, class, channel or kind of frame
        std::string st0 = stage;
        int         want = st0 == "hdr" || st0 == "connect" ? 10 : st0 == "startok" ? 30 : 41, m;
        static const int ms[] = {10, 11, 20, 21, 30, 31, 40, 41, 42, 43, 51, 60, 61, 70, 71, 0, 65535};
        do m = ms[r.below(sizeof ms / sizeof *ms)];
        while (m == want);
        std::string args = r.pct(50) ? "" : r.pct(50) ? sstr("") : rndBytes(r, r.below(40));
        int         cls  = r.pct(80) ? 10 : r.pct(50) ? 20 : (int)r.below(65536), ty = r.pct(85) ? 1 : (int)r.below(9), ch = r.pct(80) ? 0 : (int)r.below(65536);
        if (cls != 10) m = r.pct(60) ? want : m;
        if (ty == 1 || ty == 0) ty = 1;
        std::string pl = u16(cls) + u16(m) + args;
        int         n  = 1 + r.below(3);
        later([this, pl, ty, ch, n] { for (int i = 0; i < n; ++i) tx(frame(ty, ch, pl)); });
    }
    else if (k == "hugeframe") {
        uint32_t n = hugeLength(r);
        later([this, n] { tx(u8(1) + u16(0) + u32(n) + S(50, 'x')); });
    }
    else if (k == "wrongheader") {
        later([this] { tx(header()); });
        selfClosed();
        later([this] { c->close(); });
    }
    return true;
}
void BrokerConn::onTlsFail()
{
    w->note("broker %s tls failed", b->id.c_str());
    if (!iClosed) {
        selfClosed();
        c->close();
    }
}
void BrokerConn::onTlsUp()
{
    if (st == WAIT_TLS) st = WAIT_HDR;
}
void BrokerConn::onData(Conn &, const std::string &s)
{
    if (st == DONE) return;
    if (st == WAIT_PROXY) {
        in += s;
        plainSeen += s;
        auto p = in.find("\r\n");
        if (p == std::string::npos) {
            if (in.size() > 200) {
                protoError    = true;
                protoErrorWhy = "no PROXY header";
            }
            return;
        }
        proxyHeader      = in.substr(0, p + 2);
        std::string rest = in.substr(p + 2);
        in.clear();
        if (b->tls) {
            st     = WAIT_TLS;
            useTls = true;
            startTls(true);
            if (!rest.empty()) rxRaw(rest);
        }
        else {
            st = WAIT_HDR;
            if (!rest.empty()) onPlain(rest);
        }
        return;
    }
    rxRaw(s);
}
void BrokerConn::onPlain(const std::string &s)
{
    if (st == DONE) return;
    if (st == OPEN) {
        upRecv += s;
        upTimes.emplace_back(K->now, s.size());
        scanUp(s);
        return;
    }
    in += s;
    if (st == WAIT_HDR) {
        if (in.size() < 8) return;
        hdrOk = in.substr(0, 8) == header();
        if (!hdrOk) {
            protoError    = true;
            protoErrorWhy = "bad protocol header: " + pctEnc(in.substr(0, 16));
            return;
        }
        in.erase(0, 8);
        if (!in.empty()) {
            protoError    = true;
            protoErrorWhy = "data sent before Start";
        }
        st = START_SENT;
        if (stageFault("hdr")) return;
        later([this] {
            Rng                r(K->seed, 900000 + idx);
            std::vector<Field> bp{{"product", 'S', lstr("simbroker")}, {"version", 'S', lstr("1")}};
            int                n = r.below(4);
            while (n--) bp.push_back(rndField(r, 2, rndName(r, 1, 10)));
            tx(method(10, 10, u8(0) + u8(9) + lstr(encFields(bp)) + lstr("PLAIN AMQPLAIN") + lstr("en_US")));
        });
    }
    Frame f;
    bool  broken;
    while (st != OPEN && nextFrame(in, f, broken)) gotFrame(f);
    if (st == OPEN && !in.empty()) {
        upRecv += in;
        upTimes.emplace_back(K->now, in.size());
        scanUp(in);
        in.clear();
    }
}
void BrokerConn::gotFrame(const Frame &f)
{
    Rd  r(f.payload);
    int cls = 0, mth = 0;
    if (f.type == 1) {
        cls = r.u(2);
        mth = r.u(2);
    }
    if (cls == 10 && mth == 50) {
        CloseInfo ci;
        ci.code = r.u(2);
        ci.text = r.ss();
        ci.t    = K->now;
        closes.push_back(ci);
        later([this] { tx(method(10, 51, "")); });
        return;
    }
    if (cls == 10 && mth == 51) {
        gotCloseOk = true;
        return;
    }
    if (cls == 10 && mth == 11 && st == START_SENT) {
        startOkArgs = f.payload.substr(4);
        tStartOk    = K->now;
        props       = r.table();
        mech        = r.ss();
        resp        = r.ls();
        locale      = r.ss();
        if (r.bad) {
            protoError    = true;
            protoErrorWhy = "undecodable StartOk";
        }
        for (auto &p : props)
            if (p.name == "sim_id" && p.type == 'S' && p.raw.size() > 4) {
                size_t n = (p.raw.size() - 5) / 2;
                simId    = p.raw.substr(4, n);
                if (p.raw.substr(4) != simId + "/" + simId) simId.clear();
            }
        cl = w->clientById(simId);
        if (cl) cl->conns.push_back(this);
        st = TUNE_SENT;
        if (stageFault("startok")) return;
        later([this] { tx(method(10, 30, u16(b->spec.n("chmax", 2047)) + u32(b->spec.n("frmax", 131072)) + u16(b->spec.n("hb", 60)))); });
        return;
    }
    if (cls == 10 && mth == 31 && st == TUNE_SENT) {
        tuneOkArgs = f.payload.substr(4);
        st         = WAIT_OPEN;
        return;
    }
    if (cls == 10 && mth == 40 && st == WAIT_OPEN) {
        openArgs = f.payload.substr(4);
        vhost    = r.ss();
        tOpen    = K->now;
        st       = OPEN;
        if (stageFault("open")) {
            st = DONE;
            return;
        }
        Time d = b->spec.n("opendelay") * US;
        auto go = [this] {
            if (ended()) return;
            tOpenOk    = K->now;
            openOkSent = true;
            std::string extra;
            if (cl && cl->spec.n("eager")) {  // frames right behind open-ok
                Rng r2(K->seed, 700000 + idx);
                int n = 1 + r2.below(3);
                while (n--) extra += rndFrame(r2, 600);
            }
            w->note("broker %s openok to %s", b->id.c_str(), simId.c_str());
            tx(method(10, 41, sstr("")) + extra);
            downSent += extra;
            if (!extra.empty()) sentTimes.emplace_back(K->now, extra.size());
            afterOpen();
        };
        if (d)
            K->after(d, go);
        else
            later(go);
        return;
    }
    protoError    = true;
    protoErrorWhy = fmt("unexpected frame type=%d %d/%d in broker state %d", f.type, cls, mth, (int)st);
}
void BrokerConn::scanUp(const std::string &s)
{
    // answers Connection.Close like a real broker
    scan += s;
    Frame f;
    bool  broken;
    while (nextFrame(scan, f, broken)) {
        if (f.type == 1 && f.payload.size() >= 4 && f.payload.substr(0, 4) == u16(10) + u16(50)) {
            CloseInfo ci;
            Rd        r(f.payload);
            r.u(4);
            ci.code = r.u(2);
            ci.text = r.ss();
            ci.t    = K->now;
            closes.push_back(ci);
            later([this] {
                if (ended()) return;
                std::string m = method(10, 51, "");
                pendingDown   = 0;  // nothing follows close-ok
                downSent += m;
                tx(m);
                if (b->spec.n("closeafter", 1)) later([this] {
                    if (!ended()) {
                        selfClosed();
                        c->close();
                    }
                });
            });
        }
        if (f.type == 1 && f.payload.substr(0, 4) == u16(10) + u16(51)) gotCloseOk = true;
    }
    if (broken) {
        scan.clear();
    }
}
void BrokerConn::afterOpen()
{
    if (!cl) return;
    auto &sp    = cl->spec;
    pendingDown = sp.n("down");
    if (sp.has("bstall")) {
        for (int k = 0; k < sp.n("bstall_rep", 1); ++k) K->after((sp.n("bstall") + k * sp.n("bstall_every")) * US, [this] {
            if (ended()) return;
            K->fault("broker_read_stall");
            c->pauseRead(true);
            K->after(cl->spec.n("bstall_for", 1000) * US, [this] { c->pauseRead(false); });
        });
    }
    if (sp.has("bbad")) {
        K->after(sp.n("bbad_at", 1000) * US, [this] {
            if (ended()) return;
            std::string k = cl->spec.s("bbad");
            Rng         r(cl->spec.n("badseed", 7), 98);
            K->fault(("broker_bad_data_" + k).c_str());
            std::string f;
            if (k == "endbyte") {
                f        = rndFrame(r, 2000);
                f.back() = (char)0xCD;
            }
            else if (k == "huge")
                f = u8(3) + u16(1) + u32(hugeLength(r)) + rndBytes(r, 30);
            else
                f = rndBytes(r, 50 + r.below(3000));
            downSent += f;
            pendingDown = 0;
            tx(f);
        });
    }
    if (pendingDown > 0) later([this] { sendOneDown(); });
    std::string e = sp.s("bend");
    if (!e.empty()) K->after(sp.n("bdur", 100000) * US, [this, e] {
        if (ended()) return;
        w->note("broker %s ends %s (%s)", b->id.c_str(), simId.c_str(), e.c_str());
        if (e == "rst") {
            K->fault("broker_rst");
            selfClosed();
            c->rst();
        }
        else if (e == "close") {
            std::string m = method(10, 50, u16(320) + sstr("CONNECTION_FORCED") + u16(0) + u16(0));
            downSent += m;
            pendingDown = 0;
            tx(m);
        }
        else {
            K->fault("broker_fin");
            selfClosed();
            c->close();
        }
    });
}
void BrokerConn::sendOneDown()
{
    if (ended() || pendingDown <= 0 || !cl) return;
    if (c->unsent() > 300000) {
        K->after(2 * MS, [this] { sendOneDown(); });
        return;
    }
    int         n = 1;
    auto       &sp = cl->spec;
    if (sp.n("burst", 1) > 1) n = 1 + rng.below(sp.n("burst"));
    std::string o;
    while (n-- > 0 && pendingDown > 0) {
        pendingDown--;
        o += rndFrame(rng, sp.n("maxframe", 4096));
    }
    downSent += o;
    sentTimes.emplace_back(K->now, o.size());
    tx(o);
    if (pendingDown > 0) {
        Time g = sp.n("gap", 500) * US;
        K->after(g ? (Time)rng.below(2 * g) : 0, [this] { sendOneDown(); });
    }
}
void BrokerConn::onEof(Conn &cc)
{
    if (iClosed) return;
    eof  = true;
    tEof = K->now;
    w->note("broker %s eof from proxy (%s)", b->id.c_str(), simId.c_str());
    cc.close();
}
void BrokerConn::onReset(Conn &)
{
    if (iClosed || eof) return;
    reset  = true;
    tReset = K->now;
    w->note("broker %s reset from proxy (%s)", b->id.c_str(), simId.c_str());
}

// ------------------------------------------------------------- Control
void Ctl::onConnected(Conn &c)
{
    std::string s = cmd + "\n";
    tSent         = K->now;
    c.send(s);
}
void Ctl::fin()
{
    if (done) return;
    done  = true;
    tDone = K->now;
    w->note("ctl done: %s", cmd.c_str());
    if (then) then();
}
void Ctl::onRefused(Conn &)
{
    refused = true;
    fin();
}
void Ctl::onData(Conn &, const std::string &s)
{
    if (!tReply) tReply = K->now;
    out += s;
    outAt.emplace_back(K->now, out.size());
}
void Ctl::onEof(Conn &c)
{
    c.close();
    fin();
}
void Ctl::onReset(Conn &) { fin(); }
Ctl *World::command(const std::string &cmd, std::function<void()> then, const std::string &tag)
{
    auto h  = std::make_unique<Ctl>();
    h->w    = this;
    h->cmd  = cmd;
    for (size_t q; (q = h->cmd.find("@CERTS@")) != std::string::npos;) h->cmd.replace(q, 7, gCertDir);
    h->then = std::move(then);
    h->tag  = tag;
    sim::Addr to, me;
    to.family = me.family = AF_UNIX;
    to.ip                 = "/sim/ctl";
    note("ctl: %s", cmd.c_str());
    h->tSent = K->now;
    h->c   = K->actorConnect(me, to, h.get());
    Ctl *p = h.get();
    ctls.push_back(std::move(h));
    return p;
}

// ------------------------------------------------------------- Auth service
void AuthConn::onData(Conn &cc, const std::string &s)
{
    in += s;
    if (handled) return;
    auto he = in.find("\r\n\r\n");
    if (he == std::string::npos) return;
    std::string head = in.substr(0, he);
    size_t      cl   = 0;
    {
        std::string low = head;
        for (auto &ch : low) ch = tolower(ch);
        auto p = low.find("content-length:");
        if (p != std::string::npos) cl = atoi(low.c_str() + p + 15);
    }
    if (in.size() < he + 4 + cl) return;
    handled = true;
    AuthReq r;
    r.t = K->now;
    r.method = head.substr(0, head.find(' '));
    {
        auto a   = head.find(' ');
        auto b   = head.find(' ', a + 1);
        r.target = head.substr(a + 1, b - a - 1);
    }
    Bloomberg::amqpprox::authproto::AuthRequest q;
    r.decoded    = q.ParseFromString(in.substr(he + 4, cl));
    r.vhost      = q.vhostname();
    r.mech       = q.authdata().authmechanism();
    r.cred       = q.authdata().credentials();
    r.connName   = q.connectionname();
    r.clientHost = q.clienthostname();
    // credentials are "\0user\0pass": the user names the client, clients carry
    // their own rule
    std::string user;
    {
        auto a = r.cred.find('\0');
        if (a != std::string::npos) {
            auto b = r.cred.find('\0', a + 1);
            user   = r.cred.substr(a + 1, b == std::string::npos ? std::string::npos : b - a - 1);
        }
    }
    Client     *cli  = w->clientById(user);
    std::string mode = cli ? cli->spec.s("auth", "allow") : "deny";
    Time        d    = (cli ? cli->spec.n("authdelay", 500) : 500) * US;
    r.answer         = mode;
    w->note("auth request user=%s vhost=%s -> %s", user.c_str(), r.vhost.c_str(), mode.c_str());
    w->authReqs.push_back(r);
    size_t  idx = w->authReqs.size() - 1;
    ConnPtr keep = c;
    World  *ww   = w;
    K->after(d, [=] {
        ww->authReqs[idx].tReply = K->now;
        using Resp = Bloomberg::amqpprox::authproto::AuthResponse;
        Resp resp;
        if (mode != "allow") K->fault(("auth_" + mode).c_str());
        std::string how = cli ? cli->spec.s("authhttp") : "";   // the ways a reply may be written
        auto http = [&](int code, const std::string &body, bool fin) {
            std::string h = "HTTP/1.1 " + std::to_string(code) + (code == 200 ? " OK" : " Nope") + "\r\nServer: sim\r\nContent-Type: application/octet-stream\r\n", all;
            if (how == "chunked") {
                all = h + "Transfer-Encoding: chunked\r\n\r\n";
                for (size_t o = 0, n; o < body.size(); o += n) {
                    n = std::min<size_t>(body.size() - o, 1 + (o * 7 + body.size()) % 40);
                    all += fmt("%zx\r\n", n) + body.substr(o, n) + "\r\n";
                }
                all += "0\r\n\r\n";
            }
            else if (how == "eof") {
                all = h + "Connection: close\r\n\r\n" + body;
                fin = true;
            }
            else
                all = h + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
            if (how == "drip") {
                Time   at = 0;
                size_t n  = 1 + all.size() / 9;
                for (size_t o = 0; o < all.size(); o += n) {
                    std::string piece = all.substr(o, n);
                    K->after(at, [keep, piece, ww, idx] {
                        ww->authReqs[idx].tReply = K->now;
                        keep->send(piece);
                    });
                    at += 30 * MS;
                }
                if (fin) K->after(at, [keep] { keep->closeWrite(); });
                return;
            }
            keep->send(all);
            if (fin) keep->closeWrite();
        };
        std::string reason = cli ? cli->spec.s("authreason") : "";
        std::string body;
        if (mode == "allow" || mode == "allowcred") {
            resp.set_result(Resp::ALLOW);
            if (!reason.empty()) resp.set_reason(reason);
            if (mode == "allowcred") {
                resp.mutable_authdata()->set_authmechanism(cli->spec.s("newmech", "PLAIN"));
                resp.mutable_authdata()->set_credentials(cli->spec.s("newcred"));
            }
            resp.SerializeToString(&body);
            if (cli->spec.n("authext")) body += "\x7a\x03new";   // a field of a later version
            http(200, body, true);
        }
        else if (mode == "deny" || mode == "denycred") {
            resp.set_result(Resp::DENY);
            if (!reason.empty()) resp.set_reason(reason);
            if (mode == "denycred") {
                resp.mutable_authdata()->set_authmechanism("PLAIN");
                resp.mutable_authdata()->set_credentials("guest");
            }
            resp.SerializeToString(&body);
            http(200, body, true);
        }
        else if (mode == "cutallow") {   // permission, cut in the middle
            resp.set_result(Resp::ALLOW);
            resp.set_reason(reason + "ok");
            resp.mutable_authdata()->set_authmechanism("PLAIN");
            resp.mutable_authdata()->set_credentials(std::string("\0guest\0guest", 12));
            resp.SerializeToString(&body);
            Resp   t;
            size_t n = 1 + (K->now / 1000) % (body.size() - 1);
            while (n && t.ParseFromString(body.substr(0, n))) --n;
            if (!n) n = body.size() - 1;
            http(200, body.substr(0, n), true);
        }
        else if (mode == "badenum") {
            body = std::string("\x08\x05", 2);
            http(200, body, false);
        }
        else if (mode == "garbage") {
            http(200, "\xff\xff\xff\xff garbage", false);
        }
        else if (mode == "err500") {
            http(500, "internal error", false);
        }
        else if (mode == "err500empty") {
            http(500, "", false);
        }
        else if (mode == "err403empty") {
            http(403, "", false);
        }
        else if (mode.size() == 11 && mode.compare(0, 3, "err") == 0 && mode.substr(6) == "allow") {
            resp.set_result(Resp::ALLOW);
            resp.set_reason("x");
            resp.SerializeToString(&body);
            http(atoi(mode.c_str() + 3), body, false);
        }
        else if (mode == "nothttp") {
            keep->send("SSH-2.0-sim\r\n\r\n");
        }
        else if (mode == "trunc") {
            keep->send("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nabc");
            keep->closeWrite();
        }
        else if (mode == "fin") {
            keep->closeWrite();
        }
        else if (mode == "rst") {
            keep->rst();
        }
        // "hang": no answer
    });
}
