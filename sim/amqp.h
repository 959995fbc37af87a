// Independent AMQP 0-9-1 codec used by the simulated clients and brokers.
#pragma once
#include "rng.h"
#include <cstring>
#include <string>
#include <vector>
namespace amqp {
using S = std::string;
inline S u8(unsigned v) { return S(1, (char)v); }
inline S u16(unsigned v) { return u8(v >> 8 & 255) + u8(v & 255); }
inline S u32(uint32_t v) { return u16(v >> 16) + u16(v & 0xffff); }
inline S u64(uint64_t v) { return u32(v >> 32) + u32((uint32_t)v); }
inline S sstr(const S &s) { return u8(s.size()) + s; }
inline S lstr(const S &s) { return u32(s.size()) + s; }
inline S frame(int type, int ch, const S &p) { return u8(type) + u16(ch) + u32(p.size()) + p + "\xCE"; }
inline S method(int c, int m, const S &args) { return frame(1, 0, u16(c) + u16(m) + args); }
inline S header() { return S("AMQP\x00\x00\x09\x01", 8); }
// field: name, type char, raw value bytes
struct Field {
    S    name;
    char type;
    S    raw;
};
inline S encFields(const std::vector<Field> &f)
{
    S o;
    for (auto &x : f) o += sstr(x.name) + S(1, x.type) + x.raw;
    return o;
}
struct Rd {
    const S &s;
    size_t   o = 0;
    bool     bad = false;
    explicit Rd(const S &x) : s(x) {}
    size_t   left() const { return s.size() - o; }
    uint64_t u(int n)
    {
        if (left() < (size_t)n) {
            bad = true;
            return 0;
        }
        uint64_t v = 0;
        while (n--) v = v << 8 | (uint8_t)s[o++];
        return v;
    }
    S bytes(size_t n)
    {
        if (left() < n) {
            bad = true;
            return "";
        }
        S r = s.substr(o, n);
        o += n;
        return r;
    }
    S ss() { return bytes(u(1)); }
    S ls() { return bytes(u(4)); }
    Field field()
    {
        Field f;
        f.name    = ss();
        f.type    = (char)u(1);
        size_t b  = o;
        skipVal(f.type);
        if (!bad) f.raw = s.substr(b, o - b);
        return f;
    }
    void skipVal(char t)
    {
        switch (t) {
          case 't': case 'b': case 'B': u(1); break;
          case 's': case 'U': case 'u': u(2); break;
          case 'I': case 'i': case 'f': u(4); break;
          case 'l': case 'L': case 'd': case 'T': u(8); break;
          case 'D': u(5); break;
          case 'S': case 'x': case 'A': case 'F': ls(); break;
          case 'V': break;
          default: bad = true;
        }
    }
    std::vector<Field> table()
    {
        S                  t = ls();
        std::vector<Field> r;
        Rd                 in(t);
        while (!in.bad && in.left()) r.push_back(in.field());
        if (in.bad) bad = true;
        return r;
    }
};
struct Frame {
    int type = 0, ch = 0;
    S   payload;
};
// Splits frames from buf; returns false on a broken frame end.
inline bool nextFrame(S &buf, Frame &f, bool &broken)
{
    broken = false;
    if (buf.size() < 8) return false;
    Rd       r(buf);
    int      t  = r.u(1);
    int      ch = r.u(2);
    uint64_t n  = r.u(4);
    if (n > 10000000) {
        broken = true;
        return false;
    }
    if (buf.size() < n + 8) return false;
    if ((uint8_t)buf[7 + n] != 0xCE) {
        broken = true;
        return false;
    }
    f.type = t;
    f.ch   = ch;
    f.payload = buf.substr(7, n);
    buf.erase(0, n + 8);
    return true;
}
inline S rndBytes(Rng &r, size_t n)
{
    S s(n, 0);
    size_t i = 0;
    while (i < n) {
        uint64_t v = r.next();
        for (int k = 0; k < 8 && i < n; ++k, ++i) s[i] = (char)(v >> (8 * k));
    }
    return s;
}
inline S rndName(Rng &r, size_t lo, size_t hi)
{
    static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789_-.";
    size_t            n    = lo + r.below(hi - lo + 1);
    S                 s;
    for (size_t i = 0; i < n; ++i) s += al[r.below(sizeof al - 1)];
    return s;
}
inline Field rndField(Rng &r, int depth, const S &name)
{
    static const char ts[] = "tbBsuIilLfdDSATFVxSS";
    char              t    = ts[r.below(sizeof ts - 1)];
    if (depth <= 0 && (t == 'A' || t == 'F')) t = 'S';
    Field f{name, t, ""};
    switch (t) {
      case 't': f.raw = u8(r.below(2)); break;
      case 'b': case 'B': f.raw = rndBytes(r, 1); break;
      case 's': case 'u': f.raw = rndBytes(r, 2); break;
      case 'I': case 'i': case 'f': f.raw = rndBytes(r, 4); break;
      case 'l': case 'L': case 'd': case 'T': f.raw = rndBytes(r, 8); break;
      case 'D': f.raw = rndBytes(r, 5); break;
      case 'S': f.raw = lstr(r.pct(10) ? rndBytes(r, r.below(600)) : rndName(r, 0, 20)); break;
      case 'x': f.raw = lstr(rndBytes(r, r.below(60))); break;
      case 'V': break;
      case 'A': {
          S   in;
          int n = r.below(4);
          while (n--) {
              Field g = rndField(r, depth - 1, "");
              in += S(1, g.type) + g.raw;
          }
          f.raw = lstr(in);
          break;
      }
      case 'F': {
          std::vector<Field> v;
          int                n = r.below(4);
          while (n--) v.push_back(rndField(r, depth - 1, rndName(r, 0, 12)));
          f.raw = lstr(encFields(v));
          break;
      }
    }
    return f;
}
// A frame as clients and brokers exchange once a connection is open.
inline S rndFrame(Rng &r, size_t maxTotal)
{
    static const size_t edge[] = {32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072};
    int                 k      = r.below(100);
    if (k < 8) return frame(8, 0, "");
    int    type = k < 40 ? 1 : k < 55 ? 2 : 3;
    size_t n;
    if (r.pct(45)) {
        size_t e = edge[r.below(11)];
        int64_t d = r.range(-9, 9);
        n        = (int64_t)e + d > 8 ? e + d - 8 : 0;
    }
    else if (r.pct(75))
        n = r.below(200);
    else
        n = r.below(5000);
    if (n + 8 > maxTotal) n = r.below(maxTotal - 8 + 1);
    S p;
    if (type == 1) {
        static const int cls[] = {20, 40, 50, 60, 85, 90};
        p = u16(cls[r.below(6)]) + u16(10 * (1 + r.below(9)) + r.below(2)) + rndBytes(r, n > 4 ? n - 4 : 0);
    }
    else
        p = rndBytes(r, n);
    return frame(type, 1 + r.below(2047), p);
}
}  // namespace amqp
