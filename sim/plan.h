// A plan is the complete description of one simulated run: configuration,
// actors, operations and faults, one item per line: "kind key=value ...".
#pragma once
#include <algorithm>
#include <cstdint>
#include <deque>
#include <map>
#include <sstream>
#include <string>
#include <vector>
struct Item {
    std::string                        kind;
    std::map<std::string, std::string> kv;
    std::vector<std::string>           order;
    Item() {}
    explicit Item(const std::string &k) : kind(k) {}
    Item &set(const std::string &k, const std::string &v)
    {
        if (!kv.count(k) && std::find(order.begin(), order.end(), k) == order.end()) order.push_back(k);
        kv[k] = v;
        return *this;
    }
    Item &set(const std::string &k, const char *v) { return set(k, std::string(v)); }
    Item &set(const std::string &k, int64_t v) { return set(k, std::to_string(v)); }
    Item &set(const std::string &k, int v) { return set(k, std::to_string(v)); }
    bool        has(const std::string &k) const { return kv.count(k) > 0; }
    std::string s(const std::string &k, const std::string &d = "") const
    {
        auto it = kv.find(k);
        return it == kv.end() ? d : it->second;
    }
    int64_t n(const std::string &k, int64_t d = 0) const
    {
        auto it = kv.find(k);
        return it == kv.end() || it->second.empty() ? d : std::stoll(it->second);
    }
};
inline std::string pctEnc(const std::string &s)
{
    static const char *hx = "0123456789abcdef";
    std::string        o;
    for (unsigned char c : s) {
        if (c <= ' ' || c == '%' || c == '=' || c >= 127) {
            o += '%';
            o += hx[c >> 4];
            o += hx[c & 15];
        }
        else
            o += c;
    }
    return o;
}
inline std::string pctDec(const std::string &s)
{
    std::string o;
    auto        h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            o += (char)(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 2;
        }
        else
            o += s[i];
    }
    return o;
}
struct Plan {
    std::deque<Item> items;
    Item &add(const std::string &kind)
    {
        items.emplace_back(kind);
        return items.back();
    }
    const Item *first(const std::string &k) const
    {
        for (auto &i : items)
            if (i.kind == k) return &i;
        return nullptr;
    }
    Item *first(const std::string &k)
    {
        for (auto &i : items)
            if (i.kind == k) return &i;
        return nullptr;
    }
    std::string str() const
    {
        std::ostringstream o;
        for (auto &i : items) {
            o << i.kind;
            for (auto &k : i.order)
                if (i.has(k)) o << ' ' << k << '=' << pctEnc(i.kv.at(k));
            o << '\n';
        }
        return o.str();
    }
    static Plan parse(const std::string &t)
    {
        Plan               p;
        std::istringstream in(t);
        std::string        line;
        while (std::getline(in, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream ls(line);
            std::string        w;
            ls >> w;
            Item it(w);
            while (ls >> w) {
                auto e = w.find('=');
                if (e == std::string::npos) continue;
                it.set(w.substr(0, e), pctDec(w.substr(e + 1)));
            }
            p.items.push_back(it);
        }
        return p;
    }
};
