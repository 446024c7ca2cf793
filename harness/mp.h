/**
 * Configuration files as trees: an independent view of what a file contains, used as the
 * reference which configurable objects are compared with, and to construct faulty files.
 */
#pragma once
#include <fstream>
#include <sys/stat.h>

#ifdef VH_YAML
#undef YAML                               // from here on the real library, the bridge is compiled already
namespace fmt = humoto::config::yaml;
#else
namespace fmt = humoto::config::msgpack;
#endif

namespace mp
{
#ifdef VH_YAML
    const double TOLERANCE = 5.1e-15;     // the YAML bridge writes 15 significant digits
#else
    const double TOLERANCE = 0;
#endif
    inline bool equal(double x, double y) { return x == y || (x != x && y != y) || (x - x == 0 && y - y == 0 && std::fabs(x - y) <= TOLERANCE * std::max(std::fabs(x), std::fabs(y))); }
    struct Tree
    {
        enum Kind { NIL, BOOL, INT, REAL, STR, ARRAY, MAP } kind = NIL;
        bool b = false; bool neg = false; uint64_t u = 0; double d = 0; std::string s;
        std::vector<Tree> items;                              // ARRAY
        std::vector<std::pair<Tree, Tree>> entries;           // MAP

        static Tree nil() { return Tree(); }
        static Tree boolean(bool v) { Tree t; t.kind = BOOL; t.b = v; return t; }
        static Tree integer(long long v) { Tree t; t.kind = INT; t.neg = v < 0; t.u = static_cast<uint64_t>(v); return t; }
        static Tree real(double v) { Tree t; t.kind = REAL; t.d = v; return t; }
        static Tree str(const std::string &v) { Tree t; t.kind = STR; t.s = v; return t; }
        static Tree array() { Tree t; t.kind = ARRAY; return t; }
        static Tree map() { Tree t; t.kind = MAP; return t; }
        bool numeric() const { return kind == INT || kind == REAL; }
        double num() const { return kind == REAL ? d : (neg ? static_cast<double>(static_cast<int64_t>(u)) : static_cast<double>(u)); }
        Tree &add(const std::string &k, const Tree &v) { entries.push_back({str(k), v}); return *this; }
        const Tree *find(const std::string &k) const { if (kind == MAP) for (auto &e : entries) if (e.first.kind == STR && e.first.s == k) return &e.second; return nullptr; }
        Tree *find(const std::string &k) { return const_cast<Tree *>(static_cast<const Tree *>(this)->find(k)); }
        const Tree &at(const std::string &k) const { const Tree *t = find(k); if (!t) throw std::runtime_error("harness: no entry " + k); return *t; }
        bool matrix() const { return kind == MAP && entries.size() == 3 && find("rows") && find("cols") && find("data"); }
        // values, not encodings
        bool same(const Tree &o) const
        {
            if (numeric() && o.numeric())
            {
                if (kind == INT && o.kind == INT) return (u == o.u && neg == o.neg) || (num() == o.num() && (u > (1ull << 53)));
                return equal(num(), o.num());
            }
            if (kind != o.kind) return false;
            switch (kind)
            {
                case NIL: return true;
                case BOOL: return b == o.b;
                case STR: return s == o.s;
                case ARRAY: if (items.size() != o.items.size()) return false; for (std::size_t i = 0; i < items.size(); ++i) if (!items[i].same(o.items[i])) return false; return true;
                case MAP:
                    if (entries.size() != o.entries.size()) return false;
                    for (auto &e : entries) { const Tree *t = o.find(e.first.s); if (!t || !e.second.same(*t)) return false; }
                    return true;
                default: return false;
            }
        }
        std::string show(int depth = 0) const
        {
            std::ostringstream o; o << std::setprecision(9);
            switch (kind)
            {
                case NIL: o << "nil"; break; case BOOL: o << (b ? "true" : "false"); break;
                case INT: case REAL: o << num() << (kind == INT ? "i" : ""); break;
                case STR: o << '"' << s.substr(0, 40) << '"'; break;
                case ARRAY: o << "["; for (auto &i : items) o << i.show(depth + 1) << ","; o << "]"; break;
                case MAP: o << "{"; for (auto &e : entries) o << e.first.show() << ":" << e.second.show(depth + 1) << ","; o << "}"; break;
            }
            return o.str();
        }
    };

    // ------------------------------------------------ encoding (independent of the library's packer)
    inline void put(std::string &o, uint64_t v, int n) { for (int k = n - 1; k >= 0; --k) o += static_cast<char>((v >> (8 * k)) & 0xff); }
    inline void enc(std::string &o, const Tree &t)
    {
        switch (t.kind)
        {
            case Tree::NIL: o += '\xc0'; break;
            case Tree::BOOL: o += t.b ? '\xc3' : '\xc2'; break;
            case Tree::INT:
                if (t.neg) { o += '\xd3'; put(o, t.u, 8); }
                else if (t.u < 128) o += static_cast<char>(t.u);
                else { o += '\xcf'; put(o, t.u, 8); }
                break;
            case Tree::REAL: { uint64_t b; std::memcpy(&b, &t.d, 8); o += '\xcb'; put(o, b, 8); break; }
            case Tree::STR: if (t.s.size() < 32) o += static_cast<char>(0xa0 + t.s.size()); else { o += '\xdb'; put(o, t.s.size(), 4); } o += t.s; break;
            case Tree::ARRAY: if (t.items.size() < 16) o += static_cast<char>(0x90 + t.items.size()); else { o += '\xdd'; put(o, t.items.size(), 4); } for (auto &i : t.items) enc(o, i); break;
            case Tree::MAP: if (t.entries.size() < 16) o += static_cast<char>(0x80 + t.entries.size()); else { o += '\xdf'; put(o, t.entries.size(), 4); } for (auto &e : t.entries) { enc(o, e.first); enc(o, e.second); } break;
        }
    }
#ifndef VH_YAML
    inline std::string encode(const Tree &t) { std::string o; enc(o, t); return o; }
#else
    // text of the same content in various styles
    struct Text
    {
        vh::Rng r; std::ostringstream o; explicit Text(uint64_t seed) : r(seed) {}
        static bool plain(const std::string &s) { if (s.size() < 4) return false; for (char ch : s) if (!std::isalpha(static_cast<unsigned char>(ch)) && ch != '_') return false; for (auto k : {"true", "false", "null", "TRUE", "FALSE", "NULL", "True", "False", "Null"}) if (s == k) return false; return true; }
        void str(const std::string &s)
        {
            double p = r.u(); bool single = p < 0.2; for (char ch : s) single = single && ch >= 32 && ch < 127;
            if (p > 0.5 && plain(s)) { o << s; return; }
            if (single) { o << '\''; for (char ch : s) { if (ch == '\'') o << '\''; o << ch; } o << '\''; return; }
            o << '"'; for (char ch : s) { if (ch == '"' || ch == '\\') o << '\\' << ch; else if (ch >= 32 && ch < 127) o << ch; else { char b[8]; std::snprintf(b, 8, "\\x%02x", static_cast<unsigned char>(ch)); o << b; } } o << '"';
        }
        bool scalar(const Tree &t)
        {
            char b[40];
            switch (t.kind)
            {
                case Tree::NIL: o << r.pick({"~", "null"}); return true;
                case Tree::BOOL: o << (t.b ? "true" : "false"); return true;
                case Tree::INT: if (t.neg) o << static_cast<int64_t>(t.u); else o << t.u; return true;
                case Tree::REAL: if (t.d != t.d) o << ".nan"; else if (t.d - t.d != 0) o << (t.d > 0 ? ".inf" : "-.inf"); else { std::snprintf(b, 40, r.chance(0.5) ? "%.17g" : "%.16e", t.d); o << b; } return true;
                case Tree::STR: str(t.s); return true;
                default: return false;
            }
        }
        void flow(const Tree &t)
        {
            if (scalar(t)) return; bool first = true;
            if (t.kind == Tree::ARRAY) { o << "["; for (auto &i : t.items) { if (!first) o << r.pick({", ", " , ", ",\n      "}); first = false; flow(i); } o << "]"; }
            else { o << "{"; for (auto &e : t.entries) { if (!first) o << ", "; first = false; str(e.first.s); o << ": "; flow(e.second); } o << "}"; }
        }
        void eol() { if (r.chance(0.05)) o << "   # comment: [text"; o << "\n"; if (r.chance(0.03)) o << "\n"; }
        /// what follows "key:" or "-"
        void value(const Tree &t, int indent)
        {
            bool nested = t.kind == Tree::MAP ? !t.entries.empty() : t.kind == Tree::ARRAY && !t.items.empty();
            if (!nested || r.chance(t.kind == Tree::MAP ? 0.15 : 0.7)) { o << " "; flow(t); eol(); } else { eol(); block(t, indent + r.i(1, 4)); }
        }
        void block(const Tree &t, int indent)
        {
            std::string pad(indent, ' ');
            if (t.kind == Tree::MAP) for (auto &e : t.entries) { o << pad; str(e.first.s); o << ":"; value(e.second, indent); }
            else for (auto &i : t.items) { o << pad << "-"; value(i, indent); }
        }
    };
    inline std::string encode(const Tree &t) { std::string b; enc(b, t); uint64_t h = 1469598103934665603ull; for (char ch : b) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull; Text x(h); x.block(t, 0); return x.o.str(); }

    /// what the real library says about the same text, with the types of the given tree
    inline bool typed(const ::YAML::Node &n, const Tree &like, Tree &out)
    {
        try
        {
            switch (like.kind)
            {
                case Tree::NIL: out = Tree::nil(); return n.IsNull();
                case Tree::BOOL: out = Tree::boolean(n.as<bool>()); return true;
                case Tree::INT: { double d; if (::YAML::convert<double>::decode(n, d) && d == like.num()) { out = like; return true; } } /* integers may be read by real entries: 010 is 10 there */ { long long i; unsigned long long u; if (!::YAML::convert<long long>::decode(n, i) && !::YAML::convert<unsigned long long>::decode(n, u)) { out = Tree::real(n.as<double>()); return true; } } if (like.neg || static_cast<int64_t>(like.u) >= 0) out = Tree::integer(n.as<long long>()); else { out = like; out.u = n.as<unsigned long long>(); } return true;
                case Tree::REAL: out = Tree::real(n.as<double>()); return true;
                case Tree::STR: out = Tree::str(n.IsNull() ? std::string("~") : n.as<std::string>()); return true;
                case Tree::ARRAY: { if (!n.IsSequence() || n.size() != like.items.size()) return false; out = Tree::array(); for (std::size_t i = 0; i < n.size(); ++i) { Tree x; if (!typed(n[i], like.items[i], x)) return false; out.items.push_back(x); } return true; }
                default: { if (!n.IsMap() || n.size() != like.entries.size()) return false; out = Tree::map(); for (auto &e : like.entries) { if (!n[e.first.s]) return false; Tree x; if (!typed(n[e.first.s], e.second, x)) return false; out.add(e.first.s, x); } return true; }
            }
        }
        catch (const ::YAML::Exception &) { return false; }
    }
#endif

    // ------------------------------------------------ decoding (independent of the library's parser)
    struct Malformed {}; struct TooDeep {};
    struct Decoder
    {
        const std::string &s; std::size_t p; int depth = 0;
        uint64_t get(int n) { if (p + n > s.size()) throw Malformed(); uint64_t v = 0; for (int k = 0; k < n; ++k) v = (v << 8) | static_cast<unsigned char>(s[p++]); return v; }
        Tree sint(int n) { uint64_t v = get(n); int64_t x = n == 8 ? static_cast<int64_t>(v) : (v >> (8 * n - 1) & 1 ? static_cast<int64_t>(v) - (1ll << (8 * n)) : static_cast<int64_t>(v)); return Tree::integer(x); }
        Tree uns(int n) { Tree t; t.kind = Tree::INT; t.u = get(n); return t; }
        Tree str(uint64_t n) { if (n > s.size() - p) throw Malformed(); Tree t = Tree::str(s.substr(p, n)); p += n; return t; }
        Tree arr(uint64_t n) { if (n > s.size() - p) throw Malformed(); Tree t = Tree::array(); for (uint64_t i = 0; i < n; ++i) t.items.push_back(value()); return t; }
        Tree map(uint64_t n) { if (n > s.size() - p) throw Malformed(); Tree t = Tree::map(); for (uint64_t i = 0; i < n; ++i) { Tree k = value(); Tree v = value(); t.entries.push_back({k, v}); } return t; }
        Tree other(uint64_t n) { str(n); Tree t; t.kind = Tree::NIL; t.s = "binary"; return t; }
        Tree value()
        {
            if (++depth > 400) throw TooDeep();
            unsigned char c = get(1); Tree r;
            if (c < 0x80) r = Tree::integer(c);
            else if (c < 0x90) r = map(c & 15);
            else if (c < 0xa0) r = arr(c & 15);
            else if (c < 0xc0) r = str(c & 31);
            else if (c >= 0xe0) r = Tree::integer(static_cast<signed char>(c));
            else switch (c)
            {
                case 0xc0: r = Tree::nil(); break; case 0xc2: r = Tree::boolean(false); break; case 0xc3: r = Tree::boolean(true); break;
                case 0xc4: r = other(get(1)); break; case 0xc5: r = other(get(2)); break; case 0xc6: r = other(get(4)); break;
                case 0xc7: r = other(get(1) + 1); break; case 0xc8: r = other(get(2) + 1); break; case 0xc9: r = other(get(4) + 1); break;
                case 0xca: { uint32_t b = get(4); float f; std::memcpy(&f, &b, 4); r = Tree::real(f); break; }
                case 0xcb: { uint64_t b = get(8); double f; std::memcpy(&f, &b, 8); r = Tree::real(f); break; }
                case 0xcc: r = uns(1); break; case 0xcd: r = uns(2); break; case 0xce: r = uns(4); break; case 0xcf: r = uns(8); break;
                case 0xd0: r = sint(1); break; case 0xd1: r = sint(2); break; case 0xd2: r = sint(4); break; case 0xd3: r = sint(8); break;
                case 0xd4: r = other(2); break; case 0xd5: r = other(3); break; case 0xd6: r = other(5); break; case 0xd7: r = other(9); break; case 0xd8: r = other(17); break;
                case 0xd9: r = str(get(1)); break; case 0xda: r = str(get(2)); break; case 0xdb: r = str(get(4)); break;
                case 0xdc: r = arr(get(2)); break; case 0xdd: r = arr(get(4)); break; case 0xde: r = map(get(2)); break; case 0xdf: r = map(get(4)); break;
                default: throw Malformed();
            }
            --depth; return r;
        }
    };
    inline bool decode(const std::string &s, std::vector<Tree> &out, bool *deep = nullptr)
    {
        try { Decoder d{s, 0}; out.clear(); while (d.p != s.size()) out.push_back(d.value()); return true; } catch (const Malformed &) { return false; } catch (const TooDeep &) { if (deep) *deep = true; return false; }
    }

    inline std::string slurp(const std::string &f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
    inline void spill(const std::string &f, const std::string &d) { std::ofstream o(f.c_str(), std::ios::binary); o << d; }
    struct Temp { std::string name; explicit Temp(const std::string &n) : name(n) {} ~Temp() { ::unlink(name.c_str()); } operator const std::string &() const { return name; } };

    /// the section as a tree
    template <class T> Tree treeOf(const T &obj, const std::string &section)
    {
        Temp f("tree.msgpack"); obj.template writeConfig<humoto::config::msgpack::Writer>(f.name, section);
        std::vector<Tree> v; if (!decode(slurp(f), v) || v.size() != 1 || v[0].kind != Tree::MAP || v[0].entries.size() != 1 || v[0].entries[0].first.s != section) return Tree::nil();
        return v[0].entries[0].second;
    }
    /// sections in a file, -1 when it is not well formed
#ifdef VH_YAML
    inline int roots(const std::string &f) { try { std::vector< ::YAML::Node> d = ::YAML::LoadAll(slurp(f)); if (d.size() != 1) return d.empty() ? 0 : -1; return d[0].IsMap() ? static_cast<int>(d[0].size()) : -1; } catch (const ::YAML::Exception &) { return -1; } }
#else
    inline int roots(const std::string &f) { std::vector<Tree> t; return decode(slurp(f), t) ? static_cast<int>(t.size()) : -1; }
#endif
    inline Tree section(const std::string &name, const Tree &t) { Tree r = Tree::map(); r.add(name, t); return r; }

    inline bool ends(const std::string &s, const std::string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
    /// random values of the right types for every entry
    inline void randomize(vh::Rng &r, Tree &t, const std::string &name, bool special)
    {
        if (t.kind == Tree::MAP && !t.matrix()) { for (auto &e : t.entries) randomize(r, e.second, e.first.s, special); if (Tree *p = t.find("subsampling_time_ms")) { long s = r.i(1, 20); *p = Tree::integer(s); for (auto k : {"sampling_time_ms", "tds_sampling_time_ms"}) if (Tree *q = t.find(k)) *q = Tree::integer(s * r.i(1, 10)); } return; }
        if (t.matrix()) { for (auto &e : t.find("data")->items) e = Tree::real(r.normal()); return; }
        auto number = [&]() -> Tree { double p = r.u(); if (p < 0.1) return Tree::real(r.i(-5, 5)); if (special && p < 0.15) return Tree::real(r.pick({0., 1e300, -1e-300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 4503599627370497.5, 1e17, -9.3e18, 1.8e19})); return Tree::real(r.normal() * std::pow(10., r.i(-6, 6))); };
        if (t.kind == Tree::ARRAY) { for (auto &e : t.items) if (e.numeric()) e = name == "variables_indices" ? Tree::integer(r.i(0, 50)) : number(); else if (e.kind == Tree::ARRAY) randomize(r, e, name, special); return; }
        if (t.kind == Tree::BOOL) { t.b = r.chance(0.5); return; }
        if (t.kind == Tree::STR) { t.s = "v"; int n = r.i(0, 40); for (int i = 0; i < n; ++i) t.s += static_cast<char>(r.i(32, 126)); return; }
        if (!t.numeric()) return;
        if (name == "stance_type" || name == "next_stance_type" || name == "first_stance" || name == "first_ss_type" || name == "last_stance") t = Tree::integer(r.i(0, 4));
        else if (name == "motion_mode") t = Tree::integer(r.i(0, 2));
        else if (name == "duration_ms") t = Tree::integer(r.chance(0.3) ? -1 : r.i(0, 100000));
        else if (ends(name, "_ms") || name == "num_steps" || name == "preview_horizon_length") t = Tree::integer(r.chance(0.1) ? (special ? 4000000000ll : 70000) : r.i(0, 3000));
        else t = number();
    }
}
