// Helpers shared by the recording harnesses: scenario lines, JSON output with
// bit-exact numbers, random models and documents.
#ifndef VERIF_REC_HPP
#define VERIF_REC_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <Eigen/Core>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"

namespace rec {

typedef std::map<std::string, std::string> Line;

inline Line parse(const std::string &s) {
    Line m;
    std::istringstream is(s);
    std::string w;
    while (is >> w) {
        size_t e = w.find('=');
        if (e == std::string::npos) m[w] = "1";
        else m[w.substr(0, e)] = w.substr(e + 1);
    }
    return m;
}
inline std::string S(Line &l, const char *k, const char *d = "") { return l.count(k) ? l[k] : std::string(d); }
inline long I(Line &l, const char *k, long d = 0) { return l.count(k) ? std::atol(l[k].c_str()) : d; }
inline double D(Line &l, const char *k, double d = 0) { return l.count(k) ? std::atof(l[k].c_str()) : d; }

// a double is the array [hi, lo] of its signed 32-bit halves
inline std::string num(double x) {
    uint64_t b;
    std::memcpy(&b, &x, 8);
    char buf[64];
    std::snprintf(buf, sizeof buf, "[%d,%d]", (int)(int32_t)(b >> 32), (int)(int32_t)(b & 0xffffffffu));
    return buf;
}
template <typename V> std::string vec(const V &v) {
    std::string s = "[";
    for (int i = 0; i < v.size(); i++) { if (i) s += ","; s += num((double)v(i)); }
    return s + "]";
}
template <typename M> std::string mat(const M &m) {   // sequence of columns
    std::string s = "[";
    for (int j = 0; j < m.cols(); j++) {
        if (j) s += ",";
        s += "[";
        for (int i = 0; i < m.rows(); i++) { if (i) s += ","; s += num((double)m(i, j)); }
        s += "]";
    }
    return s + "]";
}
template <typename V> std::string ints(const V &v) {
    std::string s = "[";
    for (int i = 0; i < (int)v.size(); i++) { if (i) s += ","; s += std::to_string((long long)v[i]); }
    return s + "]";
}
inline std::string str(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
struct Obj {
    std::string s;
    Obj &raw(const std::string &k, const std::string &v) { s += (s.empty() ? "{\"" : ",\"") + k + "\":" + v; return *this; }
    Obj &i(const std::string &k, long long v) { return raw(k, std::to_string(v)); }
    Obj &n(const std::string &k, double v) { return raw(k, num(v)); }
    Obj &t(const std::string &k, const std::string &v) { return raw(k, str(v)); }
    std::string done() const { return s.empty() ? "{}" : s + "}"; }
};
struct Arr {
    std::string s;
    int n = 0;
    void add(const std::string &v) { if (n++) s += ","; s += v; }
    std::string done() const { return "[" + s + "]"; }
};

struct Rng {
    std::mt19937 g;
    explicit Rng(unsigned s) : g(s) {}
    double u() { return (g() >> 5) / 134217728.0; }           // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    int k(int n) { return n <= 0 ? 0 : (int)(g() % (unsigned)n); }
    bool p(double q) { return u() < q; }
    double gamma_like(double sparsity) { return std::pow(u(0.0001, 1), sparsity); }
};

// a topic matrix with non-negative rows summing to one
template <typename Sc>
Eigen::Matrix<Sc, -1, -1> topics(Rng &r, int K, int V, double sparsity, double zeros) {
    Eigen::Matrix<Sc, -1, -1> b(K, V);
    for (int i = 0; i < K; i++)
        for (int j = 0; j < V; j++) b(i, j) = (Sc)r.gamma_like(sparsity);
    for (int j = 0; j < V; j++)
        for (int i = 0; i < K; i++)
            if (K > 1 && r.p(zeros)) {
                int nz = 0;
                for (int a = 0; a < K; a++) nz += b(a, j) > 0;
                if (nz > 1) b(i, j) = 0;
            }
    for (int i = 0; i < K; i++) {
        Sc s = b.row(i).sum();
        if (s > 0) b.row(i) /= s; else b.row(i).fill((Sc)1 / V);
    }
    return b;
}
inline Eigen::VectorXi doc(Rng &r, int V, double density, int maxc) {
    Eigen::VectorXi x(V);
    for (int j = 0; j < V; j++) x(j) = r.p(density) ? 1 + r.k(maxc) : 0;
    return x;
}

}  // namespace rec
#endif
