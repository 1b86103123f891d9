// npy writes and reads.  Scenario lines:
//   mode=write type=f8 seed=..            random arrays written to one stream and read back
//   mode=big type=f8 rows= cols= rm=
//   mode=read type=.. hex=.. arrays=<json without spaces>   read arrays one after another
//   mode=reject type=.. hex=.. cuts=1|0   every prefix / the whole input
//   mode=missing type=.. path=..
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>
#include "rec.hpp"
#include "ldaplusplus/NumpyFormat.hpp"
using namespace ldaplusplus;
using namespace rec;
using numpy_format::NumpyInput;
using numpy_format::NumpyOutput;

static std::string bytes(const std::string &s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((int)(unsigned char)s[i]); }
    return r + "]";
}
static std::string unhex(const std::string &h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return r;
}

template <typename Sc> struct H {
    typedef Eigen::Matrix<Sc, -1, -1> CM;
    typedef Eigen::Matrix<Sc, -1, -1, Eigen::RowMajor> RM;
    typedef Eigen::Matrix<Sc, -1, 1> CV;
    typedef Eigen::Matrix<Sc, 1, -1> RV;

    static Sc value(Rng &r) {
        unsigned char b[sizeof(Sc)];
        int how = r.k(6);
        for (size_t i = 0; i < sizeof(Sc); i++) b[i] = how == 0 ? 0 : how == 1 ? 0xff : (unsigned char)r.k(256);
        if (how == 2) { memset(b, 0, sizeof b); b[sizeof(Sc) - 1] = 0x80; }             // -0, minimum
        if (how == 3 && sizeof(Sc) >= 4) { b[sizeof(Sc) - 1] = 0x7f; b[sizeof(Sc) - 2] |= 0xf0; }   // inf / NaN payloads
        Sc v;
        memcpy(&v, b, sizeof v);
        return v;
    }
    static std::string elem(const Sc *p) { return bytes(std::string((const char *)p, sizeof(Sc))); }
    template <typename M> static std::string rows(const M &m) {
        Arr a;
        for (int i = 0; i < m.rows(); i++) {
            Arr b;
            for (int j = 0; j < m.cols(); j++) { Sc v = m(i, j); b.add(elem(&v)); }
            a.add(b.done());
        }
        return a.done();
    }
    // reads one array from the stream in some way and describes the outcome
    static std::string read(std::istream &is, int how, size_t size) {
        try {
            Obj o;
            std::string m;
            if (how == 0) { CM x = numpy_format::load<Sc>(is); m = rows(x); o.raw("shape", "[]").i("fortran", 2); }
            else {
                NumpyInput<Sc> ni;
                is >> ni;
                if (how == 1) { CM x = ni; m = rows(x); } else { RM x = ni; m = rows(x); }
                std::vector<long long> sh(ni.shape().begin(), ni.shape().end());
                o.raw("shape", ints(sh)).i("fortran", ni.fortran_contiguous());
            }
            is.clear();
            long p = is.tellg();
            return o.raw("m", m).i("threw", 0).i("pos", p).i("left", (long)size - p).done();
        } catch (const std::exception &) {
            return Obj().raw("m", "[]").raw("shape", "[]").i("fortran", 2).i("threw", 1).i("pos", 0).i("left", 0).done();
        }
    }
    static void write(Line &l) {
        Rng r(I(l, "seed"));
        Arr ws;
        std::ostringstream all;
        int n = 1 + r.k(4);
        std::vector<std::string> parts, meta;
        std::string dir = S(l, "dir", "");
        for (int k = 0; k < n; k++) {
            int R = r.p(0.15) ? 0 : 1 + r.k(5), C = r.p(0.15) ? 0 : 1 + r.k(5);
            if (r.p(0.05)) { R = 1 + r.k(2); C = 100 + r.k(30); }
            size_t at = all.str().size();
            Obj o;
            std::string data;
            int form = r.k(5);
            auto fill = [&](Sc *p, size_t cnt) {
                for (size_t i = 0; i < cnt; i++) p[i] = value(r);
                data.assign((const char *)p, cnt * sizeof(Sc));
            };
            std::string path = dir + "/a" + std::to_string(getpid()) + ".npy", filed;
            auto tofile = [&](std::function<void(std::string)> f) {
                if (dir.empty()) return;
                f(path);
                std::ifstream in(path, std::ios::binary);
                std::stringstream ss;
                ss << in.rdbuf();
                filed = ss.str();
                ::unlink(path.c_str());
            };
            if (form == 0) { CM m(R, C); fill(m.data(), m.size()); numpy_format::save(all, m); tofile([&](std::string p) { numpy_format::save(p, m); });
                             o.i("fortran", 1).raw("shape", ints(std::vector<int>{R, C})); }
            else if (form == 1) { RM m(R, C); fill(m.data(), m.size()); all << NumpyOutput<Sc>(m); tofile([&](std::string p) { numpy_format::save(p, m); });
                             o.i("fortran", 0).raw("shape", ints(std::vector<int>{R, C})); }
            else if (form == 2) { CV m(R); fill(m.data(), m.size()); numpy_format::save(all, m); tofile([&](std::string p) { numpy_format::save(p, m); });
                             o.i("fortran", 1).raw("shape", ints(std::vector<int>{R, 1})); }
            else if (form == 3) { RV m(C); fill(m.data(), m.size()); numpy_format::save(all, m); tofile([&](std::string p) { numpy_format::save(p, m); });
                             o.i("fortran", 0).raw("shape", ints(std::vector<int>{1, C})); }
            else {
                std::vector<size_t> sh;
                int nd = 1 + r.k(4);
                size_t N = 1;
                for (int d = 0; d < nd; d++) { sh.push_back(r.p(0.1) ? 0 : 1 + r.k(4)); N *= sh.back(); }
                std::vector<Sc> v(N + 1);
                fill(v.data(), N);
                bool f = r.p(0.5);
                all << NumpyOutput<Sc>(v.data(), sh, f);
                std::vector<long long> s2(sh.begin(), sh.end());
                o.i("fortran", f).raw("shape", ints(s2));
            }
            std::string b = all.str().substr(at);
            if (!filed.empty() && filed != b) b = filed + "?";    // a file holds the same bytes as a stream
            parts.push_back(b);
            meta.push_back(o.raw("data", bytes(data)).raw("bytes", bytes(b)).done());
        }
        std::istringstream in(all.str());
        size_t end = 0;
        for (int k = 0; k < n; k++) {
            end += parts[k].size();
            std::string back = read(in, 1 + r.k(2), end);
            ws.add(meta[k].substr(0, meta[k].size() - 1) + ",\"back\":" + back + "}");
        }
        std::cout << Obj().t("mode", "write").t("type", S(l, "type")).raw("writes", ws.done()).done() << "\n";
    }
    template <typename M> static void bigm(Line &l, const char *type) {
        Rng r(7);
        M m(I(l, "rows"), I(l, "cols"));
        for (long i = 0; i < m.size(); i++) m.data()[i] = (Sc)(i * 31 + 7);
        std::ostringstream os;
        numpy_format::save(os, m);
        std::string s = os.str();
        size_t hl = s.size() >= 10 ? 10 + (unsigned char)s[8] + 256 * (unsigned char)s[9] : 0;
        bool same = hl <= s.size() && s.size() - hl == m.size() * sizeof(Sc) && memcmp(s.data() + hl, m.data(), m.size() * sizeof(Sc)) == 0;
        std::istringstream is(s);
        bool back = false;
        try { M x = numpy_format::load<Sc>(is); back = x.rows() == m.rows() && x.cols() == m.cols() && memcmp(x.data(), m.data(), m.size() * sizeof(Sc)) == 0; }
        catch (const std::exception &) {}
        // the same through a file
        std::string dir = S(l, "dir", "");
        if (!dir.empty()) {
            std::string path = dir + "/big" + std::to_string(getpid()) + ".npy";
            numpy_format::save(path, m);
            std::ifstream in(path, std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            if (ss.str() != s) same = false;
            try { M x = numpy_format::load<Sc>(path); if (!(x.rows() == m.rows() && x.cols() == m.cols() && memcmp(x.data(), m.data(), m.size() * sizeof(Sc)) == 0)) back = false; }
            catch (const std::exception &) { back = false; }
            ::unlink(path.c_str());
        }
        std::cout << Obj().t("mode", "big").t("type", type).raw("big", "[" + Obj().raw("head", bytes(s.substr(0, std::min(hl, s.size()))))
                     .i("total", s.size()).raw("shape", ints(std::vector<long>{(long)m.rows(), (long)m.cols()})).i("fortran", !M::IsRowMajor)
                     .i("data_same", same).i("back_same", back).done() + "]").done() << "\n";
    }
    static void run(Line &l) {
        std::string mode = S(l, "mode");
        if (mode == "write") write(l);
        else if (mode == "big") { if (I(l, "rm")) bigm<RM>(l, l["type"].c_str()); else bigm<CM>(l, l["type"].c_str()); }
        else if (mode == "read") {
            std::string b = unhex(S(l, "hex"));
            std::istringstream in(b);
            Rng r(I(l, "seed", 3));
            Arr a;
            for (int k = 0; k < I(l, "n", 1); k++) {
                long at = in.tellg();
                std::string x = read(in, 1 + r.k(2), 0);
                // the convenience function gives the same
                std::istringstream in2(b);
                in2.seekg(at);
                std::string y = read(in2, 0, 0);
                size_t p = x.find("\"m\":"), q = y.find("\"m\":");
                if (x.substr(p) != y.substr(q)) x = "{\"threw\":1,\"m\":[],\"shape\":[],\"fortran\":3,\"pos\":0}";
                a.add(x);
            }
            std::cout << Obj().t("mode", "read").raw("bytes", bytes(b)).raw("arrays", S(l, "arrays")).raw("reads", a.done()).done() << "\n";
        } else if (mode == "reject") {
            std::string b = unhex(S(l, "hex"));
            Arr a;
            for (size_t k = I(l, "cuts") ? 0 : b.size(); k < b.size() + (I(l, "cuts") ? 0 : 1); k++) {
                std::istringstream in(b.substr(0, k));
                int threw = 0;
                try { CM m = numpy_format::load<Sc>(in); } catch (const std::exception &) { threw = 1; }
                a.add(std::to_string(threw));
            }
            std::cout << Obj().t("mode", "reject").t("id", S(l, "id")).raw("bytes", bytes(b)).raw("outcomes", a.done()).done() << "\n";
        } else if (mode == "bigread") {
            std::string b = unhex(S(l, "hex"));
            size_t n = I(l, "n"), at = b.size();
            b.resize(at + n * sizeof(Sc));
            for (size_t k = 0; k < n * sizeof(Sc); k++) b[at + k] = (char)(31 * k + 17 * (k / 256) + 5 * (k / 65536) + 7);
            std::istringstream in(b + "tail");
            Rng r(I(l, "seed", 5));
            Obj o;
            Arr a;
            try {
                CM m = numpy_format::load<Sc>(in);
                in.clear();
                long R = m.rows(), C = m.cols();
                for (int k = 0; k < 80 && R > 0 && C > 0; k++) {
                    long i = k & 1 ? R - 1 : 0, j = k & 2 ? C - 1 : 0;
                    if (k >= 4) { i = r.k(R); j = r.k(C); }
                    Sc v = m(i, j);
                    a.add("[" + std::to_string(i) + "," + std::to_string(j) + "," + elem(&v) + "]");
                }
                o.i("threw", 0).i("rows", R).i("cols", C).i("pos", (long)in.tellg());
            } catch (const std::exception &) { o.i("threw", 1).i("rows", 0).i("cols", 0).i("pos", 0); }
            std::cout << o.t("mode", "bigread").raw("head", bytes(b.substr(0, at))).raw("array", S(l, "array")).raw("samples", a.done()).done() << "\n";
        } else if (mode == "huge") {
            // a header that promises more elements than follow: 65536 of 65537 * 65536
            std::string b = unhex(S(l, "hex"));
            std::istringstream in(b + std::string(65536 * sizeof(Sc), 'x'));
            struct rlimit old, lim;
            getrlimit(RLIMIT_AS, &old);
            lim = old;
            lim.rlim_cur = 2000000000u;
            setrlimit(RLIMIT_AS, &lim);
            int threw = 0;
            try { NumpyInput<Sc> ni; in >> ni; } catch (const std::exception &) { threw = 1; }
            setrlimit(RLIMIT_AS, &old);
            std::cout << Obj().t("mode", "reject").t("id", S(l, "id")).raw("bytes", bytes(b)).raw("outcomes", "[" + std::to_string(threw) + "]").done() << "\n";
        } else {
            int threw = 0;
            try { CM m = numpy_format::load<Sc>(S(l, "path")); } catch (const std::exception &) { threw = 1; }
            std::cout << Obj().t("mode", "reject").t("id", "missing").raw("bytes", "[]").raw("outcomes", "[" + std::to_string(threw) + "]").done() << "\n";
        }
        std::cout.flush();
    }
};
int main() {
    std::string s;
    while (std::getline(std::cin, s)) {
        Line l = parse(s);
        std::string t = S(l, "type");
        if (t == "i1") H<int8_t>::run(l); else if (t == "i2") H<int16_t>::run(l); else if (t == "i4") H<int32_t>::run(l);
        else if (t == "i8") H<int64_t>::run(l); else if (t == "u1") H<uint8_t>::run(l); else if (t == "u2") H<uint16_t>::run(l);
        else if (t == "u4") H<uint32_t>::run(l); else if (t == "u8") H<uint64_t>::run(l); else if (t == "f4") H<float>::run(l);
        else H<double>::run(l);
    }
}
