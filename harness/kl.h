// Common part of the conformance harnesses: problem builders and the trace writer.
// Only the public interface of the library under test is used.
#pragma once
#include <gismo.h>
#include <gsKLShell/gsKLShell.h>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <sstream>
#include <map>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

namespace kl {
using namespace gismo;
typedef gsMatrix<real_t> Mat;
typedef gsVector<real_t> Vec;

// ------------------------------------------------------------------ records
// A real is written as the pair [hi,lo] of 32-bit words of the double, which is
// how spec/RealArith.tla represents reals.
inline void putReal(std::ostream & os, double x)
{
    if (x == 0) x = 0;
    std::uint64_t b; std::memcpy(&b, &x, 8);
    os << '[' << (std::int32_t)(b >> 32) << ',' << (std::int32_t)(b & 0xffffffffu) << ']';
}
class Rec
{
    std::ostringstream m; bool first;
    void key(const char * k) { if (!first) m << ','; first = false; m << '"' << k << "\":"; }
public:
    Rec() : first(true) { m << '{'; }
    Rec & i(const char * k, long v) { key(k); m << v; return *this; }
    Rec & b(const char * k, bool v) { key(k); m << (v ? "true" : "false"); return *this; }
    Rec & s(const char * k, const std::string & v) { key(k); m << '"';
        for (size_t c = 0; c != v.size(); c++) m << ((v[c]=='"'||v[c]=='\\'||(unsigned char)v[c]<32) ? '_' : v[c]);
        m << '"'; return *this; }
    Rec & r(const char * k, double v) { key(k); putReal(m, v); return *this; }
    Rec & v(const char * k, const Mat & x) { // column-major vector
        key(k); m << '[';
        for (index_t c = 0; c != x.cols(); c++) for (index_t r = 0; r != x.rows(); r++) { if (c+r) m << ','; putReal(m, x(r,c)); }
        m << ']'; return *this; }
    Rec & v(const char * k, const std::vector<double> & x) {
        key(k); m << '['; for (size_t c = 0; c != x.size(); c++) { if (c) m << ','; putReal(m, x[c]); } m << ']'; return *this; }
    Rec & iv(const char * k, const std::vector<long> & x) {
        key(k); m << '['; for (size_t c = 0; c != x.size(); c++) { if (c) m << ','; m << x[c]; } m << ']'; return *this; }
    Rec & cols(const char * k, const Mat & x) { // sequence of columns
        key(k); m << '[';
        for (index_t c = 0; c != x.cols(); c++) { if (c) m << ','; m << '[';
            for (index_t r = 0; r != x.rows(); r++) { if (r) m << ','; putReal(m, x(r,c)); } m << ']'; }
        m << ']'; return *this; }
    Rec & raw(const char * k, const std::string & json) { key(k); m << json; return *this; }
    std::string str() const { return m.str() + "}"; }
};

// ------------------------------------------------------------- scenario file
// One scenario per line: key=value pairs separated by blanks (tools/driver.py
// writes it from what TLC enumerated).
typedef std::map<std::string,std::string> Scen;
inline Scen parse(const std::string & line)
{
    Scen s; std::istringstream is(line); std::string w;
    while (is >> w) { size_t e = w.find('='); if (e != std::string::npos) s[w.substr(0,e)] = w.substr(e+1); }
    return s;
}
inline const std::string & S(const Scen & s, const std::string & k)
{
    Scen::const_iterator it = s.find(k);
    if (it == s.end()) { std::fprintf(stderr, "scenario lacks %s\n", k.c_str()); std::_Exit(3); }
    return it->second;
}
inline long I(const Scen & s, const std::string & k) { return std::atol(S(s,k).c_str()); }
inline bool has(const Scen & s, const std::string & k) { return s.count(k) != 0; }

// Runs every scenario in a child process: what the code under test does to the
// process (assertion, exception, signal, endless loop) becomes part of the trace.
typedef std::function<void(const Scen &, std::vector<std::string> &)> Driver;
inline int runAll(int argc, char ** argv, Driver f, int timeout_s = 120)
{
    if (argc < 3) { std::fprintf(stderr, "usage: %s scenarios trace\n", argv[0]); return 3; }
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    if (!in || !out) { std::fprintf(stderr, "cannot open %s / %s\n", argv[1], argv[2]); return 3; }
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        Scen s = parse(line);
        int p[2]; if (pipe(p)) return 3;
        out.flush(); fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) return 3;
        if (pid == 0)
        {
            close(p[0]); alarm(timeout_s);
            FILE * null = std::freopen("/dev/null", "w", stdout); (void)null;
            std::vector<std::string> recs; std::string end = "ok", what;
            try { f(s, recs); }
            catch (const std::exception & e) { end = "throw"; what = e.what(); }
            catch (...) { end = "throw"; what = "unknown"; }
            std::string all;
            for (size_t k = 0; k != recs.size(); k++) all += recs[k] + "\n";
            if (end != "ok") all += Rec().s("t","end").s("id",S(s,"id")).s("how",end).s("what",what.substr(0,300)).str() + "\n";
            all += "#done\n";
            size_t off = 0;
            while (off < all.size()) { ssize_t n = write(p[1], all.data()+off, all.size()-off); if (n <= 0) break; off += n; }
            close(p[1]); std::_Exit(0);
        }
        close(p[1]);
        std::string all; char buf[65536]; ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0) all.append(buf, n);
        close(p[0]);
        int st = 0; waitpid(pid, &st, 0);
        size_t d = all.rfind("#done\n");
        if (d != std::string::npos) all.resize(d);
        else
        {
            size_t nl = all.rfind('\n'); all.resize(nl == std::string::npos ? 0 : nl+1);
            std::string how = WIFSIGNALED(st) ? (WTERMSIG(st)==SIGALRM ? "timeout" : "signal") : "exit";
            all += Rec().s("t","end").s("id",S(s,"id")).s("how",how).s("what",how).str() + "\n";
        }
        out << all;
    }
    return 0;
}

// ------------------------------------------------------------ deterministic data
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int k=0;k!=4;k++) next(); }
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    double u() { return (next() >> 11) * (1.0/9007199254740992.0); }          // [0,1)
    double u(double a, double b) { return a + (b-a)*u(); }
    index_t n(index_t k) { return (index_t)(next() % (std::uint64_t)k); }
};

// ---------------------------------------------------------------- geometries
// Planar or spatial patches of degree p with 2^r elements per direction.
// shape: flat | skew | bump | cyl ; the smooth map acts on control points, so
// conforming patches stay conforming.
inline void mapPoint(const std::string & shape, real_t x, real_t y, index_t d, real_t * o)
{
    real_t z = 0, X = x, Y = y;
    if (shape == "flat") {}
    else if (shape == "skew")  { X = 1.1*x + 0.35*y; Y = 0.9*y - 0.2*x; z = 0.3*x - 0.2*y; }
    else if (shape == "bump")  { X = x + 0.12*y*y + 0.05*x*y; Y = y + 0.15*x - 0.06*x*x; z = 0.25*x*(2.0-x) + 0.2*y*(1-y) + 0.1*x*y; }
    else if (shape == "cyl")   { X = std::sin(0.9*x)/0.9; Y = y; z = (std::cos(0.9*x)-1)/0.9; }
    else GISMO_ERROR("unknown shape " << shape);
    o[0] = X; o[1] = Y; if (d == 3) o[2] = z;
}
inline gsMultiPatch<real_t> geometry(const std::string & shape, index_t d, index_t np, index_t deg, index_t ref)
{
    gsMultiPatch<real_t> mp;
    for (index_t p = 0; p != np; p++)
    {
        gsKnotVector<real_t> kv(0,1,0,2);
        Mat C(4,2); C << p,0, p+1,0, p,1, p+1,1;
        gsTensorBSpline<2,real_t> g(kv,kv,give(C));
        g.degreeElevate(deg-1);
        for (index_t r = 0; r != ref; r++) g.uniformRefine();
        Mat & c = g.coefs(); Mat cc(c.rows(), d);
        for (index_t k = 0; k != c.rows(); k++) { real_t o[3]; mapPoint(shape, c(k,0), c(k,1), d, o); for (index_t j=0;j!=d;j++) cc(k,j)=o[j]; }
        mp.addPatch(gsTensorBSpline<2,real_t>(g.basis(), give(cc)));
    }
    mp.computeTopology(1e-9);
    mp.addAutoBoundaries();
    return mp;
}
// adds a smooth, patch-continuous perturbation of size amp to the control points
inline void perturb(gsMultiPatch<real_t> & mp, Rng & g, real_t amp)
{
    const index_t d = mp.geoDim();
    Mat a(d,6); for (index_t i=0;i!=d;i++) for (index_t j=0;j!=6;j++) a(i,j) = g.u(-1,1);
    for (size_t p = 0; p != mp.nPatches(); p++)
    {
        Mat & c = mp.patch(p).coefs();
        for (index_t k = 0; k != c.rows(); k++)
        {
            const real_t x = c(k,0), y = c(k,1), z = d==3 ? c(k,2) : 0;
            for (index_t i = 0; i != d; i++)
                c(k,i) += amp*( a(i,0)*x + a(i,1)*y + a(i,2)*x*y + a(i,3)*std::sin(1.3*x+0.4) + a(i,4)*std::cos(1.7*y-0.3*z) + a(i,5)*x*x );
        }
    }
}
template<class M> inline double maxAbs(const M & m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }

typedef memory::shared_ptr<gsFunctionSet<real_t> > FunPtr;
inline FunPtr cfun(real_t v, index_t d) { return FunPtr(new gsConstantFunction<real_t>(v, d)); }
inline FunPtr efun(const std::string & e, index_t d) { return FunPtr(new gsFunctionExpr<real_t>(e, d)); }
} // namespace kl
