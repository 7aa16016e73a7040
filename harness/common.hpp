// Shared framework of all harnesses: deterministic case generator, type-erased
// estimator wrapper over the public API, state snapshots, event/violation log.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <locale.h>
#include <locale>
#include <map>
#include <memory>
#include <numeric>
#include <omp.h>
#include <set>
#include <sstream>
#include <fstream>
#include <string>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" size_t __sanitizer_get_heap_size() __attribute__((weak));

namespace H
{

using std::string;
using std::vector;

// ------------------------------------------------------------------ random
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0)
    {
        s = a * 0x9E3779B97F4A7C15ull ^ (b + 1) * 0xBF58476D1CE4E5B9ull ^ (c + 1) * 0x94D049BB133111EBull;
        next(); next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
    int range(int a, int b) { return int(int64_t(a) + int64_t(next() % uint64_t(int64_t(b) - a + 1))); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(int(l.size()))); }
    template<class T> T const & pick(vector<T> const & l) { return l[below(int(l.size()))]; }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

inline string fmt(char const * f, ...)
{
    char buf[4096];
    static locale_t const plain = newlocale(LC_ALL_MASK, "C", nullptr);
    locale_t const before = uselocale(plain); // whatever surroundings the library has been given
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    uselocale(before);
    return buf;
}

inline string jesc(string const & s)
{
    string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c > 0x7e) r += fmt("\\u%04x", c);
        else r += char(c);
    }
    return r;
}

// ------------------------------------------------------------------ context
struct Progress // lives in a shared mapping so that it survives a crash
{
    int64_t case_id;
    int64_t tick;
    char op[4000];
};

// bytes the machine can still give; 0 if unknown
inline uint64_t mem_available()
{
    std::ifstream f("/proc/meminfo");
    string k;
    uint64_t v;
    while (f >> k) if (k == "MemAvailable:") { f >> v; return v << 10; }
    return 0;
}

struct Ctx
{
    uint64_t seed = 1;
    bool thorough = false;
    string prop;
    string extra; // harness specific argument
    int64_t cur = -1;
    FILE * log = nullptr;
    Progress * prog = nullptr;
    std::map<string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    vector<string> samples;
    int violations = 0;
    std::map<string, string> outputs; // key -> value, compared by the driver across processes

    void count(string const & k, uint64_t n = 1) { counters[k] += n; }
    void seen(uint64_t h) { distinct.insert(h); }
    void sample(string const & s) { if (samples.size() < 3) samples.push_back(s); }
    void op(string const & s)
    {
        if (prog)
        {
            std::strncpy(prog->op, s.c_str(), sizeof(prog->op) - 1);
            ++prog->tick;
        }
    }
    // one line per violation; key identifies the kind of failure
    void violation(string const & key, string const & what)
    {
        if (violations < 40)
        {
            fprintf(log, "{\"t\":\"violation\",\"case\":%lld,\"key\":\"%s\",\"what\":\"%s\"}\n",
                (long long)cur, jesc(key).c_str(), jesc(what).c_str());
            fflush(log);
        }
        ++violations;
    }
    bool check(bool ok, char const * key, string const & what)
    {
        if (!ok) violation(key, what);
        return ok;
    }
};

// ------------------------------------------------------------------ config
enum Kind { CC = 0, CB = 1, RC = 2, RB = 3 };
inline char const * kind_name(Kind k)
{
    static char const * n[] = {"ClassifierClassic", "ClassifierBitwise", "RegressorClassic", "RegressorBitwise"};
    return n[k];
}
inline constexpr bool is_clf(Kind k) { return k == CC || k == CB; }
inline constexpr bool is_bw(Kind k) { return k == CB || k == RB; }

struct Cfg
{
    Kind kind = CC;
    int clauses = 12; // physical clauses (per label for classifiers)
    int nstates = 100;
    float s = 2.f;
    int T = 15;
    bool weighted = false;
    int maxw = 2147483647;
    bool boost = false;
    int jobs = 1;
    bool verbose = false;
    string ctype = "auto";
    int tile = 16;
    string loss = "MSE";
    float C1 = 0.f;
    bool bm = false;
    unsigned seed = 1;

    string json() const
    {
        std::ostringstream o;
        o.imbue(std::locale::classic());
        o << "{\"" << (is_clf(kind) ? "number_of_clauses_per_label" : "number_of_regressor_clauses") << "\":" << clauses
          << ",\"number_of_states\":" << nstates << ",\"s\":" << fmt("%.9g", s) << ",\"threshold\":" << T
          << ",\"weighted\":" << (weighted ? "true" : "false") << ",\"max_weight\":" << maxw
          << ",\"boost_true_positive_feedback\":" << int(boost) << ",\"n_jobs\":" << jobs
          << ",\"verbose\":" << (verbose ? "true" : "false") << ",\"counting_type\":\"" << ctype << "\""
          << ",\"clause_output_tile_size\":" << tile << ",\"random_state\":" << seed;
        if (!is_clf(kind))
        {
            o << ",\"loss_fn\":\"" << loss << "\",\"loss_fn_C1\":" << fmt("%.9g", C1)
              << ",\"box_muller\":" << (bm ? "true" : "false");
        }
        o << "}";
        return o.str();
    }
    string str() const { return string(kind_name(kind)) + json(); }
    int outputs_per_group() const { return clauses / 2; } // per label for classifiers, in all for regressors
};

// ------------------------------------------------------------------ data
struct Row
{
    vector<char> v;      // classic: raw values; bitwise: != 0 sets the bit
    vector<int> pad;     // bitwise: extra bit positions (>= size) to set in the storage
    int spare = 0;       // bitwise: spare storage blocks beyond the content
    Row() {}
    explicit Row(vector<char> x) : v(std::move(x)) {}
};
using Rows = vector<Row>;
using Labels = vector<int>;

inline string row_str(Row const & r)
{
    string s;
    for (char c : r.v) s += (c == 0 ? '0' : c == 1 ? '1' : '?');
    if (s.size() > 80) s = s.substr(0, 80) + fmt("...(%zu)", r.v.size());
    if (r.spare) s += fmt("+%dblk", r.spare);
    for (int p : r.pad) s += fmt("+bit%d", p);
    return s;
}

// ------------------------------------------------------------------ snapshot
struct Snap
{
    bool fitted = false;
    int width = 0;
    int rows = 0, cols = 0;
    vector<int32_t> ta;
    vector<uint32_t> w;
    bool has_pol = false;
    int prows = 0, pcols = 0;
    vector<char> pol; // logical bits
    bool pol_pad_clean = true;
    std::map<string, string> params;
    uint64_t ifut = 0, ffut = 0; // digests of the future outputs of the generators

    int at(int r, int c) const { return ta[size_t(r) * cols + c]; }
    uint64_t model_digest() const // automata, weights, polarity, generators; no params, no width
    {
        uint64_t h = 17;
        h = mix(h, rows); h = mix(h, cols);
        for (auto v : ta) h = mix(h, uint32_t(v));
        h = mix(h, w.size());
        for (auto v : w) h = mix(h, v);
        for (auto v : pol) h = mix(h, uint32_t(v));
        h = mix(h, ifut); h = mix(h, ffut);
        return h;
    }
    uint64_t digest() const
    {
        uint64_t h = model_digest();
        h = mix(h, width);
        for (auto & kv : params)
            h = mix(h, std::hash<string>()(kv.first + "=" + kv.second));
        return h;
    }
};

// first difference between two snapshots, "" if none. params_too / width optional
inline string snap_diff(Snap const & a, Snap const & b, bool params_too = true, bool width_too = true)
{
    if (a.fitted != b.fitted) return fmt("fitted %d vs %d", a.fitted, b.fitted);
    if (a.rows != b.rows || a.cols != b.cols) return fmt("shape %dx%d vs %dx%d", a.rows, a.cols, b.rows, b.cols);
    if (width_too && a.width != b.width) return fmt("width %d vs %d", a.width, b.width);
    for (size_t i = 0; i < a.ta.size(); ++i)
        if (a.ta[i] != b.ta[i])
            return fmt("automaton row %zu feature %zu: %d vs %d", i / a.cols, i % a.cols, a.ta[i], b.ta[i]);
    if (a.w.size() != b.w.size()) return fmt("weights count %zu vs %zu", a.w.size(), b.w.size());
    for (size_t i = 0; i < a.w.size(); ++i)
        if (a.w[i] != b.w[i]) return fmt("weight %zu: %u vs %u", i, a.w[i], b.w[i]);
    if (a.pol.size() != b.pol.size()) return "polarity size";
    for (size_t i = 0; i < a.pol.size(); ++i)
        if (a.pol[i] != b.pol[i]) return fmt("polarity bit %zu", i);
    if (a.ifut != b.ifut) return "integer generator state";
    if (a.ffut != b.ffut) return "real generator state";
    if (params_too && a.params != b.params)
    {
        for (auto & kv : a.params)
        {
            auto it = b.params.find(kv.first);
            if (it == b.params.end()) return "param " + kv.first + " missing";
            if (it->second != kv.second) return "param " + kv.first + ": " + kv.second + " vs " + it->second;
        }
        return "params";
    }
    return "";
}

// ------------------------------------------------------------------ estimators
struct Status
{
    int code = 0; // StatusCode
    string msg;
};
inline char const * code_name(int c)
{
    static char const * n[] = {"S_OK", "S_BAD_JSON", "S_VALUE_ERROR", "S_NOT_FITTED_ERROR"};
    return c >= 0 && c < 4 ? n[c] : "?";
}

struct Est;
using EstP_ = std::unique_ptr<Est>;

struct Est
{
    Kind kind;
    explicit Est(Kind k) : kind(k) {}
    virtual ~Est() {}
    virtual Status fit(Rows const & X, Labels const & y, int L, unsigned epochs) = 0;
    virtual Status partial_fit(Rows const & X, Labels const & y, int L, unsigned epochs) = 0;
    virtual Status predict(Rows const & X, Labels & out) const = 0;
    virtual Status predict1(Row const & x, int & out) const = 0;
    virtual Status decision(Rows const & X, vector<vector<int>> & out) const = 0; // classifiers
    virtual Status decision1(Row const & x, vector<int> & out) const = 0;
    virtual Status evaluate(Rows const & X, Labels const & y, float & out) const = 0;
    virtual Snap snap() const = 0;
    virtual std::map<string, string> params() const = 0;
    virtual std::unique_ptr<Est> clone() const = 0;            // via clone_state + ctor from state
    virtual std::unique_ptr<Est> steal() = 0;                  // move construction, source left moved-from
    virtual void assign_move(Est & other) = 0;                 // move assignment
    virtual string save() const = 0;
    virtual std::unique_ptr<Est> load(string const & doc) const = 0; // load over a clone of this one's state
    // state edited through the public state object; ta row-major, weights ("stored", i.e. weight-1)
    virtual std::unique_ptr<Est> with(vector<int32_t> const & ta, vector<uint32_t> const & w) const = 0;
    virtual EstP_ advance(int ni, int nf) const = 0; // clone with generators advanced by so many draws
    virtual bool state_equal(Est const & o) const = 0; // library operator==
};

using EstP = std::unique_ptr<Est>;

EstP make_est(Cfg const & c, bool via_json = false, Status * st = nullptr); // est.cpp

struct Abandon { string why; }; // thrown when a case cannot continue after a violation was logged

inline EstP must_make(Ctx & ctx, Cfg const & c, bool via_json = false)
{
    Status st;
    auto e = make_est(c, via_json, &st);
    if (!e)
    {
        ctx.violation("create-refused", "valid configuration refused: " + c.str() + " -> " + code_name(st.code) + " " + st.msg);
        throw Abandon{"create"};
    }
    return e;
}

inline void must_ok(Ctx & ctx, Status const & s, string const & what)
{
    if (s.code != 0)
    {
        ctx.violation("valid-call-refused", what + " -> " + code_name(s.code) + " " + s.msg);
        throw Abandon{what};
    }
}

// ------------------------------------------------------------------ generators
// feature counts around every block/tile boundary
inline int gen_features(Rng & r, bool allow_big = true)
{
    int const k = r.below(100);
    if (k < 25) return r.range(1, 9);
    if (k < 45) return r.pick({15, 16, 17, 31, 32, 33});
    if (k < 70) return r.pick({47, 48, 49, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193});
    if (k < 85) return r.range(1, 140);
    if (!allow_big || k < 93) return r.pick({255, 256, 257, 511, 512, 513});
    if (k >= 99) return r.pick({2112, 4031, 4033, 4095, 4096, 4097, 8127, 8129, 8191, 8192, 8193, 8256}); // bitwise tiles of 32 to 128 blocks
    return r.pick({959, 960, 961, 1023, 1024, 1025, 1088, 1090, 1100, 2047, 2048, 2049});
}

inline Cfg gen_cfg(Rng & r, Kind k)
{
    Cfg c;
    c.kind = k;
    c.clauses = is_clf(k) ? 4 * r.pick({1, 1, 2, 3, 4, 5, 10}) : 2 * r.pick({1, 1, 2, 3, 5, 8, 20});
    c.nstates = r.pick({1, 2, 3, 5, 10, 100, 100, 126, 127, 128, 129, 1000, 32766, 32767, 32768, 100000});
    c.s = r.pick({1.f, 1.0001f, 1.5f, 2.f, 3.9f, 10.f, 50.f, 1e6f});
    if (r.chance(.04)) c.clauses = is_clf(k) ? 4 * r.pick({25, 32, 33, 64, 100, 129, 250}) : 2 * r.pick({50, 63, 64, 65, 128, 129, 257, 500});
    c.T = r.pick({1, 1, 2, 5, 15, 15, 50, 1000});
    c.weighted = r.chance(.5);
    c.maxw = r.pick({1, 2, 3, 7, 100, 2147483647});
    c.boost = r.chance(.5);
    c.jobs = r.pick({1, 1, 1, 1, 2, 3});
    c.ctype = r.pick({"auto", "auto", "int8", "int16", "int32"});
    c.tile = r.pick({16, 16, 32, 64, 128});
    c.loss = r.pick({"MSE", "MAE", "L1", "L2", "L1+2", "berHu"});
    c.C1 = r.pick({0.f, 0.1f, 0.25f, 0.5f, 1.f});
    c.bm = r.chance(.3);
    c.seed = r.chance(.1) ? unsigned(r.pick({0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu})) : unsigned(r.next());
    return c;
}

// sizes past 16 bits, one at a time, all else small
inline int giant_features(Rng & r) { return r.pick({32767, 32769, 65535, 65536, 65537, 66000, 70001, 131073}); }
// a stored weight (one less than the weight) where integers of some width end
inline uint32_t edge_weight(Rng & r, int64_t top)
{
    return uint32_t(std::min<int64_t>(top, int64_t(r.pick({127, 128, 255, 256, 32767, 65535, 65536, 1 << 20, 1 << 24, 1 << 25, 1 << 30, 2147483644})) + r.range(-2, 2)));
}
inline bool giant_clauses(Rng & r, Cfg & c, double p)
{
    if (!r.chance(p)) return false;
    c.clauses = is_clf(c.kind) ? 4 * r.pick({8191, 8193, 16383, 16385, 32767, 32769}) : 2 * r.pick({32767, 32769, 65535, 65537, 70001, 131073});
    return true;
}

inline Kind gen_kind(Rng & r) { return Kind(r.below(4)); }

inline Row gen_row(Rng & r, int F)
{
    Row x;
    x.v.resize(F);
    int const m = r.below(8);
    double const p = m == 0 ? 0. : m == 1 ? 1. : m == 2 ? .1 : m == 3 ? .9 : .5;
    for (auto & v : x.v) v = r.chance(p);
    x.spare = r.chance(.08) ? r.range(1, 9) : 0;
    return x;
}

inline Rows gen_rows(Rng & r, int n, int F)
{
    Rows X;
    for (int i = 0; i < n; ++i)
        X.push_back(i > 0 && r.chance(.1) ? X[r.below(i)] : gen_row(r, F));
    return X;
}

inline Labels gen_y(Rng & r, Cfg const & c, int n, int L)
{
    Labels y(n);
    for (auto & v : y) v = is_clf(c.kind) ? r.below(L) : r.chance(.2) ? r.pick({0, c.T}) : r.range(0, c.T);
    return y;
}

// random automata with a controlled number of inclusions so that clauses do fire
inline vector<int32_t> gen_ta(Rng & r, int rows, int F, int N, Row const * like)
{
    vector<int32_t> ta(size_t(rows) * F);
    for (int o = 0; o < rows / 2; ++o)
    {
        int const mode = r.below(6);
        for (int b = 0; b < 2; ++b)
        {
            for (int f = 0; f < F; ++f)
            {
                auto ex = [&] { return r.chance(.2) ? -N : r.chance(.3) ? -1 : r.range(-N, -1); };
                auto in = [&] { return r.chance(.2) ? N - 1 : r.chance(.3) ? 0 : r.range(0, N - 1); };
                bool const agrees = like ? (like->v[f] != 0) == (b == 0) : false;
                bool inc;
                switch (mode)
                {
                    case 0: inc = false; break;                          // empty clause
                    case 1: inc = like && agrees && r.chance(.3); break; // fires on like
                    case 2: inc = like && agrees; break;                 // full match
                    case 3: inc = r.chance(1.5 / F); break;
                    case 4: inc = r.chance(.5); break;
                    default: inc = like && agrees && r.chance(.1); break;
                }
                ta[size_t(2 * o + b) * F + f] = inc ? in() : ex();
            }
        }
        if (like && mode == 5 && r.chance(.7)) // exactly one contradiction, anywhere
        {
            int const f = r.chance(.5) ? F - 1 - r.below(std::min(F, 3)) : r.below(F);
            ta[size_t(2 * o + (like->v[f] ? 1 : 0)) * F + f] = r.chance(.5) ? 0 : N - 1;
        }
    }
    return ta;
}

// ------------------------------------------------------------------ reference model
// independent evaluation of a snapshot
struct Ref
{
    // pruned: empty clause does not fire (prediction); otherwise it does (training)
    static bool fires(Snap const & s, int o, Row const & x, bool pruned)
    {
        bool any = false;
        for (int f = 0; f < s.cols; ++f)
        {
            bool const p = s.at(2 * o, f) >= 0, n = s.at(2 * o + 1, f) >= 0, v = x.v[f] != 0;
            any = any || p || n;
            if ((p && !v) || (n && v)) return false;
        }
        return any || !pruned;
    }
    static int64_t weight(Snap const & s, int o) { return s.w.empty() ? 1 : int64_t(s.w[o]) + 1; }
    static int score(Snap const & s, int per_label, int label, Row const & x, int T, bool pruned)
    {
        int64_t v = 0;
        for (int k = 0; k < per_label; ++k)
        {
            int const o = label * per_label + k;
            if (fires(s, o, x, pruned)) v += (k % 2 == 0 ? 1 : -1) * weight(s, o);
        }
        return int(std::clamp<int64_t>(v, -int64_t(T), T));
    }
    static int response(Snap const & s, Row const & x, int T, bool pruned)
    {
        int64_t v = 0;
        for (int o = 0; o < s.rows / 2; ++o)
            if (fires(s, o, x, pruned)) v += weight(s, o);
        return int(std::clamp<int64_t>(v, 0, T));
    }
};

// a whole training problem
struct Prob
{
    Cfg c;
    int F = 1, L = 2;
    Rows X;
    Labels y;
    string str() const { return c.str() + fmt(" F=%d L=%d n=%zu", F, L, X.size()); }
};

inline int gen_labels(Rng & r) { return r.pick({2, 2, 2, 3, 3, 4, 5, 8}); }

inline Prob gen_prob(Rng & r, Kind k, int max_n = 12, bool big = true)
{
    Prob p;
    p.c = gen_cfg(r, k);
    p.F = gen_features(r, big);
    p.L = is_clf(k) ? gen_labels(r) : 2;
    if (r.chance(.003))
    {
        p.c.clauses = is_clf(k) ? 4 : 2;
        int n = r.range(1, std::min(max_n, 4));
        int const m = r.below(max_n >= 8 ? 4 : 3);
        p.L = 2;
        p.F = r.range(1, 3);
        if (m == 0) p.F = giant_features(r);
        else if (m == 1 || (m == 2 && !is_clf(k))) giant_clauses(r, p.c, 1.);
        else if (m == 2) p.L = r.pick({255, 256, 257, 300, 1000, 32767, 32769, 65535, 65537});
        else n = r.pick({32769, 65535, 65536, 65537, 70001});
        p.X = gen_rows(r, n, p.F);
        p.y = gen_y(r, p.c, n, p.L);
        return p;
    }
    // keep the work of one case bounded
    while (int64_t(p.F) * p.c.outputs_per_group() * (is_clf(k) ? p.L : 1) > 40000)
    {
        if (p.L > 2) p.L = 2;
        else if (p.c.clauses > 4) p.c.clauses = 4;
        else p.F = 1025;
    }
    int n = r.range(1, max_n);
    if (max_n >= 8)
    {
        auto work = [&] { return int64_t(n) * p.F * p.c.outputs_per_group() * (is_clf(k) ? p.L : 1); };
        if (is_clf(k) && r.chance(.03)) p.L = r.pick({9, 16, 17, 33, 64, 65, 130, 257});
        while (p.L > 8 && work() > 40000) p.L /= 2;
        if (r.chance(.04)) n = r.pick({r.range(8, 40), 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4099});
        while (n > max_n && work() > 400000) n /= 2;
    }
    p.X = gen_rows(r, n, p.F);
    p.y = gen_y(r, p.c, n, p.L);
    return p;
}

inline string ex_str(int64_t a, int64_t b) { return fmt("%lld vs %lld", (long long)a, (long long)b); }

// every observable answer on X, digested
inline uint64_t answers_digest(Ctx & ctx, Est const & e, Rows const & X, Labels const * y = nullptr)
{
    uint64_t h = 5;
    Labels p;
    must_ok(ctx, e.predict(X, p), "predict");
    for (int v : p) h = mix(h, uint32_t(v));
    if (is_clf(e.kind))
    {
        vector<vector<int>> d;
        must_ok(ctx, e.decision(X, d), "decision_function");
        for (auto & r : d) for (int v : r) h = mix(h, uint32_t(v));
        if (y)
        {
            float a = 0;
            must_ok(ctx, e.evaluate(X, *y, a), "evaluate");
            uint32_t b;
            std::memcpy(&b, &a, 4);
            h = mix(h, b);
        }
    }
    return h;
}

// ------------------------------------------------------------------ main
// Each harness defines: void run_case(Ctx &, Rng &, int64_t case_id);  and optionally finish via hook.
extern void run_case(Ctx & ctx, Rng & rng, int64_t id);

inline bool reuse_data = false; // see est.hpp
inline bool in_team = false;    // see est.hpp

// What the calling program may have set up around the library, and must not matter to it: a locale with
// decimal commas and grouping, OpenMP free to provide smaller teams than asked for, calls made from
// within a parallel region of the program's own.
struct Surroundings
{
    Ctx & ctx;
    bool possible, comma = false, has_comma = false;
    int shift = 0;
    std::locale loc;
    explicit Surroundings(Ctx & c) : ctx(c)
    {
        possible = c.prop != "C07"; // its runtime watches the regions
        if (c.prop == "C05") shift = int(c.extra.size()) * 5; // other ones in each process
        if (c.prop != "C01") // glibc leaks a little when it makes one
        try { loc = std::locale("de_DE.UTF-8"); has_comma = true; } catch (std::runtime_error const &) {}
    }
    void set(int64_t id)
    {
        int const m = int((id * 7 / 5 + shift) % 32); // out of step with what cases are about
        if (!possible) return;
        bool const want = m % 16 == 11 && has_comma;
        if (want != comma) std::locale::global(want ? loc : std::locale::classic());
        comma = want;
        omp_set_dynamic(m % 16 == 7);
        in_team = m % 16 == 3;
        if (id == 0) return;
        if (comma) ctx.count("cases_in_comma_locale");
        if (in_team) ctx.count("cases_within_a_parallel_region");
        if (m % 16 == 7) ctx.count("cases_with_dynamic_teams");
    }
    ~Surroundings() { if (comma) std::locale::global(std::locale::classic()); }
};

inline volatile std::sig_atomic_t stop_asked = 0; // the driver is out of time: finish the case, report, end

inline int harness_main(int argc, char ** argv, std::function<void(Ctx &)> finish = nullptr)
{
    Ctx ctx;
    string logp, progp;
    int64_t from = 0, to = 1;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        string const a = argv[i], v = argv[i + 1];
        if (a == "--seed") ctx.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--from") from = atoll(v.c_str());
        else if (a == "--to") to = atoll(v.c_str());
        else if (a == "--tier") ctx.thorough = v == "thorough";
        else if (a == "--log") logp = v;
        else if (a == "--progress") progp = v;
        else if (a == "--prop") ctx.prop = v;
        else if (a == "--extra") ctx.extra = v;
    }
    ctx.log = logp.empty() ? stdout : fopen(logp.c_str(), "w");
    if (!progp.empty())
    {
        int fd = open(progp.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
        {
            void * m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) ctx.prog = static_cast<Progress *>(m);
        }
        if (fd >= 0) close(fd);
    }
    std::signal(SIGTERM, [](int) { stop_asked = 1; });
    Surroundings around(ctx);
    for (int64_t c = from; c < to && !stop_asked; ++c)
    {
        ctx.cur = c;
        if (ctx.prog) ctx.prog->case_id = c;
        ctx.op("start");
        // not where reads past the end of the data, or its address, are what is watched
        reuse_data = c % 8 >= 4 && ctx.prop != "C01" && ctx.prop != "C05" && &__sanitizer_get_heap_size == nullptr;
        around.set(c);
        Rng rng(ctx.seed, std::hash<string>()(ctx.prop), c);
        try
        {
            run_case(ctx, rng, c);
        }
        catch (Abandon const &)
        {
        }
        catch (std::exception const & ex)
        {
            ctx.violation("uncaught-exception:" + string(typeid(ex).name()), string("exception escaped: ") + ex.what() + " during " + (ctx.prog ? ctx.prog->op : ""));
        }
        ctx.count("cases");
    }
    around.set(0);
    if (ctx.prog) ctx.prog->case_id = -1;
    if (finish) finish(ctx);
    FILE * f = ctx.log;
    fprintf(f, "{\"t\":\"summary\",\"violations\":%d,\"counters\":{", ctx.violations);
    bool first = true;
    for (auto & kv : ctx.counters)
    {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto & s : ctx.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\"outputs\":{");
    first = true;
    for (auto & kv : ctx.outputs) { fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(kv.first).c_str(), jesc(kv.second).c_str()); first = false; }
    fprintf(f, "},\"distinct\":[");
    first = true;
    for (auto h : ctx.distinct) { fprintf(f, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

} // namespace H
