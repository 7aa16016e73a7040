// The legality relation of Tsetlin machine feedback on one clause, from the properties C11 and C12:
// could `after` have come from `before` by m applications of Type I (type=1) or Type II (type=2)
// feedback to clause output o on example x, with the given (training-mode) clause output?
#pragma once
#include "common.hpp"

namespace H
{

struct Share { int lo, hi; }; // possible numbers of tosses per row: F/s rounded down or up

inline Share toss_share(int F, float s)
{
    double const v = double(F) / double(s);
    int e;
    bool const exact = std::frexp(s, &e) == .5f; // a power of two
    double const tol = exact ? 0 : 1e-5 * (1 + v);
    return {std::max(0, int(std::floor(v - tol))), std::min(F, int(std::ceil(v + tol)))};
}

// "" when legal, else the first thing that is not
inline string illegal(Snap const & b, Snap const & a, Cfg const & c, int o, Row const & x, bool out, int type, int64_t m)
{
    int const F = b.cols, N = c.nstates;
    // weight
    if (!b.w.empty())
    {
        int64_t w = int64_t(b.w[o]) + 1;
        if (type == 1 && out) w = std::min<int64_t>(w + m, std::max<int64_t>(w, c.maxw));
        if (type == 2 && out) w = std::max<int64_t>(w - m, 1);
        if (int64_t(a.w[o]) + 1 != w)
            return fmt("weight of output %d: %lld -> %lld, want %lld", o, (long long)b.w[o] + 1, (long long)a.w[o] + 1, (long long)w);
    }
    Share const sh = toss_share(F, c.s);
    for (int row = 0; row < 2; ++row)
    {
        int64_t tlo = 0, thi = 0; // how many tosses the row shows
        int unseen = 0; // automata on which tosses leave no trace
        for (int f = 0; f < F; ++f)
        {
            int const r = 2 * o + row;
            int64_t const s0 = b.at(r, f), s1 = a.at(r, f), d = s1 - s0;
            bool const agrees = (x.v[f] != 0) == (row == 0); // the literal is true in x
            auto bad = [&](char const * why)
            {
                return fmt("output %d %s row, feature %d (x=%d, clause output %d, %lld x type %d): state %lld -> %lld: %s", o,
                    row ? "negated" : "plain", f, x.v[f] != 0, int(out), (long long)m, type, (long long)s0, (long long)s1, why);
            };
            if (m == 0 || (type == 2 && !out))
            {
                if (d != 0) return bad("must not change");
                continue;
            }
            if (type == 2)
            {
                int64_t const want = !agrees && s0 < 0 ? std::min<int64_t>(0, s0 + m) : s0;
                if (s1 != want) return bad("not what Type II prescribes");
                continue;
            }
            int64_t const most = is_bw(c.kind) && !out ? m * sh.hi : m; // tosses one automaton can get
            if (out && agrees)
            {
                int64_t const room = N - 1 - s0;
                if (c.boost)
                {
                    if (d != std::min(m, room)) return bad("boosted: must be raised");
                    ++unseen;
                    continue;
                }
                if (d < 0 || d > m) return bad("must move towards the example");
                int64_t const t = m - d;
                tlo += d < room ? t : 0;
                thi += t;
                continue;
            }
            // may only be forgotten
            if (d > 0) return bad("must not be raised");
            int64_t const room = s0 + N;
            if (-d > most) return bad("lowered too much");
            tlo += -d;
            thi += -d < room ? -d : std::max(most, -d);
        }
        if (m == 0 || type == 2) continue;
        int64_t const lo = m * std::max(0, sh.lo - unseen), hi = m * sh.hi;
        if (thi < lo || tlo > hi)
            return fmt("output %d row %d: forgetting of %lld..%lld automata, want %lld..%lld (clause output %d, %lld x type I, boost %d)", o, row,
                (long long)tlo, (long long)thi, (long long)lo, (long long)hi, int(out), (long long)m, int(c.boost));
    }
    return "";
}

inline bool clause_changed(Snap const & b, Snap const & a, int o)
{
    if (!b.w.empty() && b.w[o] != a.w[o]) return true;
    for (int r = 2 * o; r < 2 * o + 2; ++r)
        if (!std::equal(b.ta.begin() + size_t(r) * b.cols, b.ta.begin() + size_t(r + 1) * b.cols, a.ta.begin() + size_t(r) * b.cols))
            return true;
    return false;
}

// include bits of bitwise models must follow, everything else must keep its shape
inline string frame_broken(Snap const & b, Snap const & a)
{
    if (a.rows != b.rows || a.cols != b.cols || a.w.size() != b.w.size()) return "shape of the model changed";
    if (a.width != b.width) return "width of automata changed";
    if (a.has_pol)
        for (size_t i = 0; i < a.ta.size(); ++i)
            if (a.pol[i] != (a.ta[i] >= 0)) return fmt("include bit of row %zu feature %zu does not follow its state %d -> %d", i / a.cols, i % a.cols, b.ta[i], a.ta[i]);
    return "";
}

} // namespace H
