// C17: frequencies of the random choices in training. Every comparison is a Bernstein bound on a sum
// of independent bounded terms at probability 1e-11, so a sound tree does not trip it.
#include "common.hpp"

namespace H
{

static double const LN = 26.0; // ln(2/1e-11)
static double bound(double V, double M = 1) { return M * LN / 3 + std::sqrt(M * LN / 3 * (M * LN / 3) + 2 * LN * std::max(V, 0.)); }

// test here, and pool over all cases in the driver
static bool test(Ctx & ctx, char const * key, double obs, double exp, double V, string const & where, double slack = 0)
{
    ctx.count("tests");
    ctx.count(string("pool_o_") + key, uint64_t(std::llround(std::max(0., obs * 1e3))));
    ctx.count(string("pool_e_") + key, uint64_t(std::llround(exp * 1e3)));
    ctx.count(string("pool_v_") + key, uint64_t(std::llround((V + slack) * 1e3) + 1));
    return ctx.check(std::fabs(obs - exp) <= bound(V) + slack, key, fmt("observed %.3f expected %.3f +- %.3f: ", obs, exp, bound(V) + slack) + where);
}
static void pool(Ctx & ctx, char const * key, double obs, double exp, double V)
{
    ctx.count(string("pool_o_") + key, uint64_t(std::llround(std::max(0., obs * 1e3))));
    ctx.count(string("pool_e_") + key, uint64_t(std::llround(exp * 1e3)));
    ctx.count(string("pool_v_") + key, uint64_t(std::llround(V * 1e3) + 1));
}

static Cfg base(Rng & r, Kind k)
{
    Cfg c = gen_cfg(r, k);
    c.jobs = r.pick({1, 1, 1, 2});
    c.nstates = r.pick({100, 120, 30000, 100000});
    c.maxw = 2147483647;
    c.ctype = "auto";
    return c;
}

static Row rnd_row(Rng & r, int F)
{
    Row x;
    x.v.resize(F);
    for (auto & v : x.v) v = r.chance(.5);
    return x;
}

// share of clauses that get feedback, by score
static void share(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = true;
    c.clauses = 4 * r.pick({2, 25, 100, 250});
    c.T = r.pick({1, 3, 10, 100, 1000, 1000, 123456, 1 << 24, 2147483647});
    int const F = r.range(1, 9), L = r.pick({2, 2, 3});
    int const per = c.outputs_per_group();
    string const hist = "share " + c.str() + fmt(" F=%d L=%d", F, L);
    ctx.op(hist);
    Row const x = rnd_row(r, F);
    auto e0 = must_make(ctx, c);
    must_ok(ctx, e0->fit({x}, {0}, L, 0), "fit");
    Snap const s0 = e0->snap();
    auto e = e0->clone();
    vector<int32_t> const ta(s0.ta.size(), -c.nstates / 2);
    int const steps = 200;
    int const y = r.below(L);
    vector<double> dev(per * 2, 0), dv(per * 2, 0); // per position, own and other
    double own_o = 0, own_e = 0, own_v = 0, oth_o = 0, oth_e = 0, oth_v = 0;
    for (int i = 0; i < steps; ++i)
    {
        vector<uint32_t> w(s0.w.size());
        for (auto & v : w) v = 1 + r.below(3);
        for (int l = 0; l < L; ++l)
        {
            // steer the score by one clause anywhere
            int64_t v = 0;
            for (int q = 0; q < per; ++q) v += (q % 2 ? -1 : 1) * (int64_t(w[l * per + q]) + 1);
            int64_t const want = r.chance(.1) ? (r.chance(.5) ? c.T : -int64_t(c.T))
                : r.chance(.2) ? (r.chance(.5) ? 1 : -1) * (int64_t(c.T) - std::llround(c.T * std::pow(10., -1.3 - 3 * r.unit()))) // nearly sure of it
                : r.range(-c.T, c.T);
            int64_t const d = want - v;
            int q = r.below(per / 2) * 2 + (d < 0);
            int64_t const nw = int64_t(w[l * per + q]) + std::llabs(d);
            w[l * per + q] = uint32_t(std::min<int64_t>(nw, 2147483600));
        }
        e = e->with(ta, w);
        Snap const b = e->snap();
        must_ok(ctx, e->partial_fit({x}, {y}, 2, 1), "partial_fit");
        Snap const a = e->snap();
        for (int l = 0; l < L; ++l)
        {
            if (l != y && L > 2)
            {
                bool any = false;
                for (int q = 0; q < per; ++q) any = any || a.w[l * per + q] != b.w[l * per + q];
                if (!any) continue; // perhaps not the other label: no evidence
                if (per < 100) continue; // that selection would bias small groups
            }
            double const v = Ref::score(b, per, l, x, c.T, false), T = c.T;
            double const p = l == y ? (T - v) / (2 * T) : (T + v) / (2 * T);
            if (l != y && L > 2 && p * per < 40) continue;
            double n = 0;
            for (int q = 0; q < per; ++q)
            {
                bool const fed = a.w[l * per + q] != b.w[l * per + q];
                n += fed;
                if (l == y || L == 2) { dev[(l != y) * per + q] += fed - p; dv[(l != y) * per + q] += p * (1 - p); }
            }
            double const V = per * p * (1 - p);
            if (!ctx.check(std::fabs(n - per * p) <= bound(V) + 1e-3, l == y ? "own-label-share" : "other-label-share",
                fmt("score %.0f: %.0f of %d clauses fed, want %.2f +- %.2f ", v, n, per, per * p, bound(V)) + hist)) return;
            double const rare = std::min(p, 1 - p);
            if (rare > 0 && rare < .025)
            {
                double const m = p < .5 ? n : per - n;
                bool const very = rare < .002;
                pool(ctx, p < .5 ? (very ? "rarest-feedback" : "rare-feedback") : very ? "rarest-no-feedback" : "rare-no-feedback", m, per * rare, V + per * 1e-7);
                ctx.count("rare_feedback_draws", per);
            }
            (l == y ? own_o : oth_o) += n;
            (l == y ? own_e : oth_e) += per * p;
            (l == y ? own_v : oth_v) += V;
        }
    }
    if (!test(ctx, "own-label-share", own_o, own_e, own_v, hist, own_e * 1e-6)) return;
    if (!test(ctx, "other-label-share", oth_o, oth_e, oth_v, hist, oth_e * 1e-6)) return;
    for (int g = 0; g < 2; ++g)
        for (int q = 0; q < per; ++q)
            if (!ctx.check(std::fabs(dev[g * per + q]) <= bound(dv[g * per + q]) + 1e-3, "share-by-clause",
                fmt("clause output %d of the %s label: %+.1f applications off in %d steps ", q, g ? "other" : "own", dev[g * per + q], steps) + hist)) return;
    ctx.count("feedback_draws", uint64_t(own_e + oth_e));
    ctx.count("evaluations", steps);
    ctx.seen(e->snap().model_digest());
    ctx.sample(hist);
}

// forgetting under Type I feedback
static void forgetting(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.clauses = is_clf(k) ? 4 * r.pick({10, 50, 100}) : 2 * r.pick({20, 100, 200});
    c.s = r.pick({1.f, 1.0001f, 1.3f, 2.f, 2.5f, 3.f, 3.9f, 7.f, 10.f, 33.3f, 100.f, 1000.f, 1e5f});
    // some with far more features than any test has, to see the far ends of the range
    bool const wide = r.chance(.06);
    int const F = wide ? r.pick({4097, 10000, 33000, 50000, 65537, 70000}) : r.pick({1, 2, 3, 5, 8, 10, 17, 33, 63, 64, 65, 100, 129});
    if (wide)
    {
        c.clauses = is_clf(k) ? 12 : 6;
        c.s = r.pick({1.3f, 2.f, 3.9f, 10.f, 33.3f});
    }
    bool const firing = r.chance(.5);
    c.weighted = is_clf(k);
    c.T = is_clf(k) ? r.pick({1, 16, 1024}) : 1000000;
    c.loss = "MAE";
    c.bm = false;
    if (!is_clf(k)) c.weighted = false;
    int const per = c.outputs_per_group();
    string const hist = fmt("forgetting firing=%d ", firing) + c.str() + fmt(" F=%d", F);
    ctx.op(hist);
    Row x = rnd_row(r, F);
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit({x}, {0}, 2, 0), "fit");
    Snap const s0 = e->snap();
    int64_t M = 0;
    vector<int64_t> t[2];
    t[0].assign(F, 0);
    t[1].assign(F, 0);
    vector<char> sees[2]; // tosses visible at that automaton in every step
    sees[0].assign(F, 1);
    sees[1].assign(F, 1);
    int const steps = wide ? 12 : 20000 / per < 10 ? 10 : std::min(150, 20000 / per);
    // an example may not change, so that per-feature counts add up
    int const cf = r.below(F);
    for (int i = 0; i < steps; ++i)
    {
        vector<int32_t> ta(s0.ta.size(), -c.nstates / 2);
        vector<uint32_t> w(s0.w.size(), 1);
        int first = 0, stride = 1, count = per; // the clauses that get Type I for sure
        if (is_clf(k)) { w[1] = w[per] = 1000000000u; stride = 2; count = per / 2; }
        int const skip = is_clf(k) ? 1 : -1;
        (void)skip;
        if (!firing)
            for (int o = 0; o < s0.rows / 2; ++o)
                if (!(is_clf(k) && (o == 1 || o == per))) // all but the heavy ones include a contradicting literal
                    ta[size_t(2 * o + (x.v[cf] ? 1 : 0)) * F + cf] = c.nstates / 2;
        e = e->with(ta, w);
        must_ok(ctx, e->partial_fit({x}, {is_clf(k) ? 0 : c.T}, 2, 1), "partial_fit");
        Snap const a = e->snap();
        M += count;
        for (int f = 0; f < F; ++f)
            for (int b = 0; b < 2; ++b)
            {
                bool const agrees = (x.v[f] != 0) == (b == 0);
                int64_t d = 0;
                for (int q = 0, o = first; q < count; ++q, o += stride)
                    d += a.at(2 * o + b, f) - ta[size_t(2 * o + b) * F + f];
                if (firing && agrees)
                {
                    if (c.boost) sees[b][f] = 0;
                    else t[b][f] += count - d;
                }
                else t[b][f] -= d;
            }
        if (!is_clf(k))
        {
            // votes: N or 0 of T=1000000, so N applications, spread over clauses: sums only
        }
    }
    double const v = double(F) / c.s, frac = v - std::floor(v);
    double const slack = M * v * 1e-6 + M * 1e-6;
    for (int b = 0; b < 2; ++b)
    {
        double sum = 0;
        bool all = true;
        for (int f = 0; f < F; ++f)
        {
            if (!sees[b][f]) { all = false; continue; }
            sum += t[b][f];
            double const p = 1 / double(c.s);
            double const V = is_bw(k) && !firing ? M * p : M * p * (1 - p);
            if (!ctx.check(std::fabs(t[b][f] - M * p) <= bound(V) + slack, firing ? "forgetting-by-feature-firing" : "forgetting-by-feature-silent",
                fmt("row %d feature %d: forgotten %lld times of %lld, want %.1f +- %.1f ", b, f, (long long)t[b][f], (long long)M, M * p, bound(V)) + hist)) return;
            if (f == 0) pool(ctx, "forgetting-first-feature", t[b][f], M * p, V + slack);
            if (f == F - 1) pool(ctx, "forgetting-last-feature", t[b][f], M * p, V + slack);
        }
        // by region, and by position within blocks of several sizes
        for (int by : {0, 1, 2, 3})
        {
            if (F < 64) break;
            int const groups = by == 0 ? 16 : by == 1 ? 64 : by == 2 ? 8 : 2;
            vector<double> got(groups, 0), n(groups, 0);
            for (int f = 0; f < F; ++f)
                if (sees[b][f])
                {
                    int const g = by == 0 ? int(int64_t(f) * groups / F) : f % groups;
                    got[g] += t[b][f];
                    n[g] += M;
                }
            for (int g = 0; g < groups; ++g)
            {
                double const p = 1 / double(c.s);
                double const V = n[g] * p * (is_bw(k) && !firing ? 1 : 1 - p);
                // whole and fractional hits: the number of hits itself varies by less than one per row
                double const hitsV = M * frac * (1 - frac) * (n[g] / M / F) * (n[g] / M / F);
                if (!ctx.check(std::fabs(got[g] - n[g] * p) <= bound(V + hitsV) + slack, firing ? "forgetting-by-region-firing" : "forgetting-by-region-silent",
                    fmt("row %d, group %d of %d (%s): forgotten %.0f times of %.0f, want %.1f +- %.1f ", b, g, groups, by ? "by remainder" : "by region",
                        got[g], n[g], n[g] * p, bound(V + hitsV) + slack) + hist)) return;
            }
        }
        if (wide && b == 0) ctx.count("wide_rows", 2 * M);
        if (all && !test(ctx, firing ? (b ? "forgetting-share-firing-negated" : "forgetting-share-firing") : (b ? "forgetting-share-silent-negated" : "forgetting-share-silent"),
            sum, M * v, M * frac * (1 - frac), hist, slack)) return;
    }
    ctx.count("forgetting_rows", 2 * M);
    ctx.count("evaluations", steps);
    ctx.seen(e->snap().model_digest());
    ctx.sample(hist);
}

// choice of the other label
static void other_label(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = true;
    c.boost = true;
    c.s = 1e15f;
    c.T = r.pick({1, 16, 1024});
    c.clauses = 8;
    // some with far more labels than any test has, to see the far ends of the range
    bool const wide = r.chance(.05);
    int const per = 4, L = wide ? r.pick({64, 129, 255, 256, 257, 258, 300, 513, 700}) : r.range(2, 9);
    int const n = wide ? r.pick({1, 3, 20}) : r.pick({1, 10, 300}), E = (wide ? 6000 : 3000) / n;
    if (wide) c.jobs = 1;
    c.nstates = 2 * n * E + 100;
    string const hist = "other label " + c.str() + fmt(" L=%d n=%d epochs=%d", L, n, E);
    ctx.op(hist);
    Rows X;
    Labels y;
    vector<int64_t> own(L, 0);
    for (int i = 0; i < n; ++i)
    {
        Row x;
        x.v.assign(L, 0);
        y.push_back(r.below(L));
        x.v[y.back()] = 1;
        own[y.back()] += E;
        X.push_back(x);
    }
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit(X, y, L, 0), "fit");
    Snap const s0 = e->snap();
    vector<int32_t> ta(s0.ta.size(), -c.nstates);
    vector<uint32_t> w(s0.w.size(), 1000000u);
    for (int l = 0; l < L; ++l)
    {
        ta[size_t(2 * (l * per + 0) + 1) * L + l] = 0;
        ta[size_t(2 * (l * per + 1) + 0) * L + l] = 0;
        w[l * per] = w[l * per + 1] = 1500000000u;
    }
    e = e->with(ta, w);
    if (wide || r.chance(.5)) must_ok(ctx, e->partial_fit(X, y, L, E), "partial_fit");
    else for (int i = 0; i < E; ++i) must_ok(ctx, e->partial_fit(X, y, L, 1), "partial_fit");
    Snap const s = e->snap();
    for (int m = 0; m < L; ++m)
        for (int l = 0; l < L; ++l)
        {
            if (l == m) continue;
            double const got = double(s.at(2 * (l * per + 2) + 1, m)) + c.nstates - own[l];
            double const p = 1. / (L - 1), V = own[m] * p * (1 - p);
            if (!ctx.check(std::fabs(got - own[m] * p) <= bound(V) + 1e-6 * own[m], "other-label-uniform",
                fmt("examples of label %d used %.0f times against label %d, want %.1f +- %.1f ", m, got, l, own[m] * p, bound(V)) + hist)) return;
            if (L > 2)
            {
                int const step = (l - m + L) % L;
                if (step == 1) pool(ctx, "other-label-next", got, own[m] * p, V);
                if (step == L - 1) pool(ctx, "other-label-previous", got, own[m] * p, V);
            }
        }
    if (wide)
    {
        // too many labels for pairs to tell much: by distance from the own label, and by label
        for (int by = 0; by < 2; ++by)
            for (int parts : {2, 3, 8, 16, -2, -3, -8, -16})
            {
                int const g = std::abs(parts);
                vector<double> got(g, 0), exp(g, 0);
                double total = 0;
                for (int m = 0; m < L; ++m)
                {
                    if (!own[m]) continue;
                    total += own[m];
                    for (int l = 0; l < L; ++l)
                    {
                        if (l == m) continue;
                        int const at = by ? l : (l - m + L) % L - 1, of = by ? L : L - 1;
                        int const i = parts > 0 ? int(int64_t(at) * g / of) : at % g;
                        got[i] += double(s.at(2 * (l * per + 2) + 1, m)) + c.nstates - own[l];
                        exp[i] += double(own[m]) / (L - 1);
                    }
                }
                for (int i = 0; i < g; ++i)
                    if (!ctx.check(std::fabs(got[i] - exp[i]) <= bound(exp[i]) + 1e-6 * total, "other-label-uniform-far",
                        fmt("group %d of %d, %s %s: %.0f of %.0f other labels, want %.1f +- %.1f ", i, g, by ? "by label" : "by distance",
                            parts > 0 ? "in order" : "by remainder", got[i], total, exp[i], bound(exp[i])) + hist)) return;
            }
        ctx.count("far_labels_drawn", uint64_t(n) * E);
    }
    ctx.count("other_labels_drawn", uint64_t(n) * E);
    ctx.count("evaluations", E);
    ctx.seen(s.model_digest());
    ctx.sample(hist);
}

static void initial(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.clauses = 4 * r.pick({5, 50, 200});
    int F = r.pick({1, 2, 7, 64, 65, 200});
    bool const wide = r.chance(.08);
    if (wide)
    {
        c.clauses = 4;
        F = r.pick({1025, 4097, 5000, 8193, 10000, 33000, 66000, 70001});
    }
    int const L = is_clf(k) && !wide ? r.pick({2, 3}) : 2;
    string const hist = "initial " + c.str() + fmt(" F=%d L=%d", F, L);
    ctx.op(hist);
    Row const x = rnd_row(r, F);
    auto e = must_make(ctx, c);
    if (r.chance(.3)) must_ok(ctx, e->fit({x}, {1}, L, 2), "fit");
    must_ok(ctx, e->fit({x}, {1}, L, 0), "fit");
    Snap const s = e->snap();
    double inc[2] = {0, 0};
    vector<double> col(2 * F, 0);
    for (int q = 0; q < s.rows; ++q)
    {
        double row = 0;
        for (int f = 0; f < F; ++f)
        {
            bool const i = s.at(q, f) >= 0;
            inc[q % 2] += i;
            col[(q % 2) * F + f] += i;
            row += i;
        }
        if (!ctx.check(std::fabs(row - F * .5) <= bound(F * .25), "initial-balance-row", fmt("row %d: %.0f of %d included ", q, row, F) + hist)) return;
        if (!wide) continue;
        // neighbours and blocks say nothing of each other
        for (int lag : {1, 2, 8, 31, 32, 64, 512, 624, 1024, 4096, 8192, 32768, 65536})
        {
            if (F < lag + 200) break;
            double same = 0;
            for (int f = lag; f < F; ++f) same += (s.at(q, f) >= 0) == (s.at(q, f - lag) >= 0);
            double const m = F - lag;
            if (!ctx.check(std::fabs(same - m * .5) <= bound(m * .25), "initial-lag", fmt("row %d: features %d apart alike %.0f of %.0f times ", q, lag, same, m) + hist)) return;
        }
        for (int f0 = 0; f0 + 256 <= F; f0 += 256)
        {
            double in = 0;
            for (int f = f0; f < f0 + 256; ++f) in += s.at(q, f) >= 0;
            if (!ctx.check(std::fabs(in - 128) <= bound(64), "initial-balance-block", fmt("row %d, features from %d: %.0f of 256 included ", q, f0, in) + hist)) return;
        }
        // nor do rows
        if (q > 0)
        {
            double same = 0;
            for (int f = 0; f < F; ++f) same += (s.at(q, f) >= 0) == (s.at(q - 1, f) >= 0);
            if (!ctx.check(std::fabs(same - F * .5) <= bound(F * .25), "initial-rows-alike", fmt("rows %d and %d alike in %.0f of %d ", q, q - 1, same, F) + hist)) return;
        }
        ctx.count("wide_initial_rows");
    }
    double const n = double(s.rows) / 2 * F;
    for (int b = 0; b < 2; ++b)
    {
        if (!test(ctx, b ? "initial-balance-negated" : "initial-balance", inc[b], n / 2, n / 4, hist)) return;
        for (int f = 0; f < F; ++f)
            if (!ctx.check(std::fabs(col[b * F + f] - s.rows / 4.) <= bound(s.rows / 8.), "initial-balance-feature",
                fmt("feature %d: %.0f of %d included ", f, col[b * F + f], s.rows / 2) + hist)) return;
    }
    ctx.count("initial_states", s.ta.size());
    ctx.count("evaluations");
    ctx.seen(s.model_digest());
    ctx.sample(hist);
}

// regressors: where feedback falls and how much of it
static void regressor(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = true;
    c.T = r.pick({100000, 1000000});
    c.bm = r.chance(.5);
    int const N = c.bm ? r.pick({50, 100, 200}) : r.pick({1, 2, 3, 5, 20, 50});
    c.clauses = 2 * N;
    c.loss = r.pick({"MAE", "MSE"});
    int const F = r.range(1, 5);
    int steps = c.bm ? 600 : 400;
    double P;
    if (c.bm) P = .1 + .8 * r.unit();
    else if (r.chance(.25)) P = .499 / N * std::pow(10., -4 * r.unit()); // rarely any feedback at all
    else P = r.chance(.6) ? .499 / N * r.unit() : r.unit();
    while (c.bm && N * P * (1 - P) < 8) P = .1 + .8 * r.unit();
    bool const up = r.chance(.5);
    if (!c.bm && N * P < .03) steps = 1500;
    Row const x = rnd_row(r, F);
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit({x}, {0}, 2, 0), "fit");
    Snap const s0 = e->snap();
    vector<int32_t> const ta(s0.ta.size(), -c.nstates / 2 - 1);
    // response 0.. : err = votes - y; votes either small (then y above) or T (then y below)
    double const dist = (c.loss == "MAE" ? P : std::sqrt(P)) * c.T;
    vector<uint32_t> w(N, up ? 500u : uint32_t(2 * (c.T / N) + 1000));
    int64_t votes = 0;
    for (auto v : w) votes += int64_t(v) + 1;
    votes = std::min<int64_t>(votes, c.T);
    int const y = int(std::clamp<int64_t>(up ? votes + std::llround(dist) : votes - std::llround(dist), 0, c.T));
    double const rel = std::fabs(double(votes - y)) / c.T;
    P = c.loss == "MAE" ? rel : rel * rel;
    string const hist = fmt("regressor P=%.6f N=%d response %lld target %d ", P, N, (long long)votes, y) + c.str();
    ctx.op(hist);
    vector<double> by(N, 0);
    double total = 0, z = 0, z2 = 0;
    double const V = N * P * (1 - P), sd = std::sqrt(std::max(V, 1e-9));
    for (int i = 0; i < steps; ++i)
    {
        e = e->with(ta, w);
        must_ok(ctx, e->partial_fit({x}, {y}, 2, 1), "partial_fit");
        Snap const a = e->snap();
        int64_t h = 0;
        for (int o = 0; o < N; ++o)
        {
            int64_t const m = std::llabs(int64_t(a.w[o]) - int64_t(w[o]));
            by[o] += m;
            h += m;
        }
        total += h;
        double const q = (h - N * P) / sd;
        z += q;
        z2 += q * q;
    }
    if (total > 0)
        for (int o = 0; o < N; ++o)
        {
            double const p = 1. / N, v = total * p * (1 - p);
            if (!ctx.check(std::fabs(by[o] - total * p) <= bound(v) + 1e-6 * total, "regressor-uniform-over-clauses",
                fmt("clause output %d got %.0f of %.0f applications, want %.1f +- %.1f ", o, by[o], total, total * p, bound(v)) + hist)) return;
            if (o == 0) pool(ctx, "regressor-first-clause", by[o], total * p, v);
            if (o == N - 1) pool(ctx, "regressor-last-clause", by[o], total * p, v);
        }
    if (!c.bm)
    {
        double const np = N * P;
        if (np < .4999)
        {
            if (!test(ctx, np < .003 ? "regressor-rarest-applications" : np < .03 ? "regressor-rarer-applications" : "regressor-rare-applications", total, steps * np, steps * np * (1 - np), hist, 1e-6 * steps)) return;
            ctx.count("rare_applications_drawn", steps);
        }
        ctx.count("applications", uint64_t(total));
    }
    else if (V >= 8)
    {
        // judged over all cases by the driver; here only coarsely
        double const m = z / steps, var = z2 / steps - m * m;
        if (!ctx.check(std::fabs(m) < .06 + 7 / std::sqrt(steps), "binomial-mean", fmt("mean is off by %.3f standard deviations ", m) + hist)) return;
        if (!ctx.check(var > .45 && var < 1.7, "binomial-spread", fmt("variance is %.3f of the binomial's ", var) + hist)) return;
        ctx.count("bin_n", steps);
        ctx.count("bin_s", uint64_t(std::llround((z + 100. * steps) * 1e3)));
        ctx.count("bin_q", uint64_t(std::llround(z2 * 1e3)));
        ctx.count("applications", uint64_t(total));
    }
    ctx.count("evaluations", steps);
    ctx.seen(mix(e->snap().model_digest(), uint64_t(total)));
    ctx.sample(hist);
}

// the same with more clauses than fit 16 bits: by region, by remainder, and how many were hit at all
static void wide_regressor(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = true;
    c.bm = r.chance(.2);
    c.loss = "MAE";
    c.T = 1000000;
    int const N = r.pick({4097, 33000, 65537, 70000, 100000, 131072, 200001});
    c.clauses = 2 * N;
    int const F = r.range(1, 2);
    Row const x = rnd_row(r, F);
    bool const up = r.chance(.5);
    uint32_t const w0 = up ? 0 : 1000;
    int64_t const votes = std::min<int64_t>(c.T, int64_t(N) * (w0 + 1));
    double const P = .3 + .6 * r.unit();
    int const y = int(std::clamp<double>(up ? votes + P * c.T : votes - P * c.T, 0, c.T));
    int const steps = 6;
    string const hist = fmt("regressor P=%.6f N=%d response %lld target %d ", std::fabs(double(votes - y)) / c.T, N, (long long)votes, y) + c.str();
    ctx.op(hist);
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit({x}, {0}, 2, 0), "fit");
    vector<int32_t> const ta(e->snap().ta.size(), -c.nstates / 2 - 1);
    vector<uint32_t> const w(N, w0);
    vector<double> by(N, 0);
    double total = 0;
    for (int i = 0; i < steps; ++i)
    {
        e = e->with(ta, w);
        must_ok(ctx, e->partial_fit({x}, {y}, 2, 1), "partial_fit");
        Snap const a = e->snap();
        double h = 0, hit = 0;
        for (int o = 0; o < N; ++o)
        {
            int64_t const m = up ? int64_t(a.w[o]) - w0 : int64_t(w0) - a.w[o];
            by[o] += m;
            h += m;
            hit += m != 0;
        }
        total += h;
        // clauses never hit: negatively associated, the bound for independent ones is generous
        double const miss = std::exp(h * std::log1p(-1. / N));
        if (!ctx.check(std::fabs(hit - N * (1 - miss)) <= bound(N * miss * (1 - miss)), "regressor-clauses-hit",
            fmt("%.0f applications hit %.0f of %d clauses, want %.0f +- %.0f ", h, hit, N, N * (1 - miss), bound(N * miss * (1 - miss))) + hist)) return;
    }
    for (int parts : {2, 3, 16, 61, -2, -3, -8, -16, -256})
    {
        int const g = std::abs(parts);
        vector<double> got(g, 0), n(g, 0);
        for (int o = 0; o < N; ++o)
        {
            int const i = parts > 0 ? int(int64_t(o) * g / N) : o % g;
            got[i] += by[o];
            ++n[i];
        }
        for (int i = 0; i < g; ++i)
        {
            double const p = n[i] / N, v = total * p * (1 - p);
            if (!ctx.check(std::fabs(got[i] - total * p) <= bound(v) + 1e-4 * total * p, "regressor-uniform-far",
                fmt("group %d of %d (%s): %.0f of %.0f applications, want %.1f +- %.1f ", i, g, parts > 0 ? "in order" : "by remainder",
                    got[i], total, total * p, bound(v) + 1e-4 * total * p) + hist)) return;
        }
    }
    ctx.count("far_applications", uint64_t(total));
    ctx.count("evaluations", steps);
    ctx.seen(e->snap().model_digest());
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const clf = id % 2 ? CB : CC, reg = id % 2 ? RB : RC;
    switch ((id / 2) % 7)
    {
        case 0: share(ctx, r, clf); break;
        case 1: forgetting(ctx, r, clf); break;
        case 2: forgetting(ctx, r, reg); break;
        case 3: other_label(ctx, r, clf); break;
        case 4: initial(ctx, r, Kind(r.below(4))); break;
        default: r.chance(.03) ? wide_regressor(ctx, r, reg) : regressor(ctx, r, reg); break;
    }
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
