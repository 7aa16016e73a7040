// C16: the estimators learn. Accuracy on unseen noiseless data, thresholds with a wide margin.
#include "common.hpp"

namespace H
{

static Rows random_rows(Rng & r, int n, int F)
{
    Rows X(n);
    for (auto & x : X)
    {
        x.v.resize(F);
        for (auto & v : x.v) v = r.chance(.5);
    }
    return X;
}

static double accuracy(Ctx & ctx, Est & e, Rows const & X, Labels const & y)
{
    Labels p;
    must_ok(ctx, e.predict(X, p), "predict");
    double ok = 0;
    for (size_t i = 0; i < y.size(); ++i) ok += p[i] == y[i];
    return ok / y.size();
}

static double mean_error(Ctx & ctx, Est & e, Rows const & X, Labels const & y)
{
    Labels p;
    must_ok(ctx, e.predict(X, p), "predict");
    double s = 0;
    for (size_t i = 0; i < y.size(); ++i) s += std::abs(p[i] - y[i]);
    return s / y.size();
}

struct Task
{
    Rows X, T;   // training, test
    Labels y, t;
    int L = 2;
    Cfg c;
    unsigned epochs = 0;
    string name;
    double chance = 0;
};

static Cfg common(Rng & r, Kind k)
{
    Cfg c;
    c.kind = k;
    c.seed = unsigned(r.next());
    c.jobs = r.chance(.1) ? 2 : 1;
    c.weighted = r.chance(.5);
    c.boost = r.chance(.5);
    c.nstates = r.pick({50, 100, 127, 200});
    c.tile = r.pick({16, 32, 64, 128});
    c.ctype = r.pick({"auto", "int8", "int16", "int32"});
    return c;
}

static Task xor_task(Rng & r, Kind k)
{
    Task t;
    t.c = common(r, k);
    t.c.clauses = 4 * r.range(10, 15);
    t.c.T = 15;
    t.c.s = r.pick({3.f, 3.9f});
    int const F = r.chance(.3) ? r.range(2, 6) : r.chance(.7) ? r.range(7, 30) : r.range(31, 50);
    int const a = r.below(F);
    int b = r.below(F - 1);
    if (b >= a) ++b;
    int const n = 2500;
    double const noise = F > 30 ? .1 : r.pick({0., .1, .2});
    t.X = random_rows(r, n, F);
    t.T = random_rows(r, 400, F);
    auto f = [&](Row const & x) { return int(x.v[a] != x.v[b]); };
    for (auto & x : t.X) t.y.push_back(r.chance(noise) ? !f(x) : f(x));
    for (auto & x : t.T) t.t.push_back(f(x));
    t.epochs = 30;
    t.name = F > 30 ? "xor_many_distractors" : F > 6 ? "xor_distractors" : "xor";
    t.chance = .5;
    return t;
}

static Task classes_task(Rng & r, Kind k)
{
    Task t;
    t.c = common(r, k);
    t.c.clauses = 4 * r.range(8, 14);
    t.c.T = r.pick({10, 15});
    t.c.s = r.pick({3.f, 5.f});
    t.L = r.range(3, 7);
    int const F = r.pick({16, 24, 48, 64, 65, 80});
    // every label has its own pattern on eight to twelve features, the rest is random
    vector<int> perm(F);
    std::iota(perm.begin(), perm.end(), 0);
    for (int i = F - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
    int const m = r.range(10, 12);
    vector<vector<char>> pat;
    while (int(pat.size()) < t.L)
    {
        vector<char> q(m);
        for (auto & v : q) v = r.chance(.5);
        bool far = true;
        for (auto & o : pat)
        {
            int d = 0;
            for (int i = 0; i < m; ++i) d += o[i] != q[i];
            far = far && d >= 4;
        }
        if (far) pat.push_back(q);
    }
    auto make = [&](Rows & X, Labels & y, int n, double flip, double noise)
    {
        X = random_rows(r, n, F);
        for (auto & x : X)
        {
            int const l = r.below(t.L);
            for (int i = 0; i < m; ++i) x.v[perm[i]] = pat[l][i] ^ r.chance(flip);
            y.push_back(r.chance(noise) ? r.below(t.L) : l);
        }
    };
    make(t.X, t.y, 800, .05, .1);
    make(t.T, t.t, 400, 0, 0);
    t.epochs = 15;
    t.name = "classes";
    t.chance = 1. / t.L;
    return t;
}

static Task linear_task(Rng & r, Kind k)
{
    Task t;
    t.c = common(r, k);
    t.c.clauses = 2 * r.range(150, 250);
    t.c.T = t.c.weighted ? r.pick({50, 100, 200}) : r.pick({30, 50, 60});
    t.c.s = r.pick({2.f, 2.5f, 3.f});
    t.c.loss = r.pick({"MSE", "MAE", "L1", "L2", "L1+2", "berHu"});
    t.c.C1 = r.pick({.1f, .25f, .5f});
    t.c.bm = r.chance(.4);
    int const m = r.range(3, 5), F = m + r.pick({0, 2, 5, 8});
    vector<int> perm(F);
    std::iota(perm.begin(), perm.end(), 0);
    for (int i = F - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
    vector<int> w(m);
    int sum = 0;
    for (auto & v : w) sum += v = r.range(1, 4);
    auto f = [&](Row const & x)
    {
        int s = 0;
        for (int i = 0; i < m; ++i) s += x.v[perm[i]] ? w[i] : 0;
        return int(std::lround(double(s) * t.c.T / sum));
    };
    t.X = random_rows(r, 800, F);
    t.T = random_rows(r, 400, F);
    for (auto & x : t.X) t.y.push_back(std::clamp(f(x) + int(r.chance(.2) ? r.range(-t.c.T / 20, t.c.T / 20) : 0), 0, t.c.T));
    for (auto & x : t.T) t.t.push_back(f(x));
    t.epochs = 30;
    t.name = "linear_" + t.c.loss + (t.c.bm ? "_binomial" : "");
    return t;
}

// a small problem with much noise, seen for hundreds of passes: what has been learned must not wear off
static void long_run(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = common(r, k);
    c.clauses = 4 * r.range(5, 7);
    c.T = 15;
    c.s = r.pick({3.f, 3.9f});
    c.weighted = c.boost = false;
    int const F = r.range(4, 8), n = 1000;
    unsigned const epochs = r.pick({300, 500, 700});
    double const noise = r.pick({.2, .25});
    Rows const X = random_rows(r, n, F), Z = random_rows(r, 300, F);
    Labels y, z;
    for (auto & x : X) y.push_back((x.v[0] != x.v[1]) != r.chance(noise));
    for (auto & x : Z) z.push_back(x.v[0] != x.v[1]);
    string const str = fmt("long xor F=%d noise %g epochs=%u ", F, noise, epochs) + c.str();
    ctx.op(str);
    auto e = must_make(ctx, c);
    if (r.chance(.5)) must_ok(ctx, e->fit(X, y, 2, epochs), "fit");
    else { must_ok(ctx, e->fit(X, y, 2, 20), "fit"); must_ok(ctx, e->partial_fit(X, y, 2, epochs), "partial_fit"); }
    double const s = 2 * accuracy(ctx, *e, Z, z) - 1;
    ctx.check(s >= .85, "learned-model-wears-off", fmt("skill %.3f: ", s) + str);
    ctx.count("long_runs");
}

// the same for a linear response
static void long_regression(Ctx & ctx, Rng & r, Kind k, int64_t id)
{
    Cfg c = common(r, k);
    c.clauses = 2 * r.range(60, 100);
    c.weighted = false;
    c.T = r.pick({30, 40, 50});
    c.s = r.pick({2.f, 2.5f, 3.f});
    c.loss = r.pick({"MSE", "L2", "MAE", "L1", "L1+2", "berHu"});
    c.C1 = r.pick({.1f, .25f, .5f});
    c.bm = r.chance(.3);
    int const m = r.range(3, 4), F = m + r.below(3), n = 300;
    unsigned const epochs = r.pick({200, 300, 400});
    Rows const X = random_rows(r, n, F), Z = random_rows(r, 200, F);
    vector<int> w(m);
    int sum = 0;
    for (auto & v : w) sum += v = r.range(1, 4);
    auto f = [&](Row const & x)
    {
        int q = 0;
        for (int i = 0; i < m; ++i) q += x.v[i] ? w[i] : 0;
        return int(std::lround(double(q) * c.T / sum));
    };
    Labels y, z;
    for (auto & x : X) y.push_back(f(x));
    for (auto & x : Z) z.push_back(f(x));
    double const mean = std::accumulate(z.begin(), z.end(), 0.) / z.size();
    double base = 0;
    for (int v : z) base += std::fabs(v - mean) / z.size();
    string const str = fmt("long linear F=%d epochs=%u ", F, epochs) + c.str();
    ctx.op(str);
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit(X, y, 2, 30), "fit");
    double const s1 = 1 - mean_error(ctx, *e, Z, z) / base;
    must_ok(ctx, e->partial_fit(X, y, 2, epochs), "partial_fit");
    double const s2 = 1 - mean_error(ctx, *e, Z, z) / base;
    ctx.count("long_regressions");
    ctx.check(s1 >= -.2 && s2 >= -.2, "learned-model-wears-off", fmt("skill %.3f, after long training %.3f: ", s1, s2) + str);
    ctx.outputs[fmt("l%lld", (long long)id)] = string("long-linear") + (is_bw(k) ? "_bitwise" : "_classic") + fmt(" %.4f %.4f", s1, s2);
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    Task t = is_clf(k) ? (id / 4 % 3 == 2 ? classes_task(r, k) : xor_task(r, k)) : linear_task(r, k);
    string const str = t.name + fmt(" F=%zu L=%d n=%zu epochs=%u ", t.X[0].v.size(), t.L, t.X.size(), t.epochs) + t.c.str();
    ctx.op(str);
    auto e = must_make(ctx, t.c);
    double base = 0;
    if (!is_clf(k))
    {
        double const mean = std::accumulate(t.t.begin(), t.t.end(), 0.) / t.t.size();
        for (int v : t.t) base += std::fabs(v - mean) / t.t.size();
    }
    // skill: 0 is chance (or the mean response), 1 is perfect
    auto skill = [&] { return is_clf(k) ? (accuracy(ctx, *e, t.T, t.t) - t.chance) / (1 - t.chance) : 1 - mean_error(ctx, *e, t.T, t.t) / base; };
    double const s0 = [&] { must_ok(ctx, e->fit(t.X, t.y, t.L, 0), "fit"); return skill(); }();
    if (r.chance(.5)) must_ok(ctx, e->fit(t.X, t.y, t.L, t.epochs), "fit");
    else
        for (unsigned left = t.epochs; left;)
        {
            unsigned const n = std::min(left, unsigned(r.range(1, 10)));
            must_ok(ctx, e->partial_fit(t.X, t.y, t.L, n), "partial_fit");
            left -= n;
        }
    double const s1 = skill();
    double s2 = s1;
    if (id / 12 % 3 == 0)
    {
        ctx.op("more of " + str);
        must_ok(ctx, e->partial_fit(t.X, t.y, t.L, 2 * t.epochs), "partial_fit");
        s2 = skill();
        ctx.count("trained_on");
    }
    bool const firm = t.name == "classes" || ((t.name == "xor" || t.name == "xor_distractors") && !t.c.weighted && !t.c.boost);
    double s3 = s2;
    if (firm && id / 12 % 30 == 3)
    {
        // hundreds of passes, in one call
        ctx.op("much more of " + str);
        must_ok(ctx, e->partial_fit(t.X, t.y, t.L, r.pick({150, 300, 600})), "partial_fit");
        s3 = skill();
        ctx.count("trained_for_long");
    }
    string const v = t.name + (is_clf(k) ? fmt("%s%s", t.c.weighted ? "_weighted" : "", t.c.boost ? "_boosted" : "") : t.c.weighted ? "_weighted" : "") + (is_bw(k) ? "_bitwise" : "_classic");
    // Families in which every single run of the calibration (8000 runs of another seed) did well get a floor per run
    // with a wide margin; in the others (weights, distractors under boosting, linear losses) single runs scatter, and
    // the mean over runs decides (props.py).
    double const floor = t.name == "classes" ? (t.c.weighted ? .4 : .8)
        : t.name == "xor" ? (t.c.weighted ? -.6 : .8)
        : t.name == "xor_distractors" ? (t.c.weighted || t.c.boost ? 0 : .5)
        : t.name == "xor_many_distractors" ? (t.c.weighted || t.c.boost ? -.3 : .4)
        : -.5;
    ctx.check(s1 >= floor, "does-not-learn", fmt("skill %.3f, untrained %.3f: ", s1, s0) + str);
    ctx.check(s2 >= floor, "learned-model-collapses", fmt("skill %.3f, before %.3f: ", s2, s1) + str);
    ctx.check(s3 >= floor, "learned-model-collapses", fmt("skill %.3f after long training, before %.3f: ", s3, s2) + str);
    ctx.outputs[fmt("s%lld", (long long)id)] = v + fmt(" %.4f %.4f", s1, s2);
    ctx.seen(e->snap().model_digest());
    ctx.count("models_trained");
    ctx.count("evaluations");
    ctx.sample(fmt("skill %.3f ", s1) + str);
    if (is_clf(k) && id / 12 % 8 == 5) long_run(ctx, r, k);
    if (!is_clf(k) && id / 12 % 4 == 2) long_regression(ctx, r, k, id);
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
