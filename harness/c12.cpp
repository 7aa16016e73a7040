// C12: single regressor training steps: direction, legality per clause and number of feedback
// applications against the configured loss, computed independently.
#include "step.hpp"

namespace H
{

static double loss_of(Cfg const & c, double x)
{
    double const a = std::fabs(x), C1 = c.C1;
    if (c.loss == "MSE" || c.loss == "L2") return a * a;
    if (c.loss == "MAE" || c.loss == "L1") return a;
    if (c.loss == "L1+2") return C1 * a + (1 - C1) * a * a;
    return a <= C1 ? a : a * a - C1 * C1 + C1; // berHu
}

struct Hits { int64_t lo, hi; bool exact; };

static Hits expected(Cfg const & c, int err)
{
    int const N = c.outputs_per_group();
    double const P = std::clamp(loss_of(c, double(err) / c.T), 0., 1.);
    if (err == 0 && P == 0 && !c.bm) return {0, 0, true};
    if (c.bm)
    {
        // a binomial's range; P of 0 or 1 leave no choice
        double const tol = 1e-6;
        if (P < tol) return {0, P == 0 ? 0 : N, P == 0};
        if (P > 1 - tol) return {P == 1 ? N : 0, N, P == 1};
        return {0, N, false};
    }
    double const v = N * P, tol = 1e-5 * (1 + v);
    if (v < .5 - tol) return {0, v <= 0 ? 0 : 1, false};
    if (v < .5 + tol) return {0, 1, false};
    return {std::llround(v - tol), std::min<int64_t>(N, std::llround(v + tol)), true};
}

// exact number of applications is visible: all clauses fire (training counts an empty clause as
// firing), weights have room
static bool one_step(Ctx & ctx, Est & e, Prob const & p, Row const & x, int y, string const & hist)
{
    Snap const b = e.snap();
    Cfg const & c = p.c;
    int const N = c.outputs_per_group();
    int const v = Ref::response(b, x, c.T, false);
    int const err = v - y;
    must_ok(ctx, e.partial_fit({x}, {y}, 2, 1), "partial_fit of one example");
    Snap const a = e.snap();
    string const where = hist + fmt(" response %d target %d x=", v, y) + row_str(x);
    string const fr = frame_broken(b, a);
    if (!ctx.check(fr.empty(), "frame", fr + " " + where)) return false;
    ctx.count("steps");
    ctx.count("evaluations");
    if (err == 0)
    {
        bool same = a.ta == b.ta && a.w == b.w;
        ctx.count("steps_without_error");
        return ctx.check(same, "changed-without-error", where);
    }
    Hits const want = expected(c, err);
    int const type = err < 0 ? 1 : 2;
    int64_t sum_lo = 0, sum_hi = 0;
    bool visible = true;
    for (int o = 0; o < N; ++o)
    {
        bool const out = Ref::fires(b, o, x, false);
        int64_t lo = -1, hi = -1;
        string why;
        int64_t const top = std::max<int64_t>(want.hi, 1);
        if (type == 2 && !out)
        {
            why = illegal(b, a, c, o, x, out, type, 0);
            if (!ctx.check(why.empty(), "type2-silent", why + " " + where)) return false;
            lo = 0; hi = top;
            visible = false;
        }
        else
        {
            // among very many clauses none gets more than a few of at most as many applications
            int64_t const far = N > 1000 ? std::min<int64_t>(top, N > 30000 ? 30 : 100) : top;
            for (int64_t m = 0; m <= far; ++m)
            {
                string const w = illegal(b, a, c, o, x, out, type, m);
                if (w.empty()) { if (lo < 0) lo = m; hi = m; }
                else if (m <= 1) why = w;
            }
            if (hi == far) hi = top;
        }
        if (!ctx.check(lo >= 0, type == 1 ? (out ? "type1-firing" : "type1-silent") : "type2-firing",
            fmt("no number of applications in [0,%lld] explains: ", (long long)top) + why + " " + where)) return false;
        ctx.count(type == 1 ? (out ? "type1_firing" : "type1_silent") : out ? "type2_firing" : "type2_silent");
        sum_lo += lo;
        sum_hi += hi;
        if (lo != hi) visible = false;
    }
    if (visible) ctx.count("exact_counts");
    if (visible && want.lo > 65535) ctx.count("exact_counts_beyond_16_bits");
    ctx.count("applications_seen", sum_lo);
    if (!ctx.check(sum_lo <= want.hi && sum_hi >= want.lo, "number-of-applications",
        fmt("%lld..%lld applications, want %lld..%lld: ", (long long)sum_lo, (long long)sum_hi, (long long)want.lo, (long long)want.hi) + where)) return false;
    if (visible && want.exact && want.lo == want.hi) ctx.count("exact_counts_decided");
    if (want.exact && want.lo > 0) ctx.count("loss_" + c.loss);
    if (sum_hi > 0)
    {
        uint64_t h = b.model_digest();
        for (char q : x.v) h = mix(h, q != 0);
        ctx.seen(mix(h, y));
    }
    return true;
}

// whole epochs with a single clause output and certain feedback: the outcome is one of the orders'
static void epochs(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = gen_cfg(r, k);
    c.weighted = true;
    c.boost = true;
    c.s = 1e15f;
    c.clauses = 2;
    c.T = r.pick({4, 10, 100, 1000});
    c.maxw = r.pick({2, 50, 2147483647});
    c.loss = r.pick({"MAE", "L1", "MSE", "L2", "berHu", "L1+2"});
    c.C1 = r.pick({0.f, .5f, 1.f});
    c.bm = false;
    int const F = std::min(gen_features(r), 1100);
    auto e = must_make(ctx, c);
    string const hist = "epochs " + c.str() + fmt(" F=%d", F);
    ctx.op(hist);
    int const n = r.range(2, 3), E = r.range(1, n == 2 ? 3 : 2);
    Rows const X = gen_rows(r, n, F);
    Labels const y = gen_y(r, c, n, 2);
    must_ok(ctx, e->fit(X, y, 2, 0), "fit");
    auto const ta = gen_ta(r, 2, F, c.nstates, &X[0]);
    vector<uint32_t> w{uint32_t(std::min<int64_t>(c.maxw - 1, r.below(c.T + 2)))};
    e = e->with(ta, w);
    must_ok(ctx, e->partial_fit(X, y, 2, E), "partial_fit");
    Snap const a = e->snap();
    using Model = std::pair<vector<int32_t>, uint32_t>;
    std::set<Model> reach{Model{ta, w[0]}};
    vector<int> perm(n);
    for (int ep = 0; ep < E; ++ep)
    {
        std::set<Model> next;
        std::iota(perm.begin(), perm.end(), 0);
        do
            for (auto const & m0 : reach)
            {
                std::set<Model> cur{m0};
                for (int i : perm)
                {
                    std::set<Model> nx;
                    for (auto const & m : cur)
                    {
                        Snap s;
                        s.rows = 2; s.cols = F; s.ta = m.first; s.w = {m.second};
                        bool const out = Ref::fires(s, 0, X[i], false);
                        int const err = Ref::response(s, X[i], c.T, false) - y[i];
                        Hits const h = expected(c, err);
                        for (int64_t hits = h.lo; hits <= h.hi; ++hits)
                        {
                            Model q = m;
                            if (hits && out && err != 0)
                            {
                                for (int f = 0; f < F; ++f)
                                    for (int b = 0; b < 2; ++b)
                                    {
                                        auto & st = q.first[size_t(b) * F + f];
                                        bool const agrees = (X[i].v[f] != 0) == (b == 0);
                                        if (err < 0 && agrees) st = std::min(st + 1, c.nstates - 1);
                                        if (err > 0 && !agrees && st < 0) ++st;
                                    }
                                if (err < 0) { if (int64_t(q.second) + 1 < c.maxw) ++q.second; }
                                else if (q.second > 0) --q.second;
                            }
                            nx.insert(std::move(q));
                        }
                    }
                    cur.swap(nx);
                }
                next.insert(cur.begin(), cur.end());
            }
        while (std::next_permutation(perm.begin(), perm.end()));
        reach.swap(next);
    }
    ctx.count("epochs_compared", E);
    ctx.count("evaluations");
    ctx.count("epoch_outcomes_possible", reach.size());
    ctx.check(reach.count(Model{a.ta, a.w[0]}), "epoch-outcome", fmt("%d epochs of %d examples ", E, n) + hist);
    ctx.seen(a.model_digest());
}

// tens of thousands of steps of one and the same regressor, each looked at
static void long_run(Ctx & ctx, Rng & r, Kind k)
{
    Prob p = gen_prob(r, k, 1, false);
    Cfg & c = p.c;
    c.clauses = 2 * r.range(1, 4);
    p.F = r.range(1, 4);
    c.T = r.pick({1, 5, 15, 1000});
    c.jobs = 1;
    p.X = gen_rows(r, 1, p.F);
    p.y = gen_y(r, c, 1, 2);
    auto e = must_make(ctx, c);
    int const n = r.pick({5000, 20000, 40000});
    string const hist = fmt("run of %d steps ", n) + p.str();
    ctx.op(hist);
    must_ok(ctx, e->fit(p.X, p.y, 2, 1), "fit");
    for (int i = 0; i < n; ++i)
        if (!one_step(ctx, *e, p, gen_row(r, p.F), r.range(0, c.T), fmt("step %d of ", i) + hist)) return;
    ctx.count("long_run_steps", n);
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = id % 2 ? RB : RC;
    if (r.chance(.0005)) return long_run(ctx, r, k);
    if (id % 8 >= 6) { epochs(ctx, r, k); return; }
    Prob p = gen_prob(r, k, 4);
    Cfg & c = p.c;
    c.weighted = r.chance(.8);
    c.C1 = r.chance(.5) ? float(r.unit()) : c.C1;
    c.T = r.pick({1, 5, 15, 64, 1000, 1000, 100000, 2147483647});
    if (r.chance(.3)) c.clauses = 2 * r.range(1, 20);
    bool const giant = r.chance(.003);
    if (giant)
    {
        giant_clauses(r, c, 1.);
        if (r.chance(.5)) c.clauses = 2 * r.pick({65537, 70001, 100000, 131073});
        p.F = r.range(1, 3);
        c.loss = "MAE";
        c.T = r.pick({2147483647, 1 << 24, 200000, 1000});
        c.maxw = 2147483647;
        c.weighted = true;
        p.X = gen_rows(r, int(p.X.size()), p.F);
    }
    for (auto & v : p.y) v = std::min(v, c.T);
    auto e = must_make(ctx, c);
    string const hist = p.str();
    ctx.op(hist);
    must_ok(ctx, e->fit(p.X, p.y, 2, r.pick({0, 0, 2})), "fit");
    int const N = c.outputs_per_group();
    for (int i = 0; i < 2; ++i)
    {
        Snap const s = e->snap();
        Row const like = gen_row(r, p.F);
        bool const all_firing = giant || r.chance(.5);
        if (!r.chance(.1))
        {
            auto ta = gen_ta(r, s.rows, p.F, c.nstates, &like);
            if (all_firing)
                for (int o = 0; o < N; ++o)
                {
                    bool const empty = r.chance(.5);
                    for (int b = 0; b < 2; ++b)
                        for (int f = 0; f < p.F; ++f)
                        {
                            auto & st = ta[size_t(2 * o + b) * p.F + f];
                            bool const agrees = (like.v[f] != 0) == (b == 0);
                            if (st >= 0 && (empty || !agrees)) st = -1 - r.below(std::min(c.nstates, 60));
                        }
                }
            vector<uint32_t> w(s.w.size());
            int const mode = giant && r.chance(.8) ? 2 : r.below(4);
            for (auto & v : w)
            {
                int64_t const top = c.maxw - 1;
                int64_t const q = mode == 3 ? edge_weight(r, top) : mode == 0 ? r.below(4) : mode == 1 ? (r.chance(.5) ? top : r.below(3))
                    : 60 + r.below(int(std::min<int64_t>(2 * int64_t(c.T) / N + 2, 100000)));
                v = uint32_t(std::min(q, top));
            }
            e = e->with(ta, w);
        }
        int const n = giant ? 1 : r.range(1, 4);
        for (int j = 0; j < n; ++j)
        {
            Row x = r.chance(.7) || all_firing ? like : gen_row(r, p.F);
            if (!all_firing && r.chance(.4)) { int const f = r.chance(.4) ? p.F - 1 : r.below(p.F); x.v[f] = !x.v[f]; }
            int y = r.chance(giant ? .7 : .2) ? r.pick({0, c.T}) : r.range(0, c.T);
            if (r.chance(.4))
            {
                int64_t const v = Ref::response(e->snap(), x, c.T, false);
                y = int(std::clamp<int64_t>(v + r.range(-3, 3), 0, c.T));
            }
            if (!one_step(ctx, *e, p, x, y, hist + fmt(" round %d step %d", i, j))) return;
        }
    }
    ctx.sample(hist);
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
