// C11: single classifier training steps against the legality relation, and whole epochs in a regime
// where feedback is certain and forgetting absent, so that the outcome is one of few exact ones.
#include "step.hpp"

namespace H
{

static bool one_step(Ctx & ctx, Est & e, Prob const & p, Row const & x, int y, string const & hist)
{
    Snap const b = e.snap();
    Cfg const & c = p.c;
    int const per = c.outputs_per_group();
    must_ok(ctx, e.partial_fit({x}, {y}, 2, 1), "partial_fit of one example");
    Snap const a = e.snap();
    string const where = hist + fmt(" label %d x=", y) + row_str(x);
    string err = frame_broken(b, a);
    if (!ctx.check(err.empty(), "frame", err + " " + where)) return false;

    vector<int> touched;
    for (int l = 0; l < p.L; ++l)
        for (int k = 0; k < per; ++k)
            if (clause_changed(b, a, l * per + k))
            {
                if (touched.empty() || touched.back() != l) touched.push_back(l);
            }
    int others = 0, other = -1;
    for (int l : touched) if (l != y) { ++others; other = l; }
    if (!ctx.check(others <= 1, "labels-touched", fmt("%d other labels changed ", others) + where)) return false;

    int fed = 0;
    for (int l : touched)
    {
        int const v = Ref::score(b, per, l, x, c.T, false);
        bool const own = l == y;
        if (!ctx.check(own ? v < c.T : v > -c.T, "feedback-at-threshold", fmt("label %d has score %d, yet changed ", l, v) + where)) return false;
        for (int k = 0; k < per; ++k)
        {
            int const o = l * per + k;
            bool const out = Ref::fires(b, o, x, false);
            int const type = (k % 2 == 0) == own ? 1 : 2;
            string const none = illegal(b, a, c, o, x, out, type, 0);
            ctx.count(type == 1 ? (out ? "type1_firing" : "type1_silent") : out ? "type2_firing" : "type2_silent");
            if (none.empty()) continue;
            string const once = illegal(b, a, c, o, x, out, type, 1);
            if (!ctx.check(once.empty(), type == 1 ? (out ? "type1-firing" : "type1-silent") : (out ? "type2-firing" : "type2-silent"),
                once + " " + where)) return false;
            ++fed;
        }
    }
    // scores that make feedback certain: (T-v)/2T = 1, exactly representable
    if ((c.T & (c.T - 1)) == 0)
        for (int l : {y, p.L == 2 ? 1 - y : other})
        {
            if (l < 0) continue;
            int const v = Ref::score(b, per, l, x, c.T, false);
            if (v != (l == y ? -c.T : c.T)) continue;
            for (int k = 0; k < per; ++k)
            {
                int const o = l * per + k;
                bool const out = Ref::fires(b, o, x, false);
                int const type = (k % 2 == 0) == (l == y) ? 1 : 2;
                string const once = illegal(b, a, c, o, x, out, type, 1);
                if (!ctx.check(once.empty(), "certain-feedback-missing", fmt("score %d of label %d: ", v, l) + once + " " + where)) return false;
                ctx.count("certain_feedback");
            }
        }
    ctx.count("steps");
    ctx.count("evaluations");
    if (fed)
    {
        ctx.count("steps_with_feedback");
        uint64_t h = b.model_digest();
        for (char q : x.v) h = mix(h, q != 0);
        ctx.seen(mix(h, y));
    }
    return true;
}

static void steps(Ctx & ctx, Rng & r, Kind k)
{
    Prob p = gen_prob(r, k, 4);
    Cfg & c = p.c;
    if (r.chance(.3)) c.T = r.pick({1, 2, 4, 16, 1 << 20, 1073741824, 2147483647});
    if (r.chance(.3)) c.s = r.pick({1.f, 1.25f, 2.f, 3.f, 4.f, 7.f});
    auto e = must_make(ctx, c);
    string const hist = p.str();
    ctx.op(hist);
    must_ok(ctx, e->fit(p.X, p.y, p.L, r.pick({0, 0, 2})), "fit");
    int const rounds = 2;
    for (int i = 0; i < rounds; ++i)
    {
        Snap const s = e->snap();
        Row const like = gen_row(r, p.F);
        if (!r.chance(.15))
        {
            auto const ta = gen_ta(r, s.rows, p.F, c.nstates, &like);
            vector<uint32_t> w(s.w.size());
            int const mode = r.below(5);
            for (size_t o = 0; o < w.size(); ++o)
            {
                int64_t const top = c.maxw - 1;
                int64_t v = mode == 0 ? r.below(4) : mode == 1 ? (r.chance(.5) ? top : r.below(3)) : mode == 2 ? r.below(2 * std::min(c.T, 1000) + 2)
                    : mode == 3 ? (o % 2 == 1 ? top : 0) : int64_t(edge_weight(r, top));
                w[o] = uint32_t(std::min(v, top));
            }
            e = e->with(ta, w);
        }
        int const n = r.range(1, 4);
        for (int j = 0; j < n; ++j)
        {
            Row x = r.chance(.7) ? like : gen_row(r, p.F);
            if (r.chance(.4)) { int const f = r.chance(.4) ? p.F - 1 : r.below(p.F); x.v[f] = !x.v[f]; }
            if (!one_step(ctx, *e, p, x, r.below(p.L), hist + fmt(" round %d step %d", i, j))) return;
        }
    }
    ctx.sample(hist);
}

// ---- whole epochs, exactly: two labels, the label is feature 0; each label has one clause of huge
// weight voting against it on its own examples and one voting for it on the other's, so feedback goes
// to every clause with probability one; s is so high that nothing is forgotten, boost raises for sure.
struct Model { vector<int32_t> ta; vector<uint32_t> w; bool operator<(Model const & o) const { return std::tie(ta, w) < std::tie(o.ta, o.w); } };

static void ref_update(Model & m, Cfg const & c, int F, int L, Row const & x, int y)
{
    int const per = c.outputs_per_group();
    Snap s;
    s.rows = int(m.ta.size()) / F;
    s.cols = F;
    s.ta = m.ta;
    for (int l = 0; l < L; ++l)
        for (int k = 0; k < per; ++k)
        {
            int const o = l * per + k;
            bool const out = Ref::fires(s, o, x, false);
            int const type = (k % 2 == 0) == (l == y) ? 1 : 2;
            if (!out) continue;
            for (int f = 0; f < F; ++f)
                for (int b = 0; b < 2; ++b)
                {
                    auto & st = m.ta[size_t(2 * o + b) * F + f];
                    bool const agrees = (x.v[f] != 0) == (b == 0);
                    if (type == 1 && agrees) st = std::min(st + 1, c.nstates - 1);
                    if (type == 2 && !agrees && st < 0) ++st;
                }
            if (type == 1) { if (int64_t(m.w[o]) + 1 < c.maxw) ++m.w[o]; }
            else if (m.w[o] > 0) --m.w[o];
        }
}

static void epochs(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = gen_cfg(r, k);
    c.weighted = true;
    c.boost = true;
    c.s = 1e15f;
    c.T = r.pick({1, 2, 8, 1024});
    c.maxw = 2147483647;
    c.nstates = r.pick({2, 5, 100, 128, 1000, 40000});
    c.clauses = 4 * r.pick({1, 2, 3});
    int const per = c.outputs_per_group();
    int const F = std::max(2, std::min(gen_features(r), 1100));
    int const L = 2;
    auto e = must_make(ctx, c);
    string const hist = "epochs " + c.str() + fmt(" F=%d", F);
    ctx.op(hist);
    int const n = r.range(2, 3), E = r.range(1, n == 2 ? 3 : 2);
    Rows X = gen_rows(r, n, F);
    Labels y;
    for (auto & x : X) { y.push_back(r.below(2)); x.v[0] = y.back(); }
    must_ok(ctx, e->fit(X, y, L, 0), "fit");
    Snap const s = e->snap();
    auto ta = gen_ta(r, s.rows, F, c.nstates, &X[r.below(n)]);
    vector<uint32_t> w(s.w.size());
    for (auto & v : w) v = r.below(5);
    for (int l = 0; l < L; ++l)
    {
        // output 1 (votes against) fires when feature 0 == l, output 0 (votes for) when it is not
        for (int kk = 0; kk < 2; ++kk)
        {
            int const o = l * per + kk;
            bool const when = (l == 1) == (kk == 1); // value of feature 0 it fires on
            for (int b = 0; b < 2; ++b)
                for (int f = 0; f < F; ++f) ta[size_t(2 * o + b) * F + f] = -c.nstates;
            ta[size_t(2 * o + (when ? 0 : 1)) * F] = 0; // included and never forgotten
            w[o] = 1000000000u;
        }
    }
    if (c.nstates < 8) // the two must not take in further literals during the run
    {
        // Type II raises excluded contradicting literals: keep them out by having room
        c.nstates = 100;
        auto e2 = must_make(ctx, c);
        must_ok(ctx, e2->fit(X, y, L, 0), "fit");
        e = std::move(e2);
        for (auto & v : ta) v = std::clamp(v * 20, -100, 99);
        for (int l = 0; l < L; ++l)
            for (int kk = 0; kk < 2; ++kk)
            {
                int const o = l * per + kk;
                bool const when = (l == 1) == (kk == 1);
                for (int b = 0; b < 2; ++b)
                    for (int f = 0; f < F; ++f) ta[size_t(2 * o + b) * F + f] = -c.nstates;
                ta[size_t(2 * o + (when ? 0 : 1)) * F] = 0;
            }
    }
    e = e->with(ta, w);
    must_ok(ctx, e->partial_fit(X, y, L, E), "partial_fit");
    Snap const a = e->snap();
    Model const got{a.ta, a.w};
    std::set<Model> reach{Model{ta, w}};
    vector<int> perm(n);
    for (int ep = 0; ep < E; ++ep)
    {
        std::set<Model> next;
        std::iota(perm.begin(), perm.end(), 0);
        do
            for (auto const & m0 : reach)
            {
                Model m = m0;
                for (int i : perm) ref_update(m, c, F, L, X[i], y[i]);
                next.insert(std::move(m));
            }
        while (std::next_permutation(perm.begin(), perm.end()));
        reach.swap(next);
    }
    ctx.count("epochs_compared", E);
    ctx.count("epoch_outcomes_possible", reach.size());
    ctx.count("evaluations");
    if (!reach.count(got))
    {
        // show the first difference with the closest one
        string d;
        size_t best = SIZE_MAX;
        for (auto const & m : reach)
        {
            size_t n = 0, first = SIZE_MAX;
            for (size_t i = 0; i < m.ta.size(); ++i) if (m.ta[i] != got.ta[i]) { ++n; first = std::min(first, i); }
            size_t wn = 0, wf = 0;
            for (size_t i = 0; i < m.w.size(); ++i) if (m.w[i] != got.w[i]) { ++wn; wf = i; }
            if (n + wn < best)
            {
                best = n + wn;
                d = n ? fmt("%zu automata differ, first row %zu feature %zu: %d want %d", n, first / F, first % F, got.ta[first], m.ta[first])
                      : fmt("weight %zu: %u want %u", wf, got.w[wf] + 1, m.w[wf] + 1);
            }
        }
        ctx.violation("epoch-outcome", fmt("after %d epochs of %d examples: ", E, n) + d + " " + hist);
        return;
    }
    uint64_t h = a.model_digest();
    ctx.seen(h);
    ctx.sample(hist);
}

// thresholds at the far end: a score far from either of them leaves about half of the clauses of both
// labels to be fed, whatever the threshold
static void far_threshold(Ctx & ctx, Rng & r, Kind k)
{
    Prob p = gen_prob(r, k, 4);
    Cfg & c = p.c;
    if (p.F > 4200) return;
    p.L = 2;
    for (auto & y : p.y) y = r.below(2);
    c.weighted = true;
    c.maxw = 2147483647;
    c.clauses = 4 * r.pick({10, 25, 50});
    c.T = r.pick({32767, 65536, 16777217, 1073741823, 1073741824, 1073741825, 1500000000, 2147483646, 2147483647});
    int const per = c.outputs_per_group();
    auto e0 = must_make(ctx, c);
    string const hist = "far threshold " + p.str();
    ctx.op(hist);
    must_ok(ctx, e0->fit(p.X, p.y, 2, 0), "fit");
    Snap const s0 = e0->snap();
    vector<int32_t> const ta(s0.ta.size(), -c.nstates);
    vector<uint32_t> w(s0.w.size());
    int n[2] = {0, 0}, of = 0;
    auto e = e0->clone();
    for (int i = 0; i < 5; ++i)
    {
        for (auto & v : w) v = 10 + r.below(3);
        e = e->with(ta, w);
        Snap const b = e->snap();
        int const j = r.below(p.X.size());
        if (!one_step(ctx, *e, p, p.X[j], p.y[j], hist + fmt(" step %d", i))) return;
        Snap const a = e->snap();
        for (int l = 0; l < 2; ++l)
            for (int q = 0; q < per; ++q) n[l != p.y[j]] += a.w[l * per + q] != b.w[l * per + q];
        of += per;
    }
    for (int g = 0; g < 2; ++g)
        if (!ctx.check(n[g] > of * .5 - 4 * std::sqrt(of) && n[g] < of * .5 + 4 * std::sqrt(of), "half-fed-far-from-threshold",
            fmt("%d of %d clauses of the %s label fed though its score is far from the threshold ", n[g], of, g ? "other" : "own") + hist)) return;
    ctx.count("far_threshold_cases");
    ctx.sample(hist);
}

// tens of thousands of steps of one and the same classifier, each looked at
static void long_run(Ctx & ctx, Rng & r, Kind k)
{
    Prob p = gen_prob(r, k, 1, false);
    Cfg & c = p.c;
    c.clauses = 4;
    p.L = r.pick({2, 2, 3});
    p.F = r.range(1, 4);
    p.X = gen_rows(r, 1, p.F);
    p.y = {r.below(p.L)};
    c.T = r.pick({1, 2, 5, 15});
    c.jobs = 1;
    auto e = must_make(ctx, c);
    int const n = r.pick({5000, 20000, 40000});
    string const hist = fmt("run of %d steps ", n) + p.str();
    ctx.op(hist);
    must_ok(ctx, e->fit(p.X, p.y, p.L, 1), "fit");
    for (int i = 0; i < n; ++i)
    {
        // mostly labels nobody can learn, so that feedback goes on
        Row const x = gen_row(r, p.F);
        if (!one_step(ctx, *e, p, x, r.below(p.L), fmt("step %d of ", i) + hist)) return;
    }
    ctx.count("long_run_steps", n);
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = id % 2 ? CB : CC;
    if (r.chance(.0005)) return long_run(ctx, r, k);
    if (id % 32 >= 30) far_threshold(ctx, r, k);
    else if (id % 8 < 6) steps(ctx, r, k);
    else epochs(ctx, r, k);
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
