// C10: representation invariants after every operation of saturating histories.
#include "calls.hpp"

namespace H
{

static bool invariants(Ctx & ctx, Est const & e, Cfg const & c, Shape const & s, string const & hist)
{
    Snap const m = e.snap();
    int const N = c.nstates;
    if (!s.fitted)
        return ctx.check(m.rows == 0 && m.w.empty(), "untrained-has-model", hist);
    int const outs = c.outputs_per_group() * (is_clf(c.kind) ? s.L : 1);
    if (!ctx.check(m.rows == 2 * outs, "rows", fmt("%d rows for %d outputs ", m.rows, outs) + hist)) return false;
    if (!ctx.check(m.cols == s.F, "columns", fmt("%d columns for %d features ", m.cols, s.F) + hist)) return false;
    if (!ctx.check(int(m.w.size()) == (c.weighted ? outs : 0), "weights-count", fmt("%zu weights for %d outputs ", m.w.size(), outs) + hist)) return false;
    int lo = 0, hi = 0;
    for (size_t i = 0; i < m.ta.size(); ++i)
    {
        int const v = m.ta[i];
        if (v < -int64_t(N) || v >= N)
            return ctx.check(false, "state-range", fmt("state %d row %zu feature %zu ", v, i / m.cols, i % m.cols) + hist);
        lo += v == -N;
        hi += v == N - 1;
    }
    for (uint32_t w : m.w)
        if (int64_t(w) + 1 > c.maxw)
            return ctx.check(false, "weight-range", fmt("weight %lld ", (long long)w + 1) + hist);
    if (is_bw(c.kind))
    {
        if (!ctx.check(m.prows == m.rows && m.pcols == m.cols, "polarity-shape", hist)) return false;
        for (size_t i = 0; i < m.ta.size(); ++i)
            if (m.pol[i] != (m.ta[i] >= 0))
                return ctx.check(false, "polarity", fmt("state %d bit %d row %zu feature %zu ", m.ta[i], m.pol[i], i / m.cols, i % m.cols) + hist);
        if (!ctx.check(m.pol_pad_clean, "polarity-padding", hist)) return false;
    }
    ctx.count("states_checked", m.ta.size());
    ctx.count("states_at_bottom", lo);
    ctx.count("states_at_top", hi);
    int wtop = 0;
    for (uint32_t w : m.w) wtop += int64_t(w) + 1 == c.maxw;
    ctx.count("weights_at_top", wtop);
    ctx.count("models_checked");
    ctx.count("evaluations");
    if (lo + hi > 0 || wtop > 0) ctx.seen(m.model_digest());
    return true;
}

static bool initial(Ctx & ctx, Est const & e, string const & hist)
{
    Snap const m = e.snap();
    for (int v : m.ta)
        if (!ctx.check(v == -1 || v == 0, "initial-state", fmt("%d ", v) + hist)) return false;
    for (uint32_t w : m.w)
        if (!ctx.check(w == 0, "initial-weight", fmt("%u ", w + 1) + hist)) return false;
    ctx.count("initial_models_checked");
    return true;
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    Cfg c = gen_cfg(r, k);
    giant_clauses(r, c, .002);
    if (r.chance(.6)) c.nstates = r.pick({1, 2, 3, 5});
    c.weighted = r.chance(.7);
    auto e = must_make(ctx, c);
    Shape s;
    string hist = c.str();
    if (!invariants(ctx, *e, c, s, hist)) return;
    int const steps = r.range(3, 8);
    for (int i = 0; i < steps; ++i)
    {
        int const m = r.below(10);
        if (m <= 5)
        {
            Call call = gen_call(r, c, s, .15, 1., true);
            if (r.chance(.3)) call.ep = call.X.empty() || call.X[0].v.size() > 100 ? 6 : 25; // drive to saturation
            hist += " | " + call.str();
            ctx.op(hist);
            Status const st = perform(*e, call);
            if (st.code != call.want) return; // C02
            bool const init = call.want == 0 && (call.k == FIT || !s.fitted);
            learn_shape(s, call);
            if (init && call.ep == 0 && !initial(ctx, *e, hist)) return;
            if (init)
            {
                auto z = must_make(ctx, c);
                z->fit(call.X, call.y, call.L, 0);
                if (!initial(ctx, *z, hist)) return;
            }
        }
        else if (m == 6 && s.fitted)
        {
            // put automata and weights next to their bounds, then train
            hist += " | inject extremes";
            ctx.op(hist);
            Snap const sn = e->snap();
            Row const like = gen_row(r, s.F);
            auto ta = gen_ta(r, sn.rows, s.F, c.nstates, &like);
            vector<uint32_t> w(sn.w.size());
            for (auto & v : w) v = r.chance(.15) ? edge_weight(r, c.maxw - 1) : r.chance(.3) ? c.maxw - 1 : r.chance(.5) ? 0 : uint32_t(r.range(0, c.maxw - 1));
            e = e->with(ta, w);
            Rows X{like, gen_row(r, s.F)};
            auto st = e->partial_fit(X, gen_y(r, c, 2, s.L), 2, r.pick({1, 2, 10}));
            must_ok(ctx, st, "partial_fit after injection");
        }
        else if (m == 7)
        {
            hist += " | save-load";
            ctx.op(hist);
            e = e->load(e->save());
        }
        else if (m == 8) { hist += " | clone"; e = e->clone(); }
        else { hist += " | move"; auto n = e->steal(); e = std::move(n); }
        if (!invariants(ctx, *e, c, s, hist)) return;
    }
    ctx.sample(hist.substr(0, 1000));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
