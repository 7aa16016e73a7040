// C22: two estimator states compare equal exactly when nothing observable tells them apart. Pools of
// related states: copies, reloads, replays, and states that differ in one single place.
#include "est.hpp"

namespace H
{

template<Kind K>
struct Pool
{
    using S = typename Tr<K>::S;
    using P = decltype(std::declval<typename Tr<K>::E const &>().clone_state());
    struct Item { P p; Snap s; string what; };
    vector<Item> v;
    void add(P && p, string what)
    {
        Snap s = take_snap(*p);
        v.push_back({std::move(p), std::move(s), std::move(what)});
    }
    P copy(size_t i) const
    {
        typename Tr<K>::E e(*v[i].p);
        return e.clone_state();
    }
};

template<class S> bool edit_automaton(Rng & r, S & st, string & what)
{
    bool done = false;
    std::visit([&](auto & m)
    {
        if (m.rows() == 0 || m.cols() == 0) return;
        bool const late = r.chance(.3) && int64_t(m.rows()) * m.cols() > 100000;
        unsigned const row = late ? m.rows() - 1 - r.below(std::min(int(m.rows()), 8)) : r.chance(.2) ? 0 : r.chance(.25) ? m.rows() - 1 : r.below(int(m.rows()));
        unsigned const col = late ? m.cols() - 1 - r.below(std::min(int(m.cols()), 8)) : r.chance(.2) ? 0 : r.chance(.25) ? m.cols() - 1 : r.below(int(m.cols()));
        auto & q = m.row_data(row)[col];
        q = (q == 0 || q == -1) ? -1 - q : q > 0 ? q - 1 : q + 1;
        what = fmt("automaton %u,%u to %d", row, col, int(q));
        if constexpr (std::is_same_v<typename S::ta_state_type, TAStateWithPolarity>)
            if (st.ta_state.polarity.test(row, col) != (q >= 0)) { st.ta_state.polarity.flip(row, col); what += " (include bit too)"; }
        done = true;
    }, st.ta_state.matrix);
    return done;
}

template<Kind K>
void pools(Ctx & ctx, Rng & r)
{
    Prob p = gen_prob(r, K, 5);
    if (r.chance(.06)) p.c.jobs = r.pick({33, 200, 1 << 20});
    bool const giant = r.chance(.006);
    if (giant) // sizes past 16 bits
    {
        p.c.clauses = is_clf(K) ? 4 : 2;
        p.L = 2;
        p.F = r.range(1, 3);
        int const m = r.below(3);
        if (m == 0) p.F = r.pick({65537, 70001, 131073});
        else if (m == 1 && is_clf(K)) p.L = r.pick({32769, 65537});
        else if (m == 1) p.c.clauses = r.pick({65538, 131074});
        else p.F = giant_features(r);
        p.X = gen_rows(r, 2, p.F);
        p.y = gen_y(r, p.c, 2, p.L);
        ctx.count("giant_pools");
    }
    string const hist = p.str();
    ctx.op(hist);
    using E = typename Tr<K>::E;
    Pool<K> pool;
    auto est = [](EstP const & e) -> E & { return dynamic_cast<EstT<K> &>(*e).e; };

    unsigned const ep = r.below(4);
    auto a = must_make(ctx, p.c);
    pool.add(est(a).clone_state(), "untrained");
    auto b = must_make(ctx, p.c);
    pool.add(est(b).clone_state(), "untrained twin");
    must_ok(ctx, a->fit(p.X, p.y, p.L, ep), "fit");
    must_ok(ctx, b->partial_fit(p.X, p.y, p.L, ep), "fit");
    size_t const base = pool.v.size();
    pool.add(est(a).clone_state(), "trained");
    pool.add(est(b).clone_state(), "trained twin");
    pool.add(pool.copy(base), "copy");
    {
        auto q = pool.copy(r.chance(.5) ? 0 : base);
        from_json_string(*q, to_json_string(*pool.v[base].p));
        pool.add(std::move(q), "reloaded");
    }
    {
        (void)!answers_digest(ctx, *a, p.X);
        pool.add(est(a).clone_state(), "queried");
    }
    if (!giant && r.chance(.7))
    {
        // the same by way of another past
        EstP o = must_make(ctx, p.c);
        int const F = r.chance(.4) ? p.F : r.range(1, 2 * p.F + 2), L = is_clf(K) ? r.range(2, p.L + 5) : p.L, n = r.range(1, 5);
        Rows const X = gen_rows(r, n, F);
        must_ok(ctx, o->fit(X, gen_y(r, p.c, n, L), L, r.below(3)), "fit");
        auto over = est(o).clone_state();
        if (r.chance(.3)) (void)!answers_digest(ctx, *o, X);
        if (r.chance(.3))
        {
            unsigned const first = ep ? r.below(int(ep)) : 0;
            must_ok(ctx, o->fit(p.X, p.y, p.L, first), "fit");
            must_ok(ctx, o->partial_fit(p.X, p.y, 2, ep - first), "partial_fit");
        }
        else must_ok(ctx, o->fit(p.X, p.y, p.L, ep), "fit");
        pool.add(est(o).clone_state(), fmt("refit after F=%d L=%d", F, L));
        from_json_string(*over, to_json_string(*pool.v[base].p));
        pool.add(std::move(over), fmt("reloaded over F=%d L=%d", F, L));
        ctx.count("other_pasts");
    }
    int const edits = r.range(4, 8);
    for (int i = 0; i < edits; ++i)
    {
        size_t const from = r.chance(.2) ? size_t(r.below(int(pool.v.size()))) : base;
        auto q = pool.copy(from);
        string what;
        switch (r.below(7))
        {
            case 0: case 1:
                if (!edit_automaton(r, *q, what)) continue;
                ctx.count("automaton_edits");
                break;
            case 2:
            {
                auto & w = q->ta_state.weights;
                if (w.empty()) continue;
                size_t const at = r.chance(.3) ? w.size() - 1 : r.chance(.3) ? 0 : r.below(int(w.size()));
                w[at] = w[at] > 0 && r.chance(.5) ? w[at] - 1 : w[at] + 1;
                what = fmt("weight %zu to %u", at, unsigned(w[at]));
                ctx.count("weight_edits");
                break;
            }
            case 3:
            {
                int const n = r.pick({1, 1, 2, 7, 623, 624, 4991, 4992, 4993});
                for (int j = 0; j < n; ++j) (void)q->igen();
                what = fmt("%d integer draws", n);
                ctx.count("generator_edits");
                break;
            }
            case 4:
            {
                int const n = r.pick({1, 1, 2, 7, 623, 624, 4991, 4992, 4993});
                for (int j = 0; j < n; ++j) (void)q->fgen();
                what = fmt("%d real draws", n);
                ctx.count("generator_edits");
                break;
            }
            case 5:
            {
                if (q->m_params.empty()) continue;
                auto it = q->m_params.begin();
                std::advance(it, r.below(int(q->m_params.size())));
                if (it->first == "number_of_labels" || it->first == "number_of_features") continue;
                auto & v = it->second;
                if (auto x = std::get_if<int>(&v)) *x = *x ^ (r.chance(.5) ? 1 : 0x10000);
                else if (auto x = std::get_if<seed_type>(&v)) *x ^= r.chance(.5) ? 1u : 0x80000000u;
                else if (auto x = std::get_if<real_type>(&v)) *x = std::nextafter(*x, r.chance(.5) ? 0.f : 3e38f);
                else if (auto x = std::get_if<bool>(&v)) *x = !*x;
                else if (auto x = std::get_if<string>(&v)) *x += r.chance(.5) ? "" : "x";
                what = "parameter " + it->first;
                ctx.count("parameter_edits");
                break;
            }
            default:
            {
                // another history: more training, other data, another shape
                EstP e = must_make(ctx, p.c);
                int const m = r.below(4);
                if (m == 0) { must_ok(ctx, e->fit(p.X, p.y, p.L, ep + 1), "fit"); what = "one more epoch"; }
                else if (m == 1)
                {
                    int const F = r.chance(.5) ? p.F + 1 : std::max(1, p.F - 1);
                    must_ok(ctx, e->fit(gen_rows(r, int(p.y.size()), F), p.y, p.L, 0), "fit");
                    what = fmt("%d features", F);
                }
                else if (m == 2) { must_ok(ctx, e->fit(p.X, p.y, p.L + 1, 0), "fit"); what = "another label"; }
                else { must_ok(ctx, e->fit(p.X, p.y, p.L, ep), "fit"); must_ok(ctx, e->partial_fit(p.X, p.y, p.L, 0), "partial_fit"); what = "no more epochs"; }
                q = est(e).clone_state();
                ctx.count("other_histories");
            }
        }
        pool.add(std::move(q), pool.v[from].what + ", " + what);
    }

    for (size_t i = 0; i < pool.v.size(); ++i)
        for (size_t j = i; j < pool.v.size(); ++j)
        {
            auto const & x = pool.v[i];
            auto const & y = pool.v[j];
            string const d = snap_diff(x.s, y.s);
            string const pair = x.what + " and " + y.what + ": ";
            bool const xy = *x.p == *y.p, yx = *y.p == *x.p, f = equal(*x.p, *y.p);
            ctx.check(xy == yx && f == xy, "comparison-not-symmetric", pair + fmt("%d %d %d ", xy, yx, f) + hist);
            if (d.empty()) ctx.check(xy, "equal-states-unequal", pair + hist);
            else ctx.check(!xy, "different-states-equal", pair + d + " " + hist);
            ctx.count(d.empty() ? (i == j ? "self_comparisons" : "equal_pairs") : "unequal_pairs");
            if (i != j) ctx.seen(mix(x.s.digest(), y.s.digest()));
        }
    for (auto const & x : pool.v)
        ctx.check(snap_diff(x.s, take_snap(*x.p)).empty(), "comparison-modified-a-state", x.what + ": " + hist);
    ctx.count("evaluations");
    ctx.sample(hist.substr(0, 500));
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    switch (id % 4)
    {
        case 0: return pools<CC>(ctx, r);
        case 1: return pools<CB>(ctx, r);
        case 2: return pools<RC>(ctx, r);
        default: return pools<RB>(ctx, r);
    }
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
