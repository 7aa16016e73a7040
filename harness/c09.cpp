// C09: a queried estimator against a twin that is only ever trained.
#include "calls.hpp"

#include <array>

namespace H
{

static Call query_of(Rng & r, Cfg const & c, Shape const & s)
{
    return gen_call(r, c, s, .1, 0.);
}

// hundreds of queries of one object, trained now and then, each answered as by a twin never asked before
static void long_history(Ctx & ctx, Rng & r, Kind k)
{
    Prob p = gen_prob(r, k, 4, false);
    while (int64_t(p.F) * p.c.outputs_per_group() * (is_clf(k) ? p.L : 1) > 2000)
    {
        if (p.L > 2) p.L = 2;
        else if (p.c.clauses > 4) p.c.clauses = 4;
        else p.F = r.range(1, 66);
    }
    p.X = gen_rows(r, r.range(2, 5), p.F);
    p.y = gen_y(r, p.c, int(p.X.size()), p.L);
    auto a = must_make(ctx, p.c);
    auto b = must_make(ctx, p.c);
    string hist = p.str();
    must_ok(ctx, a->fit(p.X, p.y, p.L, 2), "fit");
    must_ok(ctx, b->fit(p.X, p.y, p.L, 2), "fit");
    int const N = r.pick({130, 257, 300, 520, 1030, 2060});
    double const train = r.chance(.5) ? 0. : r.pick({.002, .02});
    // one object may be of the same or of another kind of query all the time
    double const batch = r.pick({0., .1, .5});
    Rows Q;
    vector<std::array<uint64_t, 2>> want; // per row: label or response, scores
    auto ask = [&](Est const & e, size_t i, int what)
    {
        uint64_t h = 7;
        if (what == 0) { int o = 0; must_ok(ctx, e.predict1(Q[i], o), "predict"); h = mix(h, uint32_t(o)); }
        else { vector<int> d; must_ok(ctx, e.decision1(Q[i], d), "decision_function"); for (int v : d) h = mix(h, uint32_t(v)); }
        return h;
    };
    auto prepare = [&]
    {
        Q = p.X;
        for (auto const & x : gen_rows(r, 4, p.F)) Q.push_back(x);
        auto const clean = b->clone();
        want.assign(Q.size(), {0, 0});
        for (size_t i = 0; i < Q.size(); ++i)
        {
            auto const fresh = clean->clone();
            want[i][0] = ask(*fresh, i, 0);
            if (is_clf(k)) want[i][1] = ask(*fresh, i, 1);
        }
    };
    prepare();
    Snap before = a->snap();
    for (int q = 0; q < N; ++q)
    {
        if (r.chance(train))
        {
            must_ok(ctx, a->partial_fit(p.X, p.y, p.L, 1), "partial_fit");
            must_ok(ctx, b->partial_fit(p.X, p.y, p.L, 1), "partial_fit");
            string const d = snap_diff(b->snap(), a->snap());
            if (!ctx.check(d.empty(), "queried-trains-differently", d + fmt(" after %d queries of ", q) + hist)) return;
            prepare();
            before = a->snap();
            ctx.count("trained_models_compared");
        }
        if (r.chance(batch))
        {
            vector<size_t> at(r.range(1, 9));
            Rows X;
            for (auto & i : at) X.push_back(Q[i = r.below(int(Q.size()))]);
            bool const dec = is_clf(k) && r.chance(.5);
            Labels o;
            vector<vector<int>> d;
            must_ok(ctx, dec ? a->decision(X, d) : a->predict(X, o), "query");
            for (size_t j = 0; j < at.size(); ++j)
            {
                uint64_t h = 7;
                if (dec) for (int v : d.at(j)) h = mix(h, uint32_t(v));
                else h = mix(h, uint32_t(o.at(j)));
                if (!ctx.check(h == want[at[j]][dec], "late-answer-differs", fmt("row %zu of a batch, query %d of ", j, q) + hist)) return;
            }
            ctx.count("late_answers", at.size());
        }
        else
        {
            size_t const i = r.below(int(Q.size()));
            int const what = is_clf(k) && r.chance(.5);
            if (!ctx.check(ask(*a, i, what) == want[i][what], "late-answer-differs", fmt("%s, query %d of ", what ? "scores" : "prediction", q) + hist)) return;
            ctx.count("late_answers");
        }
    }
    string const d = snap_diff(before, a->snap());
    ctx.check(d.empty(), "query-changed-state:many", d + " after " + hist);
    ctx.count("long_histories");
    ctx.count("evaluations");
    ctx.seen(mix(before.model_digest(), N));
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    if (r.chance(.02)) return long_history(ctx, r, k);
    Cfg c = gen_cfg(r, k);
    giant_clauses(r, c, .002);
    auto a = must_make(ctx, c);
    auto b = must_make(ctx, c);
    Shape s;
    string hist = c.str();
    // queries remembered with their answer, repeated while the model stays what it is
    int const rounds = r.range(1, 5);
    for (int round = 0; round <= rounds; ++round)
    {
        vector<std::pair<Call, uint64_t>> asked;
        Snap const before = a->snap();
        int const nq = r.range(1, 7);
        for (int q = 0; q < nq; ++q)
        {
            int const m = r.below(10);
            string what;
            if (m == 0)
            {
                what = "clone";
                auto x = a->clone();
                Call t = gen_call(r, c, s, 0., 1., false);
                perform(*x, t); // whatever happens to the clone
            }
            else if (m == 1) { what = "save"; a->save(); }
            else if (m == 2) { what = "params"; a->params(); }
            else
            {
                Call const call = query_of(r, c, s);
                what = call_name(call.k);
                hist += " | " + call.str();
                ctx.op(hist);
                uint64_t h = 1;
                Status const st = perform(*a, call, &h);
                if (st.code == 0 && call.want == 0)
                {
                    asked.emplace_back(call, h);
                    uint64_t g = mix(before.model_digest(), h);
                    for (auto & x : call.X) for (char v : x.v) g = mix(g, v);
                    ctx.seen(mix(g, call.k));
                    ctx.count("answers");
                }
                ctx.count("evaluations");
            }
            ctx.count("q_" + what);
            string const d = snap_diff(before, a->snap());
            if (!ctx.check(d.empty(), ("query-changed-state:" + what).c_str(), d + " after " + hist)) return;
        }
        // asked again in another order, of the queried estimator and of one never queried before
        auto clean = b->clone();
        for (size_t i = asked.size(); i-- > 0;)
        {
            uint64_t h = 1, g = 1;
            perform(*a, asked[i].first, &h);
            perform(*clean, asked[i].first, &g);
            ctx.check(h == asked[i].second, (string("answer-changed:") + call_name(asked[i].first.k)).c_str(), hist + " / " + asked[i].first.str());
            ctx.check(g == asked[i].second, (string("answer-depends-on-queries:") + call_name(asked[i].first.k)).c_str(), hist + " / " + asked[i].first.str());
            ctx.count("answers_repeated");
        }
        if (round == rounds) break;
        Call const t = gen_call(r, c, s, 0., 1., true);
        hist += " | " + t.str();
        ctx.op(hist);
        Status const sa = perform(*a, t), sb = perform(*b, t);
        if (!ctx.check(sa.code == sb.code, "training-status-differs", hist)) return;
        string const d = snap_diff(b->snap(), a->snap());
        if (!ctx.check(d.empty(), "queried-trains-differently", d + " after " + hist)) return;
        ctx.count("trained_models_compared");
        learn_shape(s, t);
    }
    ctx.sample(hist.substr(0, 1200));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
