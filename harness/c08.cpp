// C08: answers of estimators against an independent evaluation of their own automata.
#include "common.hpp"

namespace H
{

static void compare(Ctx & ctx, Est const & e, Prob const & p, Rows const & X, Labels const & y, char const * how)
{
    Snap const s = e.snap();
    int const per = p.c.outputs_per_group();
    int const T = p.c.T;
    Labels got;
    must_ok(ctx, e.predict(X, got), "predict");
    if (!ctx.check(got.size() == X.size(), "predict-count", p.str())) return;
    if (is_clf(p.c.kind))
    {
        vector<vector<int>> d;
        must_ok(ctx, e.decision(X, d), "decision_function");
        if (!ctx.check(d.size() == X.size(), "decision-count", p.str())) return;
        int right = 0;
        for (size_t i = 0; i < X.size(); ++i)
        {
            vector<int> want;
            for (int l = 0; l < p.L; ++l) want.push_back(Ref::score(s, per, l, X[i], T, true));
            int best = 0, firing = 0;
            for (int l = 1; l < p.L; ++l) if (want[l] > want[best]) best = l;
            for (int w : want) firing += w != 0;
            right += best == y[i];
            if (!ctx.check(int(d[i].size()) == p.L, "decision-size", p.str())) return;
            for (int l = 0; l < p.L; ++l)
                if (!ctx.check(d[i][l] == want[l], "score",
                    fmt("%s label %d score got %d want %d x=%s %s", how, l, d[i][l], want[l], row_str(X[i]).c_str(), p.str().c_str()))) return;
            if (!ctx.check(got[i] == best, "predicted-label",
                fmt("%s got %d want %d %s", how, got[i], best, p.str().c_str()))) return;
            if (i < 4)
            {
                int one = -1;
                must_ok(ctx, e.predict1(X[i], one), "predict one");
                ctx.check(one == best, "predict-one-vs-batch", fmt("%s got %d want %d %s", how, one, best, p.str().c_str()));
                vector<int> d1;
                must_ok(ctx, e.decision1(X[i], d1), "decision one");
                ctx.check(d1 == want, "decision-one-vs-batch", string(how) + p.str());
            }
            ctx.count("answers");
            if (firing)
            {
                ctx.count("answers_with_firing_clauses");
                uint64_t h = s.model_digest();
                for (char v : X[i].v) h = mix(h, v != 0);
                ctx.seen(h);
            }
            for (int w : want) if (std::abs(w) == T) ctx.count("scores_clamped");
        }
        float acc = -1;
        must_ok(ctx, e.evaluate(X, y, acc), "evaluate");
        ctx.check(std::fabs(acc - double(right) / X.size()) < 1e-6, "accuracy",
            fmt("%s evaluate got %.9g want %d/%zu %s", how, acc, right, X.size(), p.str().c_str()));
    }
    else
    {
        for (size_t i = 0; i < X.size(); ++i)
        {
            int const want = Ref::response(s, X[i], T, true);
            if (!ctx.check(got[i] == want, "response",
                fmt("%s got %d want %d x=%s %s", how, got[i], want, row_str(X[i]).c_str(), p.str().c_str()))) return;
            int one = -1;
            must_ok(ctx, e.predict1(X[i], one), "predict one");
            ctx.check(one == want, "predict-one-vs-batch", fmt("%s got %d want %d %s", how, one, want, p.str().c_str()));
            ctx.count("answers");
            if (want > 0)
            {
                ctx.count("answers_with_firing_clauses");
                uint64_t h = s.model_digest();
                for (char v : X[i].v) h = mix(h, v != 0);
                ctx.seen(h);
            }
            if (want == T) ctx.count("scores_clamped");
        }
    }
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    Prob p = gen_prob(r, k, 8);
    if (is_clf(k) && r.chance(.02))
    {
        p.L = r.pick({130, 257, 300, 513, 700, 1000, 2000});
        p.c.clauses = 4;
        p.F = r.range(1, 70);
        p.X = gen_rows(r, int(p.X.size()), p.F);
        p.y = gen_y(r, p.c, int(p.X.size()), p.L);
    }
    if (r.chance(.1)) p.c.T = r.pick({1073741823, 1073741824, 2147483647});
    for (auto & v : p.y) if (!is_clf(k)) v = std::min(v, p.c.T);
    auto e = must_make(ctx, p.c);
    ctx.op("fit " + p.str());
    must_ok(ctx, e->fit(p.X, p.y, p.L, r.pick({0, 1, 3})), "fit");
    compare(ctx, *e, p, p.X, p.y, "trained");
    int const rounds = 2;
    for (int j = 0; j < rounds; ++j)
    {
        Snap const s = e->snap();
        Row const like = gen_row(r, p.F);
        auto ta = gen_ta(r, s.rows, p.F, p.c.nstates, &like);
        if (is_clf(k) && r.chance(p.L > 8 ? .7 : .05))
        {
            // one label, any of them, and nothing for the others
            for (auto & v : ta) v = std::min(v, -1);
            int const l = r.chance(.3) ? p.L - 1 : r.below(p.L), f = r.below(p.F);
            ta[size_t(2 * (l * p.c.outputs_per_group()) + (like.v[f] ? 0 : 1)) * p.F + f] = 0;
            ctx.count("one_label_models");
        }
        vector<uint32_t> w(s.w.size());
        int const wm = r.below(4);
        for (auto & v : w)
            v = wm == 3 ? edge_weight(r, 2147483646) : wm == 0 ? r.below(3) : wm == 1 ? r.below(2 * p.c.T < 0 ? 1000 : 2 * p.c.T + 1) : uint32_t(2147483646 - r.below(3));
        auto const inj = e->with(ta, w);
        // neighbours of the example every second clause was built around
        Rows X{like};
        for (int i = 0; i < 4; ++i)
        {
            Row x = like;
            int const f = i == 0 ? p.F - 1 : i == 1 ? 0 : r.below(p.F);
            x.v[f] = !x.v[f];
            x.spare = r.chance(.1);
            X.push_back(x);
        }
        X.push_back(gen_row(r, p.F));
        if (r.chance(.05))
            for (int i = r.pick({10, 57, 58, 59, 121, 122, 250, 500, 1020}); i > 0 && int64_t(X.size()) * p.F * int64_t(s.rows) < 800000; --i)
                X.push_back(X[r.below(int(X.size()))]);
        ctx.op("injected " + p.str());
        compare(ctx, *inj, p, X, gen_y(r, p.c, int(X.size()), p.L), "injected");
        ctx.count("injected_states");
        // the same automata held by the other representation
        Cfg oc = p.c;
        oc.kind = Kind(int(k) ^ 1);
        auto o = must_make(ctx, oc);
        must_ok(ctx, o->fit(p.X, p.y, p.L, 0), "fit other");
        auto const oinj = o->with(ta, w);
        ctx.check(answers_digest(ctx, *inj, X) == answers_digest(ctx, *oinj, X), "classic-vs-bitwise", p.str());
        ctx.count("representations_compared");
    }
    ctx.sample(p.str());
    ctx.count("evaluations");
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
