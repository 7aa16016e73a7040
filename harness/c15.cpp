// C15: installments and refits against training at once and afresh.
#include "calls.hpp"

namespace H
{

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    Prob p = gen_prob(r, k, 8, true);
    bool const many = r.chance(.003), long_ = !many && r.chance(.02); // epochs
    if (many || long_)
    {
        p.c.clauses = is_clf(k) ? 4 : 2;
        p.L = 2;
        p.F = r.range(1, 3);
        p.X = gen_rows(r, 1, p.F);
        p.y = gen_y(r, p.c, 1, p.L);
    }
    string const str = p.str();
    auto cmp = [&](Est const & a, Est const & b, char const * key, string const & how)
    {
        string const d = snap_diff(a.snap(), b.snap());
        bool const ok = ctx.check(d.empty(), key, d + ": " + how + " " + str);
        ctx.check(!ok || a.state_equal(b), (string(key) + ":unequal").c_str(), how + str);
        ctx.count("evaluations");
        return ok;
    };
    auto any_L = [&] { return r.pick({p.L, 2, 0, -3, 1, p.L + 5}); };

    int E = r.range(0, 9);
    if (r.chance(.06)) E = r.pick({10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257});
    if (many) E = r.pick({1000, 32768, 65535, 65536, 65537});
    if (long_) E = r.pick({r.range(250, 600), r.range(600, 2100), 512, 513, 1024, 1025});
    while (!many && !long_ && E > 9 && int64_t(E) * int64_t(p.X.size()) * p.F * p.c.outputs_per_group() > 300000) E /= 2;
    auto once = must_make(ctx, p.c);
    ctx.op("fit " + str);
    must_ok(ctx, once->fit(p.X, p.y, p.L, E), "fit");

    // E epochs in any number of pieces, the first by fit or by partial_fit
    int const ways = ctx.thorough ? 4 : 2;
    for (int w = 0; w < ways; ++w)
    {
        auto e = must_make(ctx, p.c);
        int left = E;
        string how = fmt("E=%d:", E);
        int const first = r.range(0, left);
        bool const pf = r.chance(.5);
        how += fmt(" %s(%d)", pf ? "partial_fit" : "fit", first);
        ctx.op(how + str);
        must_ok(ctx, pf ? e->partial_fit(p.X, p.y, p.L, first) : e->fit(p.X, p.y, p.L, first), how);
        left -= first;
        bool const singly = left < 2200 && r.chance(left > 9 ? .3 : .1);
        if (singly)
        {
            how += fmt(" %d times partial_fit(1)", left);
            ctx.op(how + str);
            int const L = any_L();
            for (; left > 0; --left) must_ok(ctx, e->partial_fit(p.X, p.y, L, 1), how);
            ctx.count("trained_singly");
        }
        while (left > 0)
        {
            if (r.chance(.3))
            {
                Snap const before = e->snap();
                how += " partial_fit(0)";
                must_ok(ctx, e->partial_fit(p.X, p.y, any_L(), 0), how);
                ctx.check(snap_diff(before, e->snap()).empty(), "zero-epochs-changed", how + str);
                ctx.count("zero_epoch_continuations");
            }
            int const n = r.range(1, left);
            how += fmt(" partial_fit(%d)", n);
            ctx.op(how + str);
            must_ok(ctx, e->partial_fit(p.X, p.y, any_L(), n), how);
            left -= n;
        }
        if (!cmp(*once, *e, "installments-differ", how)) return;
        ctx.count("installments_compared");
        ctx.seen(mix(e->snap().model_digest(), std::hash<string>()(how)));
    }

    // partial_fit on a trained estimator takes any number of labels and keeps its own
    {
        auto a = once->clone(), b = once->clone();
        must_ok(ctx, a->partial_fit(p.X, p.y, p.L, 2), "partial_fit");
        must_ok(ctx, b->partial_fit(p.X, p.y, any_L(), 2), "partial_fit with other label count");
        if (!cmp(*a, *b, "requested-labels-mattered", "partial_fit(2)")) return;
    }

    // fit after any past
    auto e = must_make(ctx, p.c);
    Shape s;
    string how = "past:";
    int const n = r.range(1, 4);
    for (int i = 0; i < n; ++i)
    {
        Call const t = gen_call(r, p.c, s, .2, .8, true);
        how += " | " + t.str();
        ctx.op(how + str);
        perform(*e, t);
        learn_shape(s, t);
    }
    if (r.chance(.2)) { how += " | save-load"; e = e->load(e->save()); }
    if (r.chance(.2) && s.fitted)
    {
        how += " | injected";
        Snap const sn = e->snap();
        Row const like = gen_row(r, s.F);
        vector<uint32_t> w(sn.w.size());
        for (auto & v : w) v = uint32_t(r.range(0, p.c.maxw - 1));
        e = e->with(gen_ta(r, sn.rows, s.F, p.c.nstates, &like), w);
    }
    int const e2 = r.range(0, 3);
    how += fmt(" | fit(%d)", e2);
    ctx.op(how + str);
    auto fresh = must_make(ctx, p.c);
    must_ok(ctx, fresh->fit(p.X, p.y, p.L, e2), "fit fresh");
    must_ok(ctx, e->fit(p.X, p.y, p.L, e2), how);
    if (!cmp(*fresh, *e, "refit-differs-from-fresh", how)) return;
    Rows const X = gen_rows(r, 4, p.F);
    ctx.check(answers_digest(ctx, *fresh, X) == answers_digest(ctx, *e, X), "refit-answers-differ", how + str);
    ctx.count(s.fitted ? "refits_of_trained" : "refits_of_untrained");
    must_ok(ctx, fresh->partial_fit(p.X, p.y, p.L, 1), "continue fresh");
    must_ok(ctx, e->partial_fit(p.X, p.y, p.L, 1), "continue refitted");
    cmp(*fresh, *e, "refit-continues-differently", how);
    ctx.sample((str + how).substr(0, 1200));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
