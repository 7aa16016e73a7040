// C13: saved and reloaded models against uninterrupted twins.
#include "calls.hpp"

namespace H
{

static bool same(Ctx & ctx, Est const & a, Est const & b, string const & what, string const & hist)
{
    string const d = snap_diff(a.snap(), b.snap());
    if (!ctx.check(d.empty(), (what + ":state").c_str(), d + " " + hist)) return false;
    return ctx.check(a.state_equal(b) && b.state_equal(a), (what + ":unequal").c_str(), hist);
}

// parameters at the ends of their domains, saved before any training and loaded over another state
static void extreme_params(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = gen_cfg(r, k);
    int const big[] = {9, 63, 64, 65, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1 << 24, (1 << 24) + 1, 2147483646, 2147483647};
    auto pick = [&] { return r.chance(.7) ? big[r.below(int(std::size(big)))] : r.range(1, 2147483647); };
    if (r.chance(.5)) c.jobs = pick();
    if (r.chance(.3)) c.nstates = pick();
    if (r.chance(.3)) c.T = pick();
    if (r.chance(.3)) c.maxw = pick();
    if (r.chance(.3)) c.clauses = is_clf(k) ? r.pick({4, 1 << 20, 2147483644, 1073741824}) : r.pick({2, 1 << 20, 2147483646});
    if (r.chance(.3)) c.seed = r.pick({0u, 1u, 2147483647u, 2147483648u, 4294967295u});
    if (r.chance(.3)) c.s = r.pick({1.f, 1.00000012f, 16777217.f, 3.4e38f});
    if (r.chance(.3)) c.loss = r.pick<string>({"MSE", "MAE", "L2", "L1+2", "berHu"});
    string const hist = c.str();
    ctx.op(hist);
    auto e = must_make(ctx, c);
    Cfg const oc = gen_cfg(r, k);
    auto other = must_make(ctx, oc);
    if (r.chance(.5))
    {
        Shape os;
        perform(*other, gen_call(r, oc, os, 0., 1., false));
    }
    string const doc = e->save();
    auto const l = other->load(doc);
    ctx.check(e->params() == l->params(), "extreme-parameters-differ", hist);
    ctx.check(l->save() == doc, "document-differs-after-reload", hist);
    same(ctx, *e, *l, "loaded", hist);
    ctx.count("extreme_parameter_documents");
    ctx.count("evaluations");
    ctx.seen(mix(std::hash<string>()(doc), k));
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    for (int i = 0; i < 3; ++i) extreme_params(ctx, r, k);
    Cfg c = gen_cfg(r, k);
    giant_clauses(r, c, .002);
    if (r.chance(.3))
    {
        c.s = r.pick({1.1f, 3.3333333f, 1e20f, 3.4e38f});
        c.C1 = r.pick({0.1f, 1e-30f, -2.5f, 0.333333343f, 16777216.f});
        c.T = r.pick({2147483647, 7, 1 << 24});
    }
    auto ref = must_make(ctx, c);
    // the interrupted one; reloaded over states of different origin
    auto cut = must_make(ctx, c);
    Cfg oc = gen_cfg(r, k);
    auto other = must_make(ctx, oc);
    if (r.chance(.6))
    {
        Shape os;
        Call t = gen_call(r, oc, os, 0., 1., false);
        perform(*other, t);
    }
    Shape s;
    string hist = c.str();
    int const steps = r.range(1, 4);
    for (int i = 0; i <= steps; ++i)
    {
        // cut here
        if (s.fitted && r.chance(.25))
        {
            // wind the generators to somewhere interesting within their buffers of 4992 numbers
            Snap const sn = ref->snap();
            int const used = sn.rows * sn.cols;
            int const ni = r.chance(.5) ? (4992 - used % 4992) + r.range(-2, 2) : r.range(0, 10000);
            int const nf = r.chance(.5) ? 4992 + r.range(-2, 2) : r.range(0, 10000);
            hist += fmt(" | advance generators %d %d", ni, nf);
            ref = ref->advance(std::max(0, ni), nf);
            cut = cut->advance(std::max(0, ni), nf);
        }
        if (s.fitted && r.chance(.15))
        {
            Snap const sn = ref->snap();
            Row const like = gen_row(r, s.F);
            vector<uint32_t> w(sn.w.size());
            for (auto & v : w) v = r.chance(.2) ? c.maxw - 1 : r.chance(.5) ? 0 : edge_weight(r, c.maxw - 1);
            auto const ta = gen_ta(r, sn.rows, s.F, c.nstates, &like);
            hist += " | inject";
            ref = ref->with(ta, w);
            cut = cut->with(ta, w);
            ctx.count("states_injected");
        }
        hist += " | cut";
        ctx.op(hist);
        string const doc = cut->save();
        auto const l1 = (r.chance(.5) ? *other : *cut).load(doc);
        if (!same(ctx, *cut, *l1, "loaded", hist)) return;
        string const doc2 = l1->save();
        if (!ctx.check(doc == doc2, "document-differs-after-reload", hist)) return;
        ctx.count("documents");
        ctx.seen(mix(std::hash<string>()(doc), k));
        if (i == 0) ctx.count("untrained_documents");
        // truncated documents are refused with an exception
        int const nt = ctx.thorough ? 4 : 2;
        for (int t = 0; t < nt; ++t)
        {
            size_t const n = t == 0 ? doc.size() - 1 - r.below(std::min<int>(300, int(doc.size()) - 1)) : t == 1 ? size_t(r.below(60)) : r.next() % doc.size();
            ctx.op(hist + fmt(" | load first %zu of %zu bytes", n, doc.size()));
            bool threw = false;
            try { auto x = other->load(doc.substr(0, n)); }
            catch (std::exception const &) { threw = true; }
            ctx.check(threw, "truncated-document-accepted", fmt("%zu of %zu bytes ", n, doc.size()) + hist);
            ctx.count("truncated_documents");
        }
        if (s.fitted)
        {
            Rows const X = gen_rows(r, 5, s.F);
            Labels const y = gen_y(r, c, 5, std::max(2, s.L));
            if (!ctx.check(answers_digest(ctx, *ref, X, &y) == answers_digest(ctx, *l1, X, &y), "answers-differ-after-reload", hist)) return;
            ctx.count("answers_compared");
        }
        ctx.count("evaluations");
        if (i == steps) break;
        Call const t = gen_call(r, c, s, 0., 1., true);
        hist += " | " + t.str();
        ctx.op(hist);
        cut = l1->clone();
        Status const a = perform(*ref, t), b = perform(*cut, t);
        // and once more directly on a loaded one, without the clone
        auto direct = cut->load(doc);
        Status const d = perform(*direct, t);
        if (!ctx.check(a.code == b.code && a.code == d.code, "status-differs-after-reload", hist)) return;
        learn_shape(s, t);
        if (!same(ctx, *ref, *cut, "resumed", hist)) return;
        if (!same(ctx, *ref, *direct, "resumed-direct", hist)) return;
        ctx.count("resumed_trainings_compared");
    }
    ctx.sample(hist.substr(0, 1000));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
