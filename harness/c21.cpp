// C21: fit and partial_fit take their options in any order, as temporaries, variables or constants,
// leave them and the data alone, default to 100 epochs, and prepare a classifier for as many labels
// as asked for or present.
#include "est.hpp"

namespace H
{

struct Opt { int L; unsigned ep; };

// one training call in a given form; forms 0..7 give the epochs, 8..11 leave them out
static constexpr int FORMS = 8, ALL_FORMS = 12;
static char const * form_name(int f)
{
    static char const * n[] = {"(labels, epochs)", "(epochs, labels)", "(labels var, epochs var)", "(epochs var, labels var)",
        "(labels const, epochs const)", "(epochs const, labels temporary)", "(moved labels, epochs var)", "(epochs temporary, labels const)",
        "(labels)", "(labels var)", "(labels const)", "(moved labels)"};
    return n[f];
}

template<Kind K, bool Fit, class E, class XX, class YY>
status_message_t call(Ctx & ctx, E & e, XX const & X, YY const & y, Opt o, int form, string const & hist)
{
    max_number_of_labels_t l{o.L};
    number_of_epochs_t n{o.ep};
    max_number_of_labels_t const cl{o.L};
    number_of_epochs_t const cn{o.ep};
    auto go = [&](auto && ...a) -> status_message_t
    {
        if constexpr (Fit) return e.fit(X, y, std::forward<decltype(a)>(a)...);
        else return e.partial_fit(X, y, std::forward<decltype(a)>(a)...);
    };
    status_message_t st;
    if constexpr (is_clf(K))
        switch (form)
        {
            case 0: st = go(max_number_of_labels_t{o.L}, number_of_epochs_t{o.ep}); break;
            case 1: st = go(number_of_epochs_t{o.ep}, max_number_of_labels_t{o.L}); break;
            case 2: st = go(l, n); break;
            case 3: st = go(n, l); break;
            case 4: st = go(cl, cn); break;
            case 5: st = go(cn, max_number_of_labels_t{o.L}); break;
            case 6: st = go(std::move(l), n); l = max_number_of_labels_t{o.L}; break;
            case 7: st = go(number_of_epochs_t{o.ep}, cl); break;
            case 8: st = go(max_number_of_labels_t{o.L}); break;
            case 9: st = go(l); break;
            case 10: st = go(cl); break;
            default: st = go(std::move(l)); l = max_number_of_labels_t{o.L}; break;
        }
    else
        switch (form)
        {
            case 0: case 5: case 7: st = go(number_of_epochs_t{o.ep}); break;
            case 1: case 2: case 3: st = go(n); break;
            case 4: st = go(cn); break;
            case 6: st = go(std::move(n)); n = number_of_epochs_t{o.ep}; break;
            default: st = go(); break;
        }
    ctx.check(value_of(l) == o.L && value_of(cl) == o.L && value_of(n) == o.ep && value_of(cn) == o.ep, "options-modified",
        fmt("options %d labels, %u epochs became %d, %u in form %s ", o.L, o.ep, value_of(l), value_of(n), form_name(form)) + hist);
    return st;
}

static bool same(vector<aligned_vector_char> const & a, vector<aligned_vector_char> const & b) { return a == b; }
static bool same(vector<bit_vector_uint64> const & a, vector<bit_vector_uint64> const & b)
{
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto const & x, auto const & y)
    {
        return x.size() == y.size() && x.m_vector == y.m_vector;
    });
}

template<Kind K>
void options(Ctx & ctx, Rng & r)
{
    using T = Tr<K>;
    bool const dflt = r.chance(.3); // epochs left out
    Prob p = gen_prob(r, K, dflt ? 3 : 6, !dflt);
    if (dflt)
    {
        p.c.clauses = is_clf(K) ? 4 : 2;
        p.c.jobs = 1;
        p.F = r.range(1, 70);
        p.L = 2;
        int const n = r.range(1, 3);
        p.X = gen_rows(r, n, p.F);
        p.y = gen_y(r, p.c, n, p.L);
    }
    unsigned const ep = dflt ? 100 : r.pick({0u, 1u, 1u, 2u, 3u});
    int mx = 0;
    for (int v : p.y) mx = std::max(mx, v);
    int L = p.L;
    if (is_clf(K) && r.chance(.5)) L = r.pick({mx + 1, mx + 2, mx, 0, -1, 1, p.L + 3, INT_MIN});
    bool const accepted = !is_clf(K) || (std::max<int64_t>(int64_t(mx) + 1, L) >= 2);
    string hist = fmt("max labels %d, epochs %u ", L, ep) + p.str();
    ctx.op(hist);

    vector<typename T::X> const X = EstT<K>::conv(p.X);
    vector<typename T::X> const Xcopy = X;
    vector<int> const ybase = p.y;
    std::decay_t<decltype(label_vector_type())> y(p.y.begin(), p.y.end());

    // the reference: temporaries, labels first, epochs given
    auto a = must_make(ctx, p.c);
    auto & ea = dynamic_cast<EstT<K> &>(*a).e;
    status_message_t const sa = call<K, true>(ctx, ea, X, y, {L, ep}, 0, hist);
    if (!ctx.check((sa.first == S_OK) == accepted, "labels-requested-status", fmt("status %d (%s) ", int(sa.first), sa.second.c_str()) + hist)) return;
    Snap const A = a->snap();

    int const form = dflt ? r.range(FORMS, ALL_FORMS - 1) : r.range(1, FORMS - 1);
    bool const pf = r.chance(.4); // of an untrained one: the same
    auto b = must_make(ctx, p.c);
    auto & eb = dynamic_cast<EstT<K> &>(*b).e;
    hist += string(pf ? " partial_fit" : " fit") + form_name(form);
    status_message_t const sb = pf ? call<K, false>(ctx, eb, X, y, {L, ep}, form, hist) : call<K, true>(ctx, eb, X, y, {L, ep}, form, hist);
    ctx.check(sa == sb, "status-depends-on-form", fmt("%d vs %d ", int(sa.first), int(sb.first)) + hist);
    string d = snap_diff(A, b->snap());
    if (!ctx.check(d.empty(), "result-depends-on-form", d + ": " + hist)) return;
    ctx.check(vector<int>(y.begin(), y.end()) == ybase && same(X, Xcopy), "data-modified", hist);
    ctx.count(dflt ? "default_epochs_compared" : "forms_compared");
    ctx.count(fmt("form_%s", form_name(form)));
    ctx.seen(mix(A.model_digest(), form * 2 + pf));
    if (!accepted) { ctx.count("too_few_labels_refused"); return; }

    // continue, again in any form
    int const form2 = dflt ? r.range(FORMS, ALL_FORMS - 1) : r.range(1, FORMS - 1);
    int const L2 = r.pick({L, 2, 0, -5, 1, 7, INT_MAX, INT_MIN});
    hist += fmt(" then partial_fit%s labels %d", form_name(form2), L2);
    ctx.op(hist);
    auto const s1 = call<K, false>(ctx, ea, X, y, {L, ep}, 0, hist);
    auto const s2 = call<K, false>(ctx, eb, X, y, {L2, ep}, form2, hist);
    ctx.check(s1.first == S_OK && s2.first == S_OK, "continuation-refused", s1.second + s2.second + hist);
    d = snap_diff(a->snap(), b->snap());
    ctx.check(d.empty(), "continuation-depends-on-form", d + ": " + hist);
    ctx.count("evaluations");
    ctx.sample(hist.substr(0, 600));
}

// how many labels the model is for
template<Kind K>
void capacity(Ctx & ctx, Rng & r)
{
    if constexpr (is_clf(K))
    {
        Prob p = gen_prob(r, K, 6);
        int const n = int(p.X.size());
        int hi = r.chance(.05) ? r.pick({127, 128, 255, 256, 300}) : r.range(0, 9);
        if (hi > 9) { p.c.clauses = 4; p.F = r.range(1, 20); p.X = gen_rows(r, n, p.F); }
        for (auto & v : p.y) v = r.below(hi + 1);
        p.y[r.below(n)] = hi;
        int L = r.chance(.3) ? r.range(-2, hi) : r.range(hi, hi + 7);
        if (r.chance(.02)) // many, in the smallest of models
        {
            p.c.clauses = 4;
            p.c.jobs = 1;
            p.F = r.range(1, 2);
            p.X = gen_rows(r, n, p.F);
            L = r.pick({32767, 32768, 32769, 65535, 65536, 65537, 70000});
            if (r.chance(.3)) p.y[r.below(n)] = L - 1 + r.below(2);
            hi = *std::max_element(p.y.begin(), p.y.end());
            ctx.count("models_of_many_labels");
        }
        int const cap = std::max(hi + 1, L);
        if (cap < 2) return;
        string const hist = fmt("highest label %d, max labels %d, ", hi, L) + p.str();
        ctx.op(hist);
        auto e = must_make(ctx, p.c);
        unsigned const ep = r.below(3);
        Status const s = r.chance(.5) ? e->fit(p.X, p.y, L, ep) : e->partial_fit(p.X, p.y, L, ep);
        must_ok(ctx, s, "training");
        ctx.count("models_with_spare_labels", cap > hi + 1);
        Rows const Q = gen_rows(r, 2, p.F);
        for (int round = 0; round < 3; ++round)
        {
            auto const par = e->params();
            auto const it = par.find("number_of_labels");
            ctx.check(it != par.end() && it->second == fmt("int:%d", cap), "number-of-labels", (it == par.end() ? string("missing") : it->second) + fmt(" want %d ", cap) + hist);
            Snap const sn = e->snap();
            ctx.check(sn.rows == 2 * cap * p.c.outputs_per_group() && sn.cols == p.F, "model-size", fmt("%d rows, %d columns for %d labels ", sn.rows, sn.cols, cap) + hist);
            vector<vector<int>> d;
            must_ok(ctx, e->decision(Q, d), "decision_function");
            vector<int> d1;
            must_ok(ctx, e->decision1(Q[0], d1), "decision_function");
            for (auto const & v : d) ctx.check(int(v.size()) == cap, "scores-per-label", fmt("%zu scores for %d labels ", v.size(), cap) + hist);
            ctx.check(int(d1.size()) == cap, "scores-per-label", fmt("%zu scores for %d labels ", d1.size(), cap) + hist);
            Labels q;
            must_ok(ctx, e->predict(Q, q), "predict");
            for (int v : q) ctx.check(v >= 0 && v < cap, "predicted-label", fmt("%d of %d labels ", v, cap) + hist);
            ctx.count("capacities_checked");
            // any label below the capacity is taken, whatever number is asked for now, and none above
            Labels y = p.y;
            if (round == 0) y[r.below(n)] = cap - 1;
            else if (round == 1)
            {
                y[r.below(n)] = r.pick({cap, cap + 1, cap + 100, INT_MAX, INT_MAX - 1});
                Status const t = e->partial_fit(p.X, y, r.pick({cap, cap + 1, cap + 200, 0}), 1);
                ctx.check(t.code == 2, "label-beyond-capacity", fmt("status %d ", t.code) + hist);
                continue;
            }
            must_ok(ctx, e->partial_fit(p.X, y, r.pick({2, 0, cap, cap + 3, -1, INT_MAX}), 1), "label below capacity " + hist);
        }
        ctx.seen(mix(e->snap().model_digest(), cap));
        ctx.count("evaluations");
        // a second fit starts afresh with its own labels
        int const L2 = r.range(-1, 12);
        Labels y2(n);
        for (auto & v : y2) v = r.below(4);
        int m2 = 0;
        for (int v : y2) m2 = std::max(m2, v);
        int const cap2 = std::max(m2 + 1, L2);
        if (cap2 < 2) return;
        must_ok(ctx, e->fit(p.X, y2, L2, 1), "refit");
        ctx.check(e->params()["number_of_labels"] == fmt("int:%d", cap2), "number-of-labels", fmt("refit: want %d ", cap2) + hist);
        vector<vector<int>> d;
        must_ok(ctx, e->decision(Q, d), "decision_function");
        for (auto const & v : d) ctx.check(int(v.size()) == cap2, "scores-per-label", fmt("%zu scores after refit for %d labels ", v.size(), cap2) + hist);
        ctx.count("refits_with_other_capacity", cap2 != cap);
    }
}

template<Kind K> void one(Ctx & ctx, Rng & r, int64_t id)
{
    if (is_clf(K) && id % 8 >= 4) capacity<K>(ctx, r);
    else options<K>(ctx, r);
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    switch (id % 4)
    {
        case 0: return one<CC>(ctx, r, id);
        case 1: return one<CB>(ctx, r, id);
        case 2: return one<RC>(ctx, r, id);
        default: return one<RB>(ctx, r, id);
    }
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
