// C02: the status of every training and querying call; C03 (mode --extra state): what refused calls leave behind.
#include "calls.hpp"
#include "est.hpp"

namespace H
{

// rows with more features than an int can count
template<Kind K>
static void giant(Ctx & ctx, Rng & r)
{
    using T = Tr<K>;
    if (mem_available() < (10ull << 30)) { ctx.count("giant_skipped_for_memory"); return; }
    try
    {
        for (uint64_t const base : {1ull << 31, 1ull << 32})
        {
            if (!is_bw(K) && base >> 32) break;
            int const F = r.range(1, 200);
            uint64_t const n = base + (r.chance(.7) ? F : 0);
            Cfg c;
            c.kind = K; c.T = 10;
            c.clauses = 4; c.jobs = 1; c.seed = unsigned(r.next());
            string const h = fmt("%llu features, trained %d ", (unsigned long long)n, F) + c.str();
            ctx.op("giant " + h);
            vector<typename T::X> G(1), X(1);
            G[0] = typename T::X(n);
            X[0] = typename T::X(F);
            std::conditional_t<is_clf(K), label_vector_type, response_vector_type> const y{1};
            auto train = [&](auto & est, auto const & X, bool fit)
            {
                if constexpr (is_clf(K)) return fit ? est.fit(X, y, max_number_of_labels_t{2}, number_of_epochs_t{1}) : est.partial_fit(X, y, max_number_of_labels_t{2}, number_of_epochs_t{1});
                else return fit ? est.fit(X, y, number_of_epochs_t{1}) : est.partial_fit(X, y, number_of_epochs_t{1});
            };
            auto refused = [&](status_message_t const & s, char const * what)
            {
                ctx.count("giant_rows_given");
                ctx.check(s.first == S_VALUE_ERROR && !s.second.empty(), (string("invalid-wrong-status:") + what + ":giant-row").c_str(), fmt("got %d ", int(s.first)) + h);
            };
            auto e = must_make(ctx, c);
            auto & est = dynamic_cast<EstT<K> &>(*e).e;
            refused(train(est, G, r.chance(.5)), "untrained");
            ctx.check(train(est, X, true).first == S_OK, "valid-refused:fit:", h);
            auto const before = e->snap();
            refused(train(est, G, true), "fit");
            refused(train(est, G, false), "partial_fit");
            auto left = [](auto && x) { return x.isLeft ? x.leftValue : status_message_t{S_OK, ""}; };
            refused(left(est.predict(G)), "predict");
            refused(left(est.predict(G[0])), "predict(one)");
            if constexpr (is_clf(K))
            {
                refused(left(est.evaluate(G, y)), "evaluate");
                refused(left(est.decision_function(G)), "decision_function");
                refused(left(est.decision_function(G[0])), "decision_function(one)");
            }
            ctx.check(snap_diff(before, e->snap()).empty(), "refused-call-changed-state", h);
            ctx.count("evaluations");
        }
    }
    catch (std::bad_alloc const &) { ctx.count("giant_skipped_for_memory"); }
}

// one single fault anywhere in very much data
static void crowd(Ctx & ctx, Rng & r, Kind k, bool state_mode)
{
    Cfg c = gen_cfg(r, k);
    c.clauses = is_clf(k) ? 4 : 2;
    c.jobs = 1;
    c.verbose = false;
    if (!is_clf(k)) c.T = r.pick({1, 15, 1000});
    bool const wide = r.chance(.3);
    int const n = wide ? r.range(2, 5) : r.pick({1500, 6000, 12000, 40000, 66000, 70001, 110000});
    int const F = wide ? r.pick({5000, 20000, 33000, 66000, 70001, 140000}) : r.chance(.2) ? r.range(60, 70) : r.range(1, 9);
    int const L = r.range(2, 4);
    string const what = fmt("%d rows of %d features, %d labels ", n, F, L) + c.str();
    Call k0;
    k0.X = gen_rows(r, n, F);
    k0.y = gen_y(r, c, n, L);
    k0.L = L;
    k0.ep = 0;
    k0.k = FIT;
    auto e = must_make(ctx, c, r.chance(.5));
    bool const later = r.chance(.7);
    ctx.op("crowd " + what);
    Status st;
    if (later)
    {
        st = perform(*e, k0);
        if (!ctx.check(st.code == 0, "valid-refused:crowd", st.msg + " " + what)) return;
        for (int q : {PRED, EVAL})
            if (!wide && (q == PRED || is_clf(k)))
            {
                k0.k = decltype(k0.k)(q);
                st = perform(*e, k0);
                if (!ctx.check(st.code == 0, "valid-refused:crowd", st.msg + " " + what)) return;
            }
    }
    for (int i = 0; i < 14; ++i)
    {
        int const at = r.chance(.15) ? 0 : r.chance(.15) ? n - 1 : r.below(n);
        auto & x = k0.X[at];
        auto & y = k0.y[at];
        Row const x0 = x;
        int const y0 = y;
        k0.k = !later ? r.pick({FIT, PFIT}) : is_clf(k) ? r.pick({FIT, PFIT, PFIT, PRED, EVAL, DEC}) : r.pick({FIT, PFIT, PFIT, PRED});
        bool const fresh = k0.k == FIT || !later;
        string why;
        int const f = r.chance(.2) ? F - 1 : r.below(F);
        switch (r.below(k0.k <= PFIT ? 4 : 2))
        {
            case 0:
                if (F == 1 || r.chance(.5)) { x.v.push_back(0); why = "longer row"; }
                else { x.v.pop_back(); why = "shorter row"; }
                break;
            case 1:
                if (!is_bw(k)) { x.v[f] = char(r.pick({2, -1, 127, -128, 3})); why = fmt("value %d of feature %d", int(x.v[f]), f); }
                else { if (F % 64 == 0) continue; x.pad.push_back(r.range(F, F / 64 * 64 + 63)); why = fmt("stray bit %d", x.pad[0]); }
                break;
            case 2: y = r.pick({-1, -7, INT_MIN}); why = fmt("label %d", y); break;
            default: y = is_clf(k) ? (fresh ? INT_MAX : r.pick({*std::max_element(k0.y.begin(), k0.y.end()) + 1000, 100, INT_MAX})) : r.pick({c.T + 1, INT_MAX}); why = fmt("label %d", y); break;
        }
        if (is_clf(k) && k0.k == PFIT && later) k0.L = r.pick({L, 2, 1000});
        else k0.L = L;
        string const str = fmt("%s: row %d: %s of ", call_name(k0.k), at, why.c_str()) + what;
        ctx.op(str);
        Snap before;
        if (state_mode) before = e->snap();
        st = perform(*e, k0);
        if (state_mode)
        {
            if (st.code != int(S_VALUE_ERROR)) return; // C02's business
            string const d = snap_diff(before, e->snap());
            if (!ctx.check(d.empty(), (string("refused-call-changed-state:") + call_name(k0.k)).c_str(), d + " after " + str)) return;
        }
        else
        {
            if (!ctx.check(st.code == int(S_VALUE_ERROR), (string("invalid-wrong-status:") + call_name(k0.k) + ":single").c_str(), fmt("got %s (%s): ", code_name(st.code), st.msg.c_str()) + str)) return;
            ctx.check(!st.msg.empty(), "empty-message", str);
        }
        ctx.count("single_faults_in_much_data");
        ctx.count("evaluations");
        ctx.seen(mix(std::hash<string>()(why), uint64_t(at)));
        x = x0;
        y = y0;
    }
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    if (ctx.extra == "giant")
    {
        switch (id % 4)
        {
            case 0: return giant<CB>(ctx, r);
            case 1: return giant<RB>(ctx, r);
            case 2: return giant<RC>(ctx, r);
            default: return giant<CC>(ctx, r);
        }
    }
    Kind const k = Kind(id % 4);
    Cfg c = gen_cfg(r, k);
    if (r.chance(.012)) return crowd(ctx, r, k, ctx.extra == "state");
    giant_clauses(r, c, .002);
    if (r.chance(.05)) c.T = r.pick({2147483647, 1073741824});
    bool const state_mode = ctx.extra == "state";
    auto e = must_make(ctx, c, r.chance(.5));
    auto twin = state_mode ? must_make(ctx, c) : nullptr;
    Shape s;
    string hist = c.str();
    int const steps = r.range(3, 9);
    for (int i = 0; i < steps; ++i)
    {
        Call const call = gen_call(r, c, s, state_mode ? .6 : .65);
        hist += " | " + call.str();
        ctx.op(hist);
        Snap before;
        auto refused_effect = state_mode && call.want != 0;
        if (refused_effect) before = e->snap();
        uint64_t h1 = 1, h2 = 1;
        Status const st = perform(*e, call, &h1);
        ctx.count("evaluations");
        ctx.count(string("status_") + code_name(call.want));
        if (call.want) { ctx.count("refusals_of_" + string(call_name(call.k))); }
        if (!state_mode)
        {
            // what was wrong (first reason names the key)
            string reason = call.why.substr(0, call.why.find(' ', 1));
            reason = reason.substr(0, reason.find('='));
            reason = reason.substr(0, reason.find('+'));
            if (!reason.empty()) reason = reason.substr(1);
            if (!ctx.check(st.code == call.want,
                (string(call.want == 0 ? "valid-refused:" : "invalid-wrong-status:") + call_name(call.k) + ":" + reason).c_str(),
                fmt("got %s (%s) want %s: ", code_name(st.code), st.msg.c_str(), code_name(call.want)) + hist)) return;
            if (st.code != 0) ctx.check(!st.msg.empty(), "empty-message", hist);
            if (call.want == 0 && call.k <= PFIT)
            {
                Shape t = s;
                learn_shape(t, call);
                auto const p = e->params();
                ctx.check(p.at("number_of_features") == fmt("int:%d", t.F), "features-recorded", hist);
                if (is_clf(k)) ctx.check(p.at("number_of_labels") == fmt("int:%d", t.L), "labels-recorded", p.at("number_of_labels") + hist);
            }
            if (call.want == 0)
            {
                // an answer for each example
                Labels o;
                if (call.k == PRED && e->predict(call.X, o).code == 0)
                    ctx.check(o.size() == call.X.size(), "answer-count", hist);
            }
        }
        else
        {
            if (st.code != call.want) return; // C02's business; the twin comparison would be meaningless
            if (refused_effect)
            {
                Snap const after = e->snap();
                string const d = snap_diff(before, after);
                ctx.check(d.empty(), (string("refused-call-changed-state:") + call_name(call.k)).c_str(), d + " after " + hist);
                ctx.count(before.fitted ? "refused_on_fitted" : "refused_on_unfitted");
            }
            else
            {
                perform(*twin, call, &h2);
                ctx.check(h1 == h2, "answers-differ-from-twin", hist);
                string const d = snap_diff(twin->snap(), e->snap());
                if (!ctx.check(d.empty(), "state-differs-from-twin", d + " " + hist)) return;
                ctx.count("twin_comparisons");
            }
        }
        if (!call.why.empty())
        {
            uint64_t h = mix(std::hash<string>()(call.why), call.k);
            h = mix(h, uint64_t(k)); h = mix(h, s.fitted); h = mix(h, s.F); h = mix(h, call.X.size());
            ctx.seen(h);
            ctx.count("spoilt" + call.why.substr(0, call.why.find_first_of(" =+-", 2)));
        }
        learn_shape(s, call);
    }
    ctx.sample(hist.substr(0, 1500));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
