// C01: hostile API histories over a pool of estimators; the sanitizers (or valgrind) are the oracle, and
// a heap balance monitor stands in for the leak checker.
#include "calls.hpp"
#include "est.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace H
{

struct Slot
{
    Cfg c;
    Shape s;
    EstP e;
};

static Cfg extreme_cfg(Rng & r)
{
    Cfg c = gen_cfg(r, gen_kind(r));
    c.verbose = r.chance(.08);
    if (r.chance(.15)) c.T = r.pick({1, 2147483647, 1073741824, 1 << 24});
    if (r.chance(.1)) c.nstates = r.pick({1, 127, 128, 32767, 32768, 2147483647, 1 << 30});
    if (r.chance(.1)) c.s = r.pick({1.f, 1.0000001f, 3.0e38f, 1e9f});
    if (r.chance(.15)) c.C1 = r.pick({-3.f, 1e30f, 3.4e38f, -1e30f, 100.f});
    if (r.chance(.2)) c.bm = true;
    if (r.chance(.06)) c.jobs = r.pick({33, 64, 1 << 30, 2147483647});
    return c;
}

static void history(Ctx & ctx, Rng r, bool counting, int steps)
{
    bool const short_mode = ctx.extra == "short";
    marathons = !short_mode;
    vector<Slot> pool;
    string log;
    auto add = [&](Slot && s)
    {
        if (pool.size() >= 3) pool.erase(pool.begin() + r.below(3));
        pool.push_back(std::move(s));
    };
    auto fresh = [&]
    {
        Slot s;
        s.c = extreme_cfg(r);
        log += " new:" + s.c.str();
        ctx.op(log);
        s.e = make_est(s.c, r.chance(.5));
        if (!s.e) { ctx.violation("create-refused", s.c.str()); throw Abandon{""}; }
        add(std::move(s));
    };
    fresh();
    for (int i = 0; i < steps; ++i)
    {
        if (log.size() > 3000) log.erase(0, log.size() - 3000);
        Slot & s = pool[r.below(int(pool.size()))];
        int const op = r.below(20);
        string name = "call";
        if (op == 0) { name = "create"; fresh(); }
        else if (op == 1)
        {
            name = "clone";
            log += " clone"; ctx.op(log);
            Slot n{s.c, s.s, s.e->clone()};
            add(std::move(n));
        }
        else if (op == 2)
        {
            name = "move";
            log += " move"; ctx.op(log);
            auto n = s.e->steal();
            s.e = std::move(n); // destroys the moved-from one
        }
        else if (op == 3)
        {
            name = "move-assign";
            // over any other estimator of the same kind, which dies
            for (auto & t : pool)
                if (&t != &s && t.c.kind == s.c.kind)
                {
                    log += " move-assign"; ctx.op(log);
                    t.e->assign_move(*s.e);
                    t.c = s.c;
                    t.s = s.s;
                    s.e = t.e->clone();
                    break;
                }
        }
        else if (op == 4 && (!short_mode || r.chance(.3)))
        {
            name = "save-load";
            log += " save-load"; ctx.op(log);
            string const doc = s.e->save();
            Slot n{s.c, s.s, s.e->load(doc)};
            if (counting) ctx.count("saved_bytes", doc.size());
            if (r.chance(.3))
            {
                name = "load-truncated";
                string const cut = doc.substr(0, r.chance(.5) ? doc.size() - 1 - r.below(std::min<int>(40, int(doc.size()) - 1)) : r.next() % doc.size());
                log += fmt(" load-truncated(%zu of %zu)", cut.size(), doc.size()); ctx.op(log);
                try
                {
                    auto x = s.e->load(cut);
                    ctx.violation("truncated-accepted", log);
                }
                catch (std::exception const &) {}
            }
            add(std::move(n));
        }
        else if (op == 6)
        {
            name = "inject";
            if (s.s.fitted)
            {
                Snap const sn = s.e->snap();
                Row const like = gen_row(r, s.s.F);
                vector<uint32_t> w(sn.w.size());
                for (auto & v : w) v = uint32_t(std::min<int64_t>(r.pick({0, 1, 5, 2147483646}), s.c.maxw - 1));
                log += " inject"; ctx.op(log);
                int const N = s.c.nstates;
                auto const ta = gen_ta(r, sn.rows, s.s.F, N, &like);
                s.e = s.e->with(ta, w);
            }
        }
        else if (op == 7)
        {
            name = "equality";
            log += " =="; ctx.op(log);
            auto n = s.e->clone();
            ctx.check(n->state_equal(*s.e), "clone-unequal", log);
        }
        else if (op == 5 && r.chance(.2))
        {
            // rows without any feature: whatever the answers, nothing may break
            name = "no-features";
            Slot n;
            n.c = extreme_cfg(r);
            n.e = make_est(n.c, true);
            if (!n.e) { ctx.violation("create-refused", n.c.str()); throw Abandon{""}; }
            log += " no-features:" + n.c.str(); ctx.op(log);
            Rows const X(r.range(1, 4), Row(vector<char>{}));
            Labels y = gen_y(r, n.c, int(X.size()), 3), o;
            if (is_clf(n.c.kind)) y[0] = 1;
            int one = 0;
            vector<vector<int>> d;
            float a = 0;
            (void)n.e->fit(X, y, 2, 2);
            (void)n.e->partial_fit(X, y, 2, 1);
            (void)n.e->predict(X, o);
            (void)n.e->predict1(X[0], one);
            (void)n.e->decision(X, d);
            (void)n.e->evaluate(X, y, a);
            (void)n.e->predict(gen_rows(r, 2, 3), o);
            auto m = n.e->clone();
            (void)m->partial_fit(gen_rows(r, int(y.size()), r.range(1, 70)), y, 2, 1);
            m = n.e->load(n.e->save());
            (void)m->fit(gen_rows(r, int(y.size()), r.range(1, 70)), y, 2, 1);
        }
        else
        {
            Call call = gen_call(r, s.c, s.s, .35, .5, !(&__sanitizer_get_current_allocated_bytes == nullptr));
            log += " " + call.str();
            ctx.op(log);
            name = call_name(call.k);
            Status const st = perform(*s.e, call);
            ctx.check(st.code == call.want, (string("status:") + name).c_str(), fmt("got %d want %d ", st.code, call.want) + log);
            learn_shape(s.s, call);
            if (counting)
            {
                uint64_t h = mix(uint64_t(s.c.kind), call.k);
                h = mix(h, std::hash<string>()(call.why)); h = mix(h, s.s.F); h = mix(h, s.c.tile); h = mix(h, s.c.nstates);
                h = mix(h, s.c.T); h = mix(h, std::hash<string>()(s.c.loss + s.c.ctype)); h = mix(h, s.c.weighted * 8 + s.c.boost * 4 + s.c.bm * 2 + (s.c.jobs > 1));
                ctx.seen(h);
            }
        }
        if (counting)
        {
            ctx.count("evaluations");
            ctx.count("op_" + name);
        }
    }
    if (counting) ctx.sample(log.substr(0, 1200));
}

// models of more than 2^32 automata: 4.3 GB each
template<Kind K>
static void giant(Ctx & ctx, Rng & r)
{
    using T = Tr<K>;
    if (mem_available() < (10ull << 30)) { ctx.count("giant_skipped_for_memory"); return; }
    try
    {
        int const outputs = 32, F = (1 << 26) + r.pick({0, 1, 70, 128});
        Cfg c;
        c.kind = K;
        c.clauses = is_clf(K) ? outputs : outputs * 2; // physical, two labels or none
        c.nstates = 100; c.ctype = "int8"; c.T = 10; c.s = 1e7f; c.jobs = r.pick({1, 4}); c.seed = unsigned(r.next()); c.weighted = r.chance(.5); c.maxw = 5;
        ctx.op("giant " + c.str());
        auto e = must_make(ctx, c);
        auto & est = dynamic_cast<EstT<K> &>(*e).e;
        vector<typename T::X> X(1);
        if constexpr (is_bw(K)) { X[0] = typename T::X(F); for (int i = 0; i < 1000; ++i) X[0].set(r.below(F)); X[0].set(F - 1); }
        else { X[0] = typename T::X(F); for (int i = 0; i < 1000; ++i) X[0][r.below(F)] = 1; X[0][F - 1] = 1; }
        std::conditional_t<is_clf(K), label_vector_type, response_vector_type> const y{1};
        status_message_t st;
        if constexpr (is_clf(K)) st = est.fit(X, y, max_number_of_labels_t{2}, number_of_epochs_t{1});
        else st = est.fit(X, y, number_of_epochs_t{1});
        ctx.check(st.first == S_OK, "giant-refused", st.second + c.str());
        ctx.op("giant, trained " + c.str());
        auto const p = est.predict(X[0]);
        ctx.check(!p.isLeft, "giant-refused", "predict " + c.str());
        ctx.count("giants");
    }
    catch (std::bad_alloc const &) { ctx.count("giant_skipped_for_memory"); }
}

// more rows than any stack has room for
template<Kind K>
static void many_rows(Ctx & ctx, Rng & r)
{
    using T = Tr<K>;
    try
    {
        int const n = r.pick({2200000, 2500000, 3000000}), F = r.range(1, 2);
        Cfg c;
        c.kind = K;
        c.clauses = is_clf(K) ? 4 : 2;
        c.T = 10; c.jobs = 1; c.seed = unsigned(r.next());
        ctx.op(fmt("%d rows ", n) + c.str());
        auto e = must_make(ctx, c);
        auto & est = dynamic_cast<EstT<K> &>(*e).e;
        vector<typename T::X> X(n, typename T::X(F));
        std::conditional_t<is_clf(K), label_vector_type, response_vector_type> y(n, 0);
        for (int i = 0; i < n; ++i) y[i] = i & 1;
        status_message_t st;
        if constexpr (is_clf(K)) st = est.fit(X, y, max_number_of_labels_t{2}, number_of_epochs_t{1});
        else st = est.fit(X, y, number_of_epochs_t{1});
        ctx.check(st.first == S_OK, "many-rows-refused", st.second + c.str());
        if constexpr (is_clf(K)) st = est.partial_fit(X, y, max_number_of_labels_t{2}, number_of_epochs_t{1});
        else st = est.partial_fit(X, y, number_of_epochs_t{1});
        ctx.check(st.first == S_OK, "many-rows-refused", st.second + c.str());
        ctx.op("many rows, trained " + c.str());
        ctx.check(!est.predict(X).isLeft, "many-rows-refused", "predict " + c.str());
        if constexpr (is_clf(K))
        {
            ctx.check(!est.evaluate(X, y).isLeft, "many-rows-refused", "evaluate " + c.str());
            ctx.check(!est.decision_function(X).isLeft, "many-rows-refused", "decision_function " + c.str());
        }
        ctx.count("many_rows");
    }
    catch (std::bad_alloc const &) { ctx.count("giant_skipped_for_memory"); }
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    if (ctx.extra == "giant")
    {
        many_rows<CC>(ctx, r);
        many_rows<CB>(ctx, r);
        many_rows<RC>(ctx, r);
        many_rows<RB>(ctx, r);
        switch (id % 4)
        {
            case 0: return giant<RC>(ctx, r);
            case 1: return giant<CB>(ctx, r);
            case 2: return giant<CC>(ctx, r);
            default: return giant<RB>(ctx, r);
        }
    }
    bool const leaks = &__sanitizer_get_current_allocated_bytes != nullptr;
    int const steps = ctx.extra == "short" ? r.range(3, 8) : r.range(6, 22);
    int const v0 = ctx.violations;
    history(ctx, r, true, steps);
    if (!leaks || ctx.violations != v0) return;
    // the same history again: everything it allocates must be gone at its end. Thread pools and lazily
    // built tables exist by now; anything that still grows every time is a leak
    ctx.op("heap balance");
    int grown = 0;
    size_t growth = 0;
    for (int i = 0; i < 12; ++i)
    {
        size_t const before = __sanitizer_get_current_allocated_bytes();
        history(ctx, r, false, steps);
        size_t const after = __sanitizer_get_current_allocated_bytes();
        if (after <= before) break;
        ++grown;
        growth = after - before;
    }
    ctx.check(grown < 12, "leak", fmt("%zu bytes more allocated after each repetition of the history", growth));
    ctx.count("heap_balance_checked");
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
