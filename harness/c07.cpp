// C07: parallel training and querying, and independent estimators in threads, under ThreadSanitizer;
// each thread's results against those of a run alone.
#include "calls.hpp"
#include "est.hpp"

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

namespace H
{

extern std::atomic<uint64_t> g_regions, g_threads, g_delays, g_orders;
extern std::atomic<uint32_t> g_delay_seed;

// data shared, read only, by all threads
struct Shared
{
    vector<vector<aligned_vector_char>> c;
    vector<vector<bit_vector_uint64>> b;
    vector<Labels> yc, yr;
    vector<int> F, L;
};

enum Op { O_FIT, O_PFIT, O_PRED, O_PRED1, O_DEC, O_EVAL, O_PARAMS, O_CLONE, O_SAVE, O_MOVE, O_REJECT, O_NEW, NOP };

struct Script
{
    Kind k;
    Cfg c;
    bool json = false;
    int origin = -1; // index of the common ancestor to be cloned, or -1 for a new estimator
    vector<std::pair<int, int>> ops; // operation, data set
    vector<int> eps;
};

template<Kind K> struct Run
{
    using T = Tr<K>;
    using E = typename T::E;
    static vector<typename T::X> const & data(Shared const & s, int i)
    {
        if constexpr (is_bw(K)) return s.b[i];
        else return s.c[i];
    }
    static E make(Script const & q)
    {
        auto ei = q.json ? make_json<K>(q.c.json()) : make_from_cfg_args<K>(q.c);
        if (ei.isLeft) throw Abandon{"create: " + ei.leftValue.second};
        return std::move(ei.rightValue);
    }
    static uint64_t go(Script const & q, Shared const & s, E e)
    {
        uint64_t h = 7;
        auto put = [&](auto const & ei, auto && f)
        {
            if (ei.isLeft) h = mix(h, 1000 + int(ei.leftValue.first));
            else f(ei.rightValue);
        };
        auto ints = [&](auto const & v) { for (auto x : v) h = mix(h, uint32_t(x)); };
        for (size_t i = 0; i < q.ops.size(); ++i)
        {
            int const d = q.ops[i].second;
            auto const & X = data(s, d);
            auto const & y = is_clf(K) ? s.yc[d] : s.yr[d];
            unsigned const ep = q.eps[i];
            switch (q.ops[i].first)
            {
                case O_FIT:
                    if constexpr (is_clf(K)) h = mix(h, e.fit(X, y, max_number_of_labels_t{s.L[d]}, number_of_epochs_t{ep}).first);
                    else h = mix(h, e.fit(X, y, number_of_epochs_t{ep}).first);
                    break;
                case O_PFIT:
                    if constexpr (is_clf(K)) h = mix(h, e.partial_fit(X, y, max_number_of_labels_t{s.L[d]}, number_of_epochs_t{ep}).first);
                    else h = mix(h, e.partial_fit(X, y, number_of_epochs_t{ep}).first);
                    break;
                case O_PRED: put(e.predict(X), ints); break;
                case O_PRED1: put(e.predict(X[0]), [&](auto v) { h = mix(h, uint32_t(v)); }); break;
                case O_DEC:
                    if constexpr (is_clf(K))
                    {
                        put(e.decision_function(X), [&](auto const & v) { for (auto const & r : v) ints(r); });
                        put(e.decision_function(X[0]), ints);
                    }
                    break;
                case O_EVAL:
                    if constexpr (is_clf(K)) put(e.evaluate(X, y), [&](auto v) { h = mix(h, uint32_t(v * 65536)); });
                    break;
                case O_PARAMS: for (auto & kv : params_map(e.read_params())) h = mix(h, std::hash<string>()(kv.first + kv.second)); break;
                case O_CLONE: { auto p = e.clone_state(); e = E(*p); break; }
                case O_SAVE:
                {
                    auto p = e.clone_state();
                    string const doc = to_json_string(*p);
                    h = mix(h, std::hash<string>()(doc));
                    auto p2 = e.clone_state();
                    from_json_string(*p2, doc);
                    e = E(*p2);
                    break;
                }
                case O_MOVE: { E f(std::move(e)); e = std::move(f); break; }
                case O_REJECT:
                {
                    auto z = y;
                    z[0] = -1;
                    if constexpr (is_clf(K)) h = mix(h, e.partial_fit(X, z, max_number_of_labels_t{s.L[d]}, number_of_epochs_t{1}).first);
                    else h = mix(h, e.partial_fit(X, z, number_of_epochs_t{1}).first);
                    break;
                }
                case O_NEW: // unseeded ones come and go
                {
                    auto ei = make_json<K>("{}");
                    if (ei.isLeft) h = mix(h, 99);
                    break;
                }
            }
        }
        auto p = e.clone_state();
        Snap sn = take_snap(*p);
        return mix(h, sn.digest());
    }
};

struct Ancestor // a trained or fresh estimator that several threads' estimators were cloned from
{
    Kind k;
    std::shared_ptr<ClassifierStateClassic> cc;
    std::shared_ptr<ClassifierStateBitwise> cb;
    std::shared_ptr<RegressorStateClassic> rc;
    std::shared_ptr<RegressorStateBitwise> rb;
};

template<Kind K> auto const & state_of(Ancestor const & a)
{
    if constexpr (K == CC) return *a.cc;
    else if constexpr (K == CB) return *a.cb;
    else if constexpr (K == RC) return *a.rc;
    else return *a.rb;
}

template<Kind K> typename Tr<K>::E begin(Script const & q, vector<Ancestor> const & anc)
{
    if (q.origin >= 0) return typename Tr<K>::E(state_of<K>(anc[q.origin])); // clones the state
    return Run<K>::make(q);
}

static uint64_t run(Script const & q, Shared const & s, vector<Ancestor> const & anc)
{
    switch (q.k)
    {
        case CC: return Run<CC>::go(q, s, begin<CC>(q, anc));
        case CB: return Run<CB>::go(q, s, begin<CB>(q, anc));
        case RC: return Run<RC>::go(q, s, begin<RC>(q, anc));
        default: return Run<RB>::go(q, s, begin<RB>(q, anc));
    }
}

template<Kind K> void make_ancestor(Ancestor & a, Script const & q, Shared const & s, int d, unsigned ep)
{
    auto e = Run<K>::make(q);
    auto const & X = Run<K>::data(s, d);
    if (ep)
    {
        if constexpr (is_clf(K)) (void)!e.fit(X, s.yc[d], max_number_of_labels_t{s.L[d]}, number_of_epochs_t{ep}).first;
        else (void)!e.fit(X, s.yr[d], number_of_epochs_t{ep}).first;
    }
    if constexpr (K == CC) a.cc = e.clone_state();
    else if constexpr (K == CB) a.cb = e.clone_state();
    else if constexpr (K == RC) a.rc = e.clone_state();
    else a.rb = e.clone_state();
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    bool const alone = id % 3 == 0; // one estimator, many jobs; otherwise several threads
    g_delay_seed = r.chance(.25) ? 0 : uint32_t(r.next() | 1);
    Shared s;
    int const F = gen_features(r, r.chance(.3)), nd = 2;
    for (int d = 0; d < nd; ++d)
    {
        int const n = F < 70 && r.chance(.15) ? r.range(6, 130) : r.range(1, 5), L = r.range(2, 4);
        Rows const X = gen_rows(r, n, F);
        s.c.emplace_back();
        s.b.emplace_back();
        for (auto & x : X) { s.c.back().push_back(to_classic(x)); s.b.back().push_back(to_bits(x)); }
        Labels yc(n), yr(n);
        for (auto & v : yc) v = r.below(L);
        for (auto & v : yr) v = r.below(2);
        s.yc.push_back(yc);
        s.yr.push_back(yr);
        s.F.push_back(F);
        s.L.push_back(L);
    }
    auto script = [&](Kind k)
    {
        Script q;
        q.k = k;
        q.c = gen_cfg(r, k);
        q.c.clauses = is_clf(k) ? 4 * r.range(1, 4) : 2 * r.range(1, 12);
        if (int64_t(F) * q.c.outputs_per_group() > 8000) q.c.clauses = 4;
        q.c.jobs = alone ? r.pick({2, 3, 4, 5, 8}) : r.pick({1, 1, 2, 3});
        q.json = r.chance(.3);
        q.c.verbose = r.chance(.2);
        if (q.c.verbose) ctx.count("verbose_estimators");
        int const n = alone ? r.range(3, 7) : r.range(3, 9);
        for (int i = 0; i < n; ++i)
        {
            int op = i == 0 ? O_FIT : r.chance(.35) ? O_PFIT : r.below(NOP);
            if (i == 0 && r.chance(.1)) op = r.below(NOP);
            q.ops.push_back({op, r.below(nd)});
            q.eps.push_back(r.range(0, 2));
        }
        return q;
    };
    vector<Script> qs;
    vector<Ancestor> anc;
    int const threads = alone ? 1 : r.range(2, 4);
    if (!alone)
    {
        Kind const k = gen_kind(r);
        Script q = script(k);
        Ancestor a;
        a.k = k;
        unsigned const ep = r.pick({0u, 1u, 2u});
        int const d = r.below(nd);
        if (k == CC) make_ancestor<CC>(a, q, s, d, ep);
        else if (k == CB) make_ancestor<CB>(a, q, s, d, ep);
        else if (k == RC) make_ancestor<RC>(a, q, s, d, ep);
        else make_ancestor<RB>(a, q, s, d, ep);
        anc.push_back(std::move(a));
        bool const same_cfg = r.chance(.5);
        for (int t = 0; t < threads; ++t)
        {
            bool const descend = r.chance(.5);
            Kind const kt = descend || same_cfg ? k : gen_kind(r);
            Script x = script(kt);
            if (descend) { x.origin = 0; x.c = q.c; }
            qs.push_back(x);
        }
    }
    else qs.push_back(script(Kind((id / 3) % 4)));
    string hist = fmt("F=%d", F);
    for (auto & q : qs)
    {
        hist += fmt(" || origin=%d ", q.origin) + q.c.str() + ":";
        for (size_t i = 0; i < q.ops.size(); ++i) hist += fmt(" %d/%d/%d", q.ops[i].first, q.ops[i].second, q.eps[i]);
    }
    ctx.op(hist);
    uint64_t const reg0 = g_regions, thr0 = g_threads;
    // together first, so that anything initialised lazily is initialised by competing threads
    vector<uint64_t> together(qs.size()), alone_(qs.size());
    string failed;
    std::mutex m;
    if (threads == 1)
    {
        try { together[0] = run(qs[0], s, anc); }
        catch (Abandon const & a) { failed = a.why; }
        catch (std::exception const & e) { failed = e.what(); }
    }
    else
    {
        std::atomic<int> ready{0};
        vector<std::thread> ts;
        for (size_t i = 0; i < qs.size(); ++i)
            ts.emplace_back([&, i]
            {
                // relaxed: no happens-before between the threads
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
                try { together[i] = run(qs[i], s, anc); }
                catch (Abandon const & a) { std::lock_guard<std::mutex> l(m); failed = a.why; }
                catch (std::exception const & e) { std::lock_guard<std::mutex> l(m); failed = e.what(); }
            });
        for (auto & t : ts) t.join();
        ctx.count("thread_groups");
        ctx.count("threads", threads);
    }
    if (!ctx.check(failed.empty(), "failed-in-thread", failed + " in " + hist)) return;
    g_delay_seed = 0;
    for (size_t i = 0; i < qs.size(); ++i)
    {
        Script q = qs[i];
        if (alone) q.c.jobs = 1;
        alone_[i] = alone ? 0 : run(q, s, anc);
        if (alone)
        {
            // again, under other delays; job count itself is C06's business
            g_delay_seed = uint32_t(r.next() | 1);
            alone_[i] = run(qs[i], s, anc);
        }
        ctx.check(together[i] == alone_[i], alone ? "schedule-changes-result" : "threads-interact", fmt("script %zu of ", i) + hist);
        ctx.count("results_compared");
        ctx.seen(mix(together[i], g_orders));
    }
    ctx.count("parallel_regions", g_regions - reg0);
    ctx.count("region_threads", g_threads - thr0);
    ctx.count("evaluations", qs.size());
    ctx.sample(hist.substr(0, 500));
}

} // namespace H

int main(int argc, char ** argv)
{
    return H::harness_main(argc, argv, [](H::Ctx & c) { c.count("delays", H::g_delays); });
}
