// C05: the same history in processes that differ in heap contents, layout, environment and in what other
// estimators do meanwhile. Digests are compared by the driver; within a process with a quiet repetition.
#include "calls.hpp"
#include "est.hpp"

#include <thread>

namespace H
{

// fills free heap memory and the stack with a pattern
static void __attribute__((noinline)) dirty(Rng & r)
{
    int const pattern = r.pick({0, 0xff, 0x01, 0x80, 0x7f, 0xa5});
    vector<std::pair<void *, size_t>> blocks;
    for (int i = r.range(0, 60); i > 0; --i)
    {
        size_t const n = size_t(1) << r.range(4, r.chance(.1) ? 20 : 14);
        void * p = r.chance(.5) ? malloc(n) : aligned_alloc(64, n < 64 ? 64 : n);
        memset(p, pattern, n);
        blocks.push_back({p, n});
    }
    for (size_t i = 0; i < blocks.size(); ++i)
    {
        size_t const j = r.below(int(blocks.size()));
        std::swap(blocks[i], blocks[j]);
    }
    for (auto & b : blocks) free(b.first);
    volatile char stack[20000];
    for (size_t i = 0; i < sizeof stack; ++i) stack[i] = char(pattern);
}

// other estimators that live beside the observed one
struct Noise
{
    struct Other { EstP e; Cfg c; Shape s; };
    vector<Other> pool;
    void step(Ctx & ctx, Rng & r)
    {
        for (int i = r.range(0, 4); i > 0; --i)
        {
            if (pool.empty() || (pool.size() < 5 && r.chance(.4)))
            {
                Cfg c = gen_cfg(r, gen_kind(r));
                c.jobs = r.pick({1, 1, 2});
                auto e = make_est(c, r.chance(.3));
                if (e) pool.push_back(Other{std::move(e), c, Shape()});
            }
            else if (r.chance(.2))
            {
                size_t const j = r.below(int(pool.size()));
                if (r.chance(.5)) pool.erase(pool.begin() + j);
                else
                {
                    auto cl = pool[j].e->clone();
                    Other o{std::move(cl), pool[j].c, pool[j].s};
                    pool.push_back(std::move(o));
                }
            }
            else
            {
                auto & p = pool[r.below(int(pool.size()))];
                Call k = gen_call(r, p.c, p.s, .1, .6, false);
                if (k.X.size() > 3) continue;
                if (r.chance(.15)) std::thread([&] { perform(*p.e, k); }).join();
                else perform(*p.e, k);
                learn_shape(p.s, k);
                ctx.count("noise_calls");
            }
        }
        if (pool.size() > 8) pool.erase(pool.begin());
    }
};

struct History
{
    Cfg c;
    vector<Call> calls;
    vector<int> extra; // what else happens after each call: 0 nothing, 1 clone, 2 save and load, 3 move
    string str;
};

static History gen_history(Rng & r, Kind k)
{
    History h;
    h.c = gen_cfg(r, k);
    h.str = h.c.str();
    Shape s;
    int const n = r.range(2, 6);
    for (int i = 0; i < n; ++i)
    {
        Call c = gen_call(r, h.c, s, .1, i == 0 ? .9 : .55);
        learn_shape(s, c);
        h.str += " | " + c.str();
        h.calls.push_back(std::move(c));
        h.extra.push_back(r.chance(.6) ? 0 : s.fitted ? r.range(1, 3) : r.pick({1, 3}));
    }
    return h;
}

// runs the history; a digest per call
static vector<uint64_t> run(Ctx & ctx, History const & h, Noise * noise, Rng * nr)
{
    vector<uint64_t> out;
    if (noise) { dirty(*nr); noise->step(ctx, *nr); }
    auto e = must_make(ctx, h.c);
    for (size_t i = 0; i < h.calls.size(); ++i)
    {
        if (noise) { noise->step(ctx, *nr); if (nr->chance(.5)) dirty(*nr); }
        ctx.op(fmt("%s call %zu of ", noise ? "noisy" : "quiet", i) + h.str);
        uint64_t d = 1;
        // a thread of its own at times: thread-local state must not matter either
        Status st;
        if (noise && nr->chance(.15)) std::thread([&] { st = perform(*e, h.calls[i], &d); }).join();
        else st = perform(*e, h.calls[i], &d);
        d = mix(d, st.code);
        switch (h.extra[i])
        {
            case 1: e = e->clone(); break;
            case 2: e = e->load(e->save()); break;
            case 3: e = e->steal(); break;
            default: break;
        }
        d = mix(d, e->snap().digest());
        out.push_back(d);
    }
    return out;
}

static string model_of_unseeded(Est & e, Ctx & ctx)
{
    Rows X{Row(vector<char>{0, 1, 1, 0, 1})};
    must_ok(ctx, e.fit(X, {1}, 2, 2), "fit unseeded");
    return fmt("%016llx", (unsigned long long)e.snap().model_digest());
}

template<Kind K> EstP make_unseeded(bool json)
{
    auto ei = json ? make_json<K>("{}") : make_args<K>();
    if (ei.isLeft) return nullptr;
    return std::make_unique<EstT<K>>(std::move(ei.rightValue));
}
static EstP unseeded(Kind k, bool json)
{
    return k == CC ? make_unseeded<CC>(json) : k == CB ? make_unseeded<CB>(json) : k == RC ? make_unseeded<RC>(json) : make_unseeded<RB>(json);
}

// thousands of estimators trained alike in one process: the last is as the first
static void many_twins(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = gen_cfg(r, k);
    c.clauses = is_clf(k) ? 4 * r.range(1, 2) : 2 * r.range(1, 3);
    c.jobs = 1;
    c.verbose = false;
    int const F = r.range(1, 12), L = r.range(2, 3), n = r.range(1, 3), times = r.range(1100, 2500);
    Rows const X = gen_rows(r, n, F);
    Labels const y = gen_y(r, c, n, L);
    string const hist = fmt("%d times n=%d F=%d L=%d ", times, n, F, L) + c.str();
    ctx.op(hist);
    uint64_t first = 0;
    EstP e;
    for (int i = 0; i < times; ++i)
    {
        if (!e || r.chance(.7)) e = must_make(ctx, c);
        if (r.chance(.5)) must_ok(ctx, e->fit(X, y, L, 1), "fit");
        else
        {
            must_ok(ctx, e->fit(X, y, L, 0), "fit");
            must_ok(ctx, e->partial_fit(X, y, L, 1), "partial_fit");
        }
        if (r.chance(.05)) e = e->clone();
        uint64_t const d = e->snap().digest();
        if (i == 0) first = d;
        if (!ctx.check(d == first, "later-estimator-differs", fmt("number %d of ", i) + hist)) break;
    }
    ctx.count("twins", times);
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    History const h = gen_history(r, k);
    // noise is another stream in every stage, the history is the same
    Rng nr(r.next(), std::hash<string>()(ctx.extra));
    static Noise noise; // lives on over the cases of a process
    bool const noisy_first = nr.chance(.5);
    auto a = run(ctx, h, noisy_first ? &noise : nullptr, &nr);
    auto b = run(ctx, h, noisy_first ? nullptr : &noise, &nr);
    for (size_t i = 0; i < a.size(); ++i)
        if (!ctx.check(a[i] == b[i], "differs-with-other-estimators", fmt("after call %zu of ", i) + h.str)) break;
    ctx.count("histories_repeated");
    uint64_t all = 3;
    for (auto v : b) all = mix(all, v);
    ctx.outputs[fmt("h%lld", (long long)id)] = fmt("%016llx", (unsigned long long)all);
    ctx.seen(all);
    ctx.sample(h.str.substr(0, 600));

    if (id % 16 == 0)
    {
        auto e1 = unseeded(k, nr.chance(.5)), e2 = unseeded(k, nr.chance(.5));
        if (!ctx.check(e1 && e2, "create-refused", "no estimator without arguments")) return;
        string const s1 = e1->params()["random_state"], s2 = e2->params()["random_state"];
        ctx.check(s1 != s2, "unseeded-equal", string(kind_name(k)) + ": two unseeded estimators have " + s1);
        ctx.outputs[fmt("u%lld", (long long)id)] = s1;
        // the seed read back is the one in use
        Cfg c;
        c.kind = k;
        if (!is_clf(k)) { c.clauses = 20; c.weighted = true; }
        c.jobs = 2;
        c.seed = unsigned(strtoul(s1.c_str() + 5, nullptr, 10));
        auto e3 = must_make(ctx, c);
        string const m1 = model_of_unseeded(*e1, ctx), m2 = model_of_unseeded(*e2, ctx), m3 = model_of_unseeded(*e3, ctx);
        ctx.check(m1 != m2, "unseeded-train-equally", kind_name(k));
        ctx.check(m1 == m3, "seed-read-back-is-not-the-one-used", string(kind_name(k)) + " " + s1);
        ctx.count("unseeded");
    }
    if (id % 40 == 7 || id % 40 == 18 || id % 40 == 29 || id % 40 == 36) many_twins(ctx, r, k);
    ctx.count("evaluations", 2);
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
