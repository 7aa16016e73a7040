// C19: the generators: function of the seed, copies, assignments, equality, ranges, uniformity.
#include "common.hpp"
#include "mt.hpp"
#include "tsetlini_types.hpp"

#include <memory>

namespace H
{

template<class G> struct T
{
    using v_t = typename G::value_type;
    static uint32_t bits(v_t v) { uint32_t b; std::memcpy(&b, &v, 4); return b; }
    static vector<uint32_t> draw(G & g, int n)
    {
        vector<uint32_t> r(n);
        for (auto & x : r) x = bits(g());
        return r;
    }
    // objects on the heap at varying addresses
    static std::unique_ptr<G> fresh(Rng & r, int seed)
    {
        vector<std::unique_ptr<char[]>> junk;
        for (int i = r.below(4); i > 0; --i) junk.emplace_back(new char[1 + r.below(100000)]);
        for (auto & j : junk) j[0] = 1;
        return std::make_unique<G>(seed);
    }
    static int gen_seed(Rng & r) { return r.chance(.2) ? r.pick({0, 1, -1, 2, 8, 1000, INT32_MAX, INT32_MIN}) : int(uint32_t(r.next())); }
    // around the buffer length and its multiples
    static int gen_pos(Rng & r, int buf)
    {
        int const m = r.below(6);
        return m == 0 ? 0 : m == 1 ? r.range(1, 20) : m == 2 ? std::max(0, buf + r.range(-3, 3)) : m == 3 ? 2 * buf + r.range(-2, 2) : m == 4 ? buf - 1 : r.below(3 * buf);
    }

    static void history(Ctx & ctx, Rng & r, char const * name)
    {
        int const buf = int(G::MTSZ * G::NS);
        int const seed = gen_seed(r);
        int const N = 3 * buf + 100;
        auto ref = fresh(r, seed);
        vector<uint32_t> const S = draw(*ref, N + 6000); // the sequence of that seed
        string h = fmt("%s seed %d:", name, seed);
        struct Live { std::unique_ptr<G> g; int pos; int seed; };
        vector<Live> pool;
        pool.push_back({fresh(r, seed), 0, seed});
        int const other = r.chance(.4) ? seed + r.pick({1, -1, 8, -8, 2}) : gen_seed(r);
        vector<uint32_t> O;
        { auto o = fresh(r, other); O = draw(*o, N + 6000); }
        if (other != seed)
        {
            if (!ctx.check(!std::equal(S.begin(), S.begin() + 64, O.begin()), "seeds-alike", fmt("seeds %d and %d start alike ", seed, other) + h)) return;
            ctx.count("seed_pairs");
        }
        auto S_of = [&](Live const & l) -> vector<uint32_t> const & { return l.seed == seed ? S : O; };
        int const ops = r.range(4, 14);
        for (int i = 0; i < ops; ++i)
        {
            int const a = r.below(int(pool.size()));
            Live & A = pool[a];
            switch (r.below(8))
            {
                case 0: case 1: case 2: // draw
                {
                    int n = r.chance(.3) ? gen_pos(r, buf) - A.pos : r.chance(.5) ? r.range(1, 30) : r.range(1, buf);
                    n = std::clamp(n, 0, N - A.pos);
                    h += fmt(" draw(%d,%d)", a, n);
                    auto const d = draw(*A.g, n);
                    if (!ctx.check(std::equal(d.begin(), d.end(), S_of(A).begin() + A.pos), "sequence", fmt("from position %d ", A.pos) + h)) return;
                    A.pos += n;
                    ctx.count("draws_compared", n);
                    break;
                }
                case 3: // copy
                    if (pool.size() > 5) break;
                    h += fmt(" copy(%d)", a);
                    pool.push_back({std::make_unique<G>(*A.g), A.pos, A.seed});
                    ctx.count("copies");
                    break;
                case 4: // assign over another
                {
                    int const b = r.below(int(pool.size()));
                    h += fmt(" assign(%d<-%d)", b, a);
                    *pool[b].g = *pool[a].g;
                    pool[b].pos = A.pos;
                    pool[b].seed = A.seed;
                    ctx.count("assignments");
                    break;
                }
                case 5: // re-seed
                {
                    int const s = r.chance(.5) ? seed : other;
                    h += fmt(" init(%d,%d)", a, s);
                    A.g->init(s);
                    A.seed = s;
                    A.pos = 0;
                    ctx.count("reseedings");
                    break;
                }
                case 6: // moved to another address
                    h += fmt(" relocate(%d)", a);
                    A.g = std::make_unique<G>(std::move(*A.g));
                    break;
                default:
                {
                    if (pool.size() > 5) break;
                    int const s = r.chance(.5) ? seed : other;
                    h += fmt(" new(%d)", s);
                    pool.push_back({fresh(r, s), 0, s});
                }
            }
            ctx.op(h);
            // equality among all
            for (size_t x = 0; x < pool.size(); ++x)
                for (size_t y = 0; y < pool.size(); ++y)
                {
                    bool const want = pool[x].seed == pool[y].seed && pool[x].pos == pool[y].pos;
                    bool const got = *pool[x].g == *pool[y].g;
                    if (got != want)
                    {
                        ctx.violation(want ? "equal-ones-unequal" : "unequal-ones-equal", fmt("%zu at %d of seed %d, %zu at %d of seed %d ", x, pool[x].pos, pool[x].seed, y, pool[y].pos, pool[y].seed) + h);
                        return;
                    }
                    ctx.count("equalities");
                }
        }
        for (auto & l : pool) // all continue
        {
            int const n = r.chance(.3) ? 5100 : 50;
            auto const d = draw(*l.g, n);
            if (!ctx.check(std::equal(d.begin(), d.end(), S_of(l).begin() + l.pos), "sequence-end", fmt("from position %d ", l.pos) + h)) return;
            ctx.count("draws_compared", n);
        }
        uint64_t hh = mix(seed, sizeof(G));
        for (char c : h) hh = mix(hh, c);
        ctx.seen(hh);
        ctx.sample(h.substr(0, 500));
        ctx.count("evaluations");
    }
};

// millions of draws: two of one seed, drawn in different portions, one of them copied and replaced on the way
template<class G> static void marathon(Ctx & ctx, Rng & r, char const * name)
{
    int const seed = T<G>::gen_seed(r);
    int64_t const N = r.pick({300000, 1000000, 3000000});
    string const h = fmt("%s seed %d, %lld draws", name, seed, (long long)N);
    ctx.op(h);
    auto a = T<G>::fresh(r, seed), b = T<G>::fresh(r, seed);
    int64_t pos = 0;
    while (pos < N)
    {
        int const n = r.range(1, 60000);
        uint64_t ha = 0, hb = 0;
        for (int i = 0; i < n; ++i) ha = ha * 1099511628211u + T<G>::bits((*a)());
        std::unique_ptr<G> c;
        int const cut = r.below(n);
        for (int i = 0; i < n; ++i)
        {
            if (i == cut && r.chance(.2)) c = std::make_unique<G>(*b);
            hb = hb * 1099511628211u + T<G>::bits((*b)());
        }
        if (!ctx.check(ha == hb && *a == *b, "late-sequence", fmt("among draws %lld to %lld ", (long long)pos, (long long)pos + n) + h)) return;
        if (c)
        {
            for (int i = cut; i < n; ++i) (void)(*c)();
            if (!ctx.check(*c == *a, "late-copy", fmt("at draw %lld ", (long long)pos + n) + h)) return;
            b = std::move(c);
        }
        pos += n;
    }
    ctx.count("late_draws", pos);
    ctx.count("evaluations");
    ctx.seen(mix(seed, N));
}

static double bound(double V) { double const L = 26; return L / 3 + std::sqrt(L / 3 * (L / 3) + 2 * L * V); }

static void ranges(Ctx & ctx, Rng & r)
{
    int const seed = T<IRNG>::gen_seed(r);
    auto g = T<IRNG>::fresh(r, seed);
    int const skip = r.below(6000);
    for (int i = 0; i < skip; ++i) (*g)();
    // next(n): 0..n-1; next(a, b): a..b
    int const n = r.pick({1, 2, 3, 7, 10, 64, 100, 1000});
    bool const ab = r.chance(.5);
    int const a = ab ? r.pick({0, 1, -1, -5, -1000, 100000, INT32_MIN + 5}) : 0;
    string const h = fmt("seed %d skip %d range %d..%d", seed, skip, a, a + n - 1);
    ctx.op(h);
    vector<int64_t> cnt(n, 0);
    int64_t const N = std::max(2000, 60 * n);
    for (int64_t i = 0; i < N; ++i)
    {
        int const v = ab ? int(g->next(a, a + n - 1)) : int(g->next(unsigned(n)));
        if (!ctx.check(int64_t(v) - a >= 0 && int64_t(v) - a < n, "outside-range", fmt("%d ", v) + h)) return;
        ++cnt[int64_t(v) - a];
    }
    double const e = double(N) / n, V = e * (1 - 1. / n);
    for (int i = 0; i < n; ++i)
    {
        if (!ctx.check(n == 1 || e < 30 || cnt[i] > 0, "range-value-never-drawn", fmt("%d ", a + i) + h)) return;
        if (!ctx.check(std::fabs(cnt[i] - e) <= bound(V) + 1, "range-not-uniform", fmt("%d drawn %lld of %lld times ", a + i, (long long)cnt[i], (long long)N) + h)) return;
    }
    ctx.count("range_draws", N);
    // a range of very many values: its parts, its ends, and what is left of values divided by small numbers
    if (r.chance(.4))
    {
        unsigned const w = r.pick({65536u, 65537u, 100000u, 1u << 20, 3000001u, 1u << 24, 16777217u, 100000007u, 1u << 30, 0x7fffffffu});
        bool const ab2 = r.chance(.5);
        int const a2 = ab2 ? (w > 1u << 29 ? 0 : r.pick({0, 1, -1000, -30000000, 100000})) : 0;
        string const h2 = h + fmt(", then %d and %u values", a2, w);
        ctx.op(h2);
        int64_t part[64] = {0}, rest[7] = {0}, low2[64] = {0};
        int const M = 30000;
        for (int i = 0; i < M; ++i)
        {
            int const v = ab2 ? int(g->next(a2, int(a2 + int64_t(w) - 1))) : int(g->next(w));
            int64_t const u = int64_t(v) - a2;
            if (!ctx.check(u >= 0 && u < int64_t(w), "outside-wide-range", fmt("%d ", v) + h2)) return;
            ++part[u * 64 / w];
            ++rest[u % 7];
            ++low2[u % 64];
        }
        // the values of such ranges are alike but for the rounding of 2^32 / w
        double const bias = double(w) / 4294967296.;
        for (int b = 0; b < 64; ++b)
        {
            if (!ctx.check(std::fabs(part[b] - M / 64.) <= bound(M / 64.) + 1 + 2 * bias * M / 64, "wide-range-not-uniform", fmt("part %d of 64: %lld of %d ", b, (long long)part[b], M) + h2)) return;
            if (!ctx.check(std::fabs(low2[b] - M / 64.) <= bound(M / 64.) + 1 + 2 * bias * M / 64, "wide-range-not-uniform", fmt("%d modulo 64: %lld of %d ", b, (long long)low2[b], M) + h2)) return;
        }
        for (int b = 0; b < 7; ++b)
            if (!ctx.check(std::fabs(rest[b] - M / 7.) <= bound(M / 7.) + 1 + 2 * bias * M / 7, "wide-range-not-uniform", fmt("%d modulo 7: %lld of %d ", b, (long long)rest[b], M) + h2)) return;
        ctx.count("wide_range_draws", M);
    }
    // whole integers: each bit and byte
    int64_t ones[32] = {0}, top[256] = {0}, low[256] = {0};
    int const M = 30000;
    for (int i = 0; i < M; ++i)
    {
        uint32_t const v = g->next();
        for (int b = 0; b < 32; ++b) ones[b] += (v >> b) & 1;
        ++top[v >> 24];
        ++low[v & 255];
    }
    for (int b = 0; b < 32; ++b)
        if (!ctx.check(std::fabs(ones[b] - M / 2.) <= bound(M / 4.), "bit-not-balanced", fmt("bit %d set %lld of %d times ", b, (long long)ones[b], M) + h)) return;
    for (int b = 0; b < 256; ++b)
        if (!ctx.check(std::fabs(top[b] - M / 256.) <= bound(M / 256.) && std::fabs(low[b] - M / 256.) <= bound(M / 256.), "byte-not-uniform", fmt("byte value %d ", b) + h)) return;
    ctx.check(IRNG::min() == 0 && IRNG::max() == 0xffffffffu, "declared-range", h);
    ctx.count("integers", M);
    ctx.seen(mix(mix(seed, n), skip));
    ctx.count("evaluations");
}

static void reals(Ctx & ctx, Rng & r)
{
    int const seed = T<FRNG>::gen_seed(r);
    auto g = T<FRNG>::fresh(r, seed);
    string const h = fmt("seed %d", seed);
    ctx.op(h);
    int const N = 40000, B = 64;
    int64_t cnt[B] = {0};
    double sum = 0;
    for (int i = 0; i < N; ++i)
    {
        float const v = i % 2 ? g->next() : (*g)();
        if (!ctx.check(v > 0.f && v <= 1.f, "real-outside-range", fmt("%.9g ", v) + h)) return;
        ++cnt[std::min(B - 1, int(v * B))];
        sum += v;
    }
    for (int b = 0; b < B; ++b)
        if (!ctx.check(std::fabs(cnt[b] - double(N) / B) <= bound(double(N) / B), "real-not-uniform", fmt("[%d/64,%d/64) %lld of %d ", b, b + 1, (long long)cnt[b], N) + h)) return;
    ctx.check(std::fabs(sum - N * .5) <= bound(N / 12.), "real-mean", fmt("%.6f ", sum / N) + h);
    ctx.count("reals", N);
    ctx.seen(mix(seed, 1));
    // the ends of the range: these draws come from the integers 0 and 2^32-1
    static int const ends[][2] = {{40912, 1693}, {40913, 1692}, {40914, 1691}, {40915, 1690}, {3947880, 2294}, {3947881, 2293}, {3947882, 2292}, {3947883, 2291}};
    auto const & end = ends[r.below(8)];
    FRNG f(end[0]);
    IRNG q(end[0]);
    for (int i = 0; i <= end[1]; ++i)
    {
        float const v = f.next();
        uint32_t const u = q();
        if (!ctx.check(v > 0.f && v <= 1.f, "real-outside-range", fmt("%.9g of seed %d position %d (integer %u)", v, end[0], i, u))) return;
        if (u == 0 || u == 0xffffffffu) ctx.count("extreme_reals");
        ctx.count("reals");
    }
    ctx.count("evaluations");
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    if (r.chance(.005)) return id % 2 ? marathon<IRNG>(ctx, r, "IRNG") : marathon<FRNG>(ctx, r, "FRNG");
    switch (id % 8)
    {
        case 0: ranges(ctx, r); break;
        case 1: reals(ctx, r); break;
        case 2: case 3: case 4: T<IRNG>::history(ctx, r, "IRNG"); break;
        case 5: case 6: T<FRNG>::history(ctx, r, "FRNG"); break;
        default: // other instantiations
            if (id % 16 < 8) T<basic_IRNG<32, 4>>::history(ctx, r, "basic_IRNG<32,4>");
            else T<basic_FRNG<16, 1>>::history(ctx, r, "basic_FRNG<16,1>");
    }
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
