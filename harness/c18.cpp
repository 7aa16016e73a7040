// C18: bit vectors, bit matrices, numeric matrices and aligned arrays against plain arrays.
#include "common.hpp"
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "basic_bit_matrix.hpp"
#include "basic_numeric_matrix.hpp"
#include "aligned_array.hpp"
#include "tsetlini_types.hpp"

#include <list>
#include <map>

namespace H
{

static bool aligned(void const * p, size_t a) { return reinterpret_cast<uintptr_t>(p) % a == 0; }
// how many bits or elements: around block, byte and cache line boundaries
static int gen_size(Rng & r)
{
    if (r.chance(.003)) return r.pick({32767, 32769, 65535, 65536, 65537, 66000, 70001, 131073}) + r.range(0, 1);
    return r.chance(.3) ? r.range(0, 20) : r.chance(.7) ? std::max(0, r.pick({8, 16, 32, 64, 128, 192, 256, 512, 1024, 4096}) + r.range(-2, 2)) : r.range(0, 1600);
}
static unsigned gen_rows_of(Rng & r, unsigned C)
{
    if (C <= 8 && r.chance(.02)) return r.pick({32769, 65535, 65536, 65537, 66000, 70001});
    return C > 500 ? r.range(0, 4) : r.range(0, 12);
}

template<class B, unsigned A> struct BV
{
    using V = basic_bit_vector<B, A>;
    static bool same(Ctx & ctx, V const & v, vector<char> const & m, string const & h, bool exact_capacity = true)
    {
        size_t const bits = V::block_bits;
        ctx.count("contents_compared");
        if (!ctx.check(v.size() == m.size(), "bv-size", h)) return false;
        if (!ctx.check(v.content_blocks() == (m.size() + bits - 1) / bits && v.tail_bits() == m.size() % bits, "bv-blocks", h)) return false;
        if (!ctx.check(v.capacity_blocks() >= v.content_blocks() && (!exact_capacity || v.capacity_blocks() == v.content_blocks()), "bv-capacity", h)) return false;
        if (!ctx.check(aligned(v.data(), V::alignment), "bv-alignment", h)) return false;
        for (size_t i = 0; i < m.size(); ++i)
        {
            if (!(v[i] == unsigned(m[i])) && !ctx.check(false, "bv-content", fmt("position %zu reads %u want %d ", i, unsigned(v[i]), m[i]) + h)) return false;
            if (!(((v.data()[i / bits] >> (i % bits)) & 1) == unsigned(m[i])) && !ctx.check(false, "bv-data", fmt("position %zu ", i) + h)) return false;
        }
        for (size_t i = m.size(); i < v.capacity_blocks() * bits; ++i)
            if (!(!((v.data()[i / bits] >> (i % bits)) & 1)) && !ctx.check(false, "bv-padding", fmt("bit %zu of %zu set ", i, m.size()) + h)) return false;
        return true;
    }
    static void run(Ctx & ctx, Rng & r)
    {
        int const n = gen_size(r);
        vector<char> m(n, 0);
        V v;
        string h = fmt("bit_vector<uint%zu,%u> n=%d", V::block_bits, A, n);
        bool exact = true;
        switch (r.below(4))
        {
            case 0: v = V(n); h += " sized"; break;
            case 1:
            {
                // from a range of anything testable
                for (auto & x : m) x = r.chance(.5);
                int const how = r.below(4);
                h += fmt(" from_range %d", how);
                if (how == 0) { vector<int> s(m.begin(), m.end()); for (auto & x : s) if (x) x = r.pick({1, 2, -1, 256, INT32_MIN}); v = basic_bit_vectors::from_range<B, vector<int>::iterator, A>(s.begin(), s.end()); }
                else if (how == 1) { std::vector<bool> s(m.begin(), m.end()); v = basic_bit_vectors::from_range<B, std::vector<bool>::const_iterator, A>(s.cbegin(), s.cend()); }
                else if (how == 2) { std::list<double> s; for (char x : m) s.push_back(x ? r.pick({1., .25, -3., 1e-300}) : 0.); v = basic_bit_vectors::from_range<B, std::list<double>::iterator, A>(s.begin(), s.end()); }
                else v = basic_bit_vectors::from_range<B, char const *, A>(m.data(), m.data() + m.size());
                break;
            }
            case 2:
            {
                // from storage, with spare blocks
                int const spare = r.below(4);
                typename V::aligned_vector st((n + V::block_bits - 1) / V::block_bits + spare);
                for (int i = 0; i < n; ++i) { m[i] = r.chance(.5); if (m[i]) st[i / V::block_bits] |= B(1) << (i % V::block_bits); }
                v = V(n, std::move(st));
                exact = spare == 0;
                h += fmt(" from storage spare=%d", spare);
                break;
            }
            default:
            {
                // length beyond the storage is cut to it
                typename V::aligned_vector st((n + V::block_bits - 1) / V::block_bits);
                int const full = int(st.size() * V::block_bits);
                m.assign(full, 0);
                v = V(full + r.range(0, 500), std::move(st));
                h += " longer than storage";
            }
        }
        ctx.op(h);
        if (!same(ctx, v, m, h + " new", exact)) return;
        int const sz = int(m.size());
        int const ops = r.range(0, 60);
        for (int i = 0; i < ops && sz > 0; ++i)
        {
            int const p = r.chance(.2) ? sz - 1 : r.chance(.1) ? 0 : r.below(sz);
            bool const b = r.chance(.5);
            int const o = r.below(5);
            switch (o)
            {
                case 0: v.set(p); m[p] = 1; break;
                case 1: v.clear(p); m[p] = 0; break;
                case 2: v.flip(p); m[p] = !m[p]; break;
                case 3: v.assign(p, b); m[p] = b; break;
                default: v.XOR(p, b); m[p] = m[p] != b; break;
            }
            ctx.count("writes");
            if (i % 8 == 0 && !same(ctx, v, m, h + fmt(" op %d at %d", o, p), exact)) return;
        }
        if (!same(ctx, v, m, h + " end", exact)) return;
        // copies and moves
        V c = v;
        V d;
        if (r.chance(.5)) d = V(gen_size(r));
        d = v;
        if (!same(ctx, c, m, h + " copy", exact) || !same(ctx, d, m, h + " copy-assigned", exact)) return;
        vector<char> mc = m;
        if (sz > 0) { int const p = r.below(sz); c.flip(p); mc[p] = !mc[p]; }
        if (!same(ctx, v, m, h + " original of edited copy", exact) || !same(ctx, c, mc, h + " edited copy", exact)) return;
        V e = std::move(c);
        V f(gen_size(r));
        f = std::move(d);
        if (!same(ctx, e, mc, h + " moved", exact) || !same(ctx, f, m, h + " move-assigned", exact)) return;
        V & self = v;
        v = self;
        if (!same(ctx, v, m, h + " self-assigned", exact)) return;
        uint64_t hh = mix(V::block_bits, A);
        for (char x : m) hh = mix(hh, x);
        ctx.seen(hh);
        ctx.sample(h);
    }
};

template<class B, unsigned A> struct BM
{
    using M = basic_bit_matrix<B, A>;
    static bool same(Ctx & ctx, M & v, unsigned R, unsigned C, vector<char> const & m, string const & h)
    {
        ctx.count("contents_compared");
        M const & cv = v;
        if (!ctx.check(cv.rows() == R && cv.cols() == C && cv.shape() == std::pair<unsigned, unsigned>(R, C), "bm-shape", h)) return false;
        size_t const bits = M::block_bits;
        for (unsigned r = 0; r < R; ++r)
        {
            B const * p = cv.row_data(r);
            if (C && !(aligned(p, M::alignment)) && !ctx.check(false, "bm-alignment", fmt("row %u ", r) + h)) return false;
            auto row = v.row(r);
            if (!(row.content_blocks() == (C + bits - 1) / bits && row.tail_bits() == C % bits && row.data() == p && cv.row_blocks() * bits >= C) && !ctx.check(false, "bm-row", h)) return false;
            for (unsigned c = 0; c < C; ++c)
            {
                unsigned const want = m[size_t(r) * C + c];
                if (!(cv.test(r, c) == want && cv[{r, c}] == want && row.test(c) == want && row[c] == want && v[r][c] == want
                    && ((p[c / bits] >> (c % bits)) & 1) == want) && !ctx.check(false, "bm-content", fmt("(%u,%u) want %u ", r, c, want) + h)) return false;
            }
            for (size_t c = C; c < size_t(cv.row_blocks()) * bits; ++c)
                if (!(!((p[c / bits] >> (c % bits)) & 1)) && !ctx.check(false, "bm-padding", fmt("row %u bit %zu of %u ", r, c, C) + h)) return false;
        }
        return true;
    }
    static void run(Ctx & ctx, Rng & r)
    {
        unsigned const C = gen_size(r), R = gen_rows_of(r, C);
        string h = fmt("bit_matrix<uint%u,%u> %ux%u", M::block_bits, A, R, C);
        ctx.op(h);
        M v(R, C);
        vector<char> m(size_t(R) * C, 0);
        if (!same(ctx, v, R, C, m, h + " new")) return;
        int const ops = r.range(0, 60);
        for (int i = 0; i < ops && R * C > 0; ++i)
        {
            unsigned const p = r.chance(.2) ? R - 1 : r.below(R), q = r.chance(.2) ? C - 1 : r.chance(.1) ? 0 : r.below(C);
            auto & x = m[size_t(p) * C + q];
            int const o = r.below(6);
            switch (o)
            {
                case 0: v.set(p, q); x = 1; break;
                case 1: v.clear(p, q); x = 0; break;
                case 2: v.flip(p, q); x = !x; break;
                case 3: v.row(p).set(q); x = 1; break;
                case 4: v[p].clear(q); x = 0; break;
                default: { auto w = v.row(p); w.flip(q); x = !x; }
            }
            ctx.count("writes");
            if (i % 8 == 0 && !same(ctx, v, R, C, m, h + fmt(" op %d at (%u,%u)", o, p, q))) return;
        }
        if (!same(ctx, v, R, C, m, h + " end")) return;
        M c = v, d(r.below(5), gen_size(r));
        d = v;
        if (!same(ctx, c, R, C, m, h + " copy") || !same(ctx, d, R, C, m, h + " copy-assigned")) return;
        if (!ctx.check(c == v && v == d, "bm-equality", "equal copies differ " + h)) return;
        if (R * C > 0)
        {
            unsigned const p = r.below(R), q = r.chance(.3) ? C - 1 : r.below(C);
            c.flip(p, q);
            auto mc = m;
            mc[size_t(p) * C + q] = !mc[size_t(p) * C + q];
            if (!ctx.check(!(c == v), "bm-equality", fmt("differ at (%u,%u), yet equal ", p, q) + h)) return;
            if (!same(ctx, v, R, C, m, h + " original of edited copy") || !same(ctx, c, R, C, mc, h + " edited copy")) return;
            c.flip(p, q);
            if (!ctx.check(c == v, "bm-equality", "equal again, yet differ " + h)) return;
            // other shapes of the same all-clear content
            M z(R, C), z1(R, C - 1), z2(R - 1, C);
            if (!ctx.check(!(z == z1) && !(z == z2), "bm-equality-shape", h)) return;
        }
        M e = std::move(c), f(1, 7);
        f = std::move(d);
        if (!same(ctx, e, R, C, m, h + " moved") || !same(ctx, f, R, C, m, h + " move-assigned")) return;
        if (!ctx.check(e == f, "bm-equality", "moved ones differ " + h)) return;
        M & self = v;
        v = self;
        if (!same(ctx, v, R, C, m, h + " self-assigned")) return;
        uint64_t hh = mix(mix(M::block_bits, A), R);
        for (char x : m) hh = mix(hh, x);
        ctx.seen(hh);
        ctx.sample(h);
    }
};

template<class T, unsigned A> struct NM
{
    using M = basic_numeric_matrix<T, A>;
    static T val(Rng & r)
    {
        return r.chance(.3) ? std::numeric_limits<T>::max() : r.chance(.3) ? std::numeric_limits<T>::lowest() : T(r.range(-100, 100));
    }
    static bool same(Ctx & ctx, M & v, unsigned R, unsigned C, vector<T> const & m, string const & h)
    {
        ctx.count("contents_compared");
        M const & cv = v;
        if (!ctx.check(cv.rows() == R && cv.cols() == C && cv.shape() == std::pair<unsigned, unsigned>(R, C) && cv.row_items() >= C, "nm-shape", h)) return false;
        for (unsigned r = 0; r < R; ++r)
        {
            T const * p = cv.row_data(r);
            if (C && !(aligned(p, M::alignment)) && !ctx.check(false, "nm-alignment", fmt("row %u ", r) + h)) return false;
            if (!(p == v.row_data(r) && p == cv.data() + cv.row_offset(r) && cv.data() == v.data()) && !ctx.check(false, "nm-row", h)) return false;
            for (unsigned c = 0; c < C; ++c)
            {
                T const want = m[size_t(r) * C + c];
                if (!(p[c] == want && cv[{r, c}] == want) && !ctx.check(false, "nm-content", fmt("(%u,%u) ", r, c) + h)) return false;
            }
        }
        return true;
    }
    static void run(Ctx & ctx, Rng & r)
    {
        unsigned const C = gen_size(r), R = gen_rows_of(r, C);
        string h = fmt("numeric_matrix<%zu bytes%s,%u> %ux%u", sizeof(T), std::is_floating_point_v<T> ? " real" : "", A, R, C);
        ctx.op(h);
        M v(R, C);
        vector<T> m(size_t(R) * C, T(0));
        if (!same(ctx, v, R, C, m, h + " new")) return;
        int const ops = r.range(0, 60);
        for (int i = 0; i < ops && R * C > 0; ++i)
        {
            unsigned const p = r.chance(.2) ? R - 1 : r.below(R), q = r.chance(.2) ? C - 1 : r.chance(.1) ? 0 : r.below(C);
            T const x = val(r);
            m[size_t(p) * C + q] = x;
            if (r.chance(.5)) v.row_data(p)[q] = x;
            else v.data()[v.row_offset(p) + q] = x;
            ctx.count("writes");
            if (i % 8 == 0 && !same(ctx, v, R, C, m, h + fmt(" write at (%u,%u)", p, q))) return;
        }
        if (R && r.chance(.3)) // a whole row
        {
            unsigned const p = r.below(R);
            T * q = v.row_data(p);
            for (unsigned c = 0; c < C; ++c) m[size_t(p) * C + c] = q[c] = val(r);
        }
        if (!same(ctx, v, R, C, m, h + " end")) return;
        M c = v, d(r.below(5), gen_size(r));
        d = v;
        if (!same(ctx, c, R, C, m, h + " copy") || !same(ctx, d, R, C, m, h + " copy-assigned")) return;
        if (!ctx.check(c == v && v == d, "nm-equality", "equal copies differ " + h)) return;
        if (R * C > 0)
        {
            unsigned const p = r.below(R), q = r.chance(.3) ? C - 1 : r.below(C);
            T const old = m[size_t(p) * C + q], nw = old == T(1) ? T(2) : T(1);
            c.row_data(p)[q] = nw;
            auto mc = m;
            mc[size_t(p) * C + q] = nw;
            if (!ctx.check(!(c == v), "nm-equality", fmt("differ at (%u,%u), yet equal ", p, q) + h)) return;
            if (!same(ctx, v, R, C, m, h + " original of edited copy") || !same(ctx, c, R, C, mc, h + " edited copy")) return;
            c.row_data(p)[q] = old;
            if (!ctx.check(c == v, "nm-equality", "equal again, yet differ " + h)) return;
            M z(R, C), z1(R, C - 1), z2(R - 1, C);
            if (!ctx.check(!(z == z1) && !(z == z2), "nm-equality-shape", h)) return;
        }
        M e = std::move(c), f(1, 7);
        f = std::move(d);
        if (!same(ctx, e, R, C, m, h + " moved") || !same(ctx, f, R, C, m, h + " move-assigned")) return;
        if (!ctx.check(e == f, "nm-equality", "moved ones differ " + h)) return;
        M & self = v;
        v = self;
        if (!same(ctx, v, R, C, m, h + " self-assigned")) return;
        uint64_t hh = mix(mix(sizeof(T), A), R * 7919 + C);
        for (T x : m) hh = mix(hh, uint64_t(int64_t(double(x) / 1e300 > 1 ? 7 : x > T(100) ? 101 : x < T(-100) ? -101 : x)));
        ctx.seen(hh);
        ctx.sample(h);
    }
};

template<class T, size_t N, size_t A> struct AA
{
    using M = AlignedArray<T, N, A>;
    static bool same(Ctx & ctx, M & v, vector<T> const & m, string const & h)
    {
        ctx.count("contents_compared");
        M const & cv = v;
        if (!ctx.check(aligned(cv.data(), A) && v.data() == cv.data() && v.begin() == v.data() && v.end() == v.data() + N && cv.cbegin() == cv.data() && cv.cend() == cv.data() + N, "aa-frame", h)) return false;
        for (size_t i = 0; i < N; ++i)
            if (!ctx.check(cv[i] == m[i] && v[i] == m[i] && cv.data()[i] == m[i], "aa-content", fmt("position %zu ", i) + h)) return false;
        return true;
    }
    static void run(Ctx & ctx, Rng & r)
    {
        string const h = fmt("AlignedArray<%zu bytes,%zu,%zu>", sizeof(T), N, A);
        ctx.op(h);
        // at any address
        size_t const off = r.below(64) * alignof(M);
        vector<unsigned char> raw(sizeof(M) * 3 + 3 * 64 * alignof(M) + 64);
        auto place = [&](int i)
        {
            uintptr_t a = (reinterpret_cast<uintptr_t>(raw.data()) + 63) & ~uintptr_t(63);
            a += i * (sizeof(M) + 32 * alignof(M)) + off;
            return reinterpret_cast<void *>((a + alignof(M) - 1) & ~uintptr_t(alignof(M) - 1));
        };
        M & v = *new (place(0)) M;
        vector<T> m(N);
        for (size_t i = 0; i < N; ++i) v[i] = m[i] = T(r.range(-100, 100));
        for (int i = 0; i < 20; ++i) { size_t const p = r.below(int(N)); T const x = T(r.range(-100, 100)); m[p] = x; if (r.chance(.5)) v[p] = x; else v.data()[p] = x; ctx.count("writes"); }
        if (!same(ctx, v, m, h)) return;
        M & c = *new (place(1)) M(v);
        M & d = *new (place(2)) M;
        d = v;
        if (!same(ctx, c, m, h + " copy") || !same(ctx, d, m, h + " copy-assigned")) return;
        if (!ctx.check(c == v && !(c != v) && c == d, "aa-equality", "equal copies differ " + h)) return;
        auto mc = m;
        size_t const p = r.chance(.3) ? N - 1 : r.below(int(N));
        c[p] = mc[p] = T(m[p] + T(1));
        if (!ctx.check(c != v && !(c == v), "aa-equality", "differ, yet equal " + h)) return;
        if (!same(ctx, v, m, h + " original") || !same(ctx, c, mc, h + " edited copy")) return;
        M & self = v;
        v = self;
        M e = std::move(c);
        if (!same(ctx, v, m, h + " self-assigned") || !same(ctx, e, mc, h + " moved")) return;
        uint64_t hh = mix(mix(sizeof(T), A), N);
        for (T x : m) hh = mix(hh, uint64_t(int64_t(x)));
        ctx.seen(hh);
    }
};

using Runner = void (*)(Ctx &, Rng &);
static Runner const runners[] = {
    BV<uint64_t, 64>::run, BV<uint64_t, 64>::run, BV<uint32_t, 64>::run, BV<uint16_t, 32>::run, BV<uint8_t, 64>::run, BV<uint8_t, 1>::run, BV<uint64_t, 128>::run,
    BM<uint64_t, 64>::run, BM<uint64_t, 64>::run, BM<uint32_t, 64>::run, BM<uint16_t, 32>::run, BM<uint8_t, 64>::run, BM<uint64_t, 8>::run, BM<uint32_t, 128>::run,
    NM<int8_t, 64>::run, NM<int16_t, 64>::run, NM<int32_t, 64>::run, NM<int64_t, 64>::run, NM<float, 64>::run, NM<double, 128>::run, NM<int8_t, 16>::run, NM<int32_t, 32>::run,
    AA<int, 1, 64>::run, AA<int, 17, 64>::run, AA<char, 100, 32>::run, AA<float, 624, 128>::run, AA<double, 5, 8>::run, AA<int16_t, 33, 16>::run,
};

// more than 2^32 elements, or columns whose bytes or bits do not fit in 32 bits
static void giant(Ctx & ctx, Rng & r, int64_t id)
{
    uint64_t const GiB = 1ull << 30;
    if (mem_available() < 10 * GiB) { ctx.count("giant_skipped_for_memory"); return; }
    auto grid = [&](auto & m, uint64_t R, uint64_t C, char const * what, auto set, auto get)
    {
        // values along the edges and at random places; the last write at a place counts
        std::map<std::pair<uint64_t, uint64_t>, int> w;
        auto rnd = [&](uint64_t n) { return r.chance(.2) ? n - 1 : r.chance(.1) ? 0 : (uint64_t(r.below(1 << 30)) * 4099 + r.below(1 << 30)) % n; };
        for (int i = 0; i < 20000; ++i)
        {
            uint64_t const a = rnd(R), b = rnd(C);
            int const v = 1 + r.below(100);
            set(m, a, b, v);
            w[{a, b}] = v;
        }
        ctx.check(m.rows() == R && m.cols() == C, "giant-shape", what);
        for (auto const & [p, v] : w)
            if (!ctx.check(get(m, p.first, p.second) == v, "giant-content", fmt("(%zu,%zu) ", size_t(p.first), size_t(p.second)) + what)) return;
        ctx.count("giant_positions_compared", int64_t(w.size()));
        ctx.count("giants");
    };
    auto nset = [](auto & m, uint64_t a, uint64_t b, int v) { m.row_data(a)[b] = v; };
    auto nget = [](auto & m, uint64_t a, uint64_t b) { return int(m[{a, b}]) == int(m.row_data(a)[b]) ? int(m[{a, b}]) : -1; };
    try
    {
        switch (id % 4)
        {
            case 0:
            {
                ctx.op("giant numeric_matrix_int8");
                uint64_t const C = 65536 + r.pick({0, 64, 100});
                Tsetlini::numeric_matrix_int8 m(65536, C);
                return grid(m, 65536, C, "int8 65536 rows", nset, nget);
            }
            case 1:
            {
                ctx.op("giant numeric_matrix_int32");
                uint64_t const C = (1u << 30) + r.range(0, 100);
                Tsetlini::numeric_matrix_int32 m(1, C);
                return grid(m, 1, C, "int32 2^30 columns", nset, nget);
            }
            case 2:
            {
                ctx.op("giant bit_matrix uint8");
                uint64_t const C = 512 * 8 - r.range(0, 100), R = (1u << 23) + 10;
                basic_bit_matrix<uint8_t, 512> m(R, C);
                auto bset = [](auto & m, uint64_t a, uint64_t b, int v) { if (v & 1) m.set(a, b); else m.clear(a, b); };
                std::map<std::pair<uint64_t, uint64_t>, int> w;
                for (int i = 0; i < 20000; ++i)
                {
                    uint64_t const a = r.chance(.2) ? R - 1 : r.below(int(R)), b = r.chance(.2) ? C - 1 : r.below(int(C));
                    int const v = r.below(2);
                    bset(m, a, b, v);
                    w[{a, b}] = v;
                }
                for (auto const & [p, v] : w)
                    if (!ctx.check(int(m.test(p.first, p.second)) == v, "giant-content", fmt("(%zu,%zu) bit matrix", size_t(p.first), size_t(p.second)))) return;
                ctx.count("giant_positions_compared", int64_t(w.size()));
                ctx.count("giants");
                return;
            }
            default:
            {
                ctx.op("giant bit vector and rows");
                uint64_t const n = (1ull << 32) + r.range(1, 200);
                basic_bit_vector<uint64_t, 64> v(n);
                ctx.check(v.size() == n && v.content_blocks() == (n + 63) / 64 && v.tail_bits() == n % 64, "giant-shape", "bit vector");
                uint64_t const a = n - 1, b = n - (1ull << 32), c = 1ull << 31;
                v.set(a);
                ctx.check(v[a] == 1 && (a == b || v[a - (1ull << 32)] == 0) && v[c] == 0, "giant-content", "bit vector");
                v.flip(c); v.set(b); v.clear(a);
                ctx.check(v[a] == 0 && v[b] == 1 && v[c] == 1, "giant-content", "bit vector");
                uint64_t const C = 2147483647;
                basic_bit_matrix<uint64_t, 64> m(2, C);
                m.set(1, C - 1); m.row(0).set(C - 2);
                ctx.check(m.test(1, C - 1) && !m.test(0, C - 1) && m.test(0, C - 2) && !m.test(1, C - 2) && m[1][C - 1], "giant-content", "bit matrix of 2^31 columns");
                ctx.count("giants");
            }
        }
    }
    catch (std::bad_alloc const &) { ctx.count("giant_skipped_for_memory"); }
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    if (ctx.extra == "giant") return giant(ctx, r, id);
    runners[id % (sizeof runners / sizeof *runners)](ctx, r);
    ctx.count("evaluations");
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
