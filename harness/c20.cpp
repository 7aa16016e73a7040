// C20: every epoch presents every example once with its own label. The automata themselves are made
// to count the presentations: feedback is certain (scores pinned by clauses of huge weight, or constant
// regressor error), nothing is ever forgotten (huge s, boost), clauses start deep below inclusion.
#include "common.hpp"

namespace H
{

static Cfg base(Rng & r, Kind k)
{
    Cfg c = gen_cfg(r, k);
    c.boost = true;
    c.s = 1e15f;
    c.jobs = r.pick({1, 1, 1, 2});
    c.bm = false;
    c.maxw = 2147483647;
    return c;
}

static int gen_n(Rng & r, bool thorough)
{
    if (r.chance(.008)) return r.pick({65535, 65536, 65537, 70001, thorough ? 140000 : 66000});
    int const m = r.below(100);
    if (m < 50) return r.range(1, 20);
    if (m < 80) return r.range(1, 300);
    if (m < 90) return r.pick({255, 256, 257, 511, 512, 513, 1000});
    if (m < 98) return r.range(1000, 6000);
    return r.pick({4095, 4096, 8191, 32767, 32768, 32769, 9999});
}

static int many_epochs(Rng & r, Cfg & c, bool thorough)
{
    c.jobs = 1;
    return r.pick({32767, 32768, 40000, 65535, 65536, 65537, 70001, thorough ? 140000 : 66000});
}

static void train(Ctx & ctx, Rng & r, Est & e, Rows const & X, Labels const & y, int L, int E)
{
    // any split of the epochs over calls
    while (E > 0)
    {
        int const n = r.chance(.5) ? E : r.range(1, E);
        must_ok(ctx, e.partial_fit(X, y, L, n), "partial_fit");
        E -= n;
    }
}

static void classifier_counts(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = true;
    c.T = r.pick({1, 2, 16, 4096});
    c.clauses = 8;
    int const per = 4;
    bool const enduring = r.chance(.012); // more epochs than fit 16 bits
    int const n = enduring ? r.range(1, 2) : gen_n(r, ctx.thorough);
    int const L = r.pick({2, 2, 2, 3, 5});
    int const E = enduring ? many_epochs(r, c, ctx.thorough) : r.range(1, n > 1000 ? 2 : 4);
    bool const onehot = L > 2 || (n < 300 && r.chance(.5));
    int const m = enduring && !onehot ? 3 : onehot ? std::min(n, 400) : n > 40000 ? r.pick({1, 7, 30}) : r.pick({1, 7, 30, 64, 70});
    int const n2 = onehot ? m : n;
    int const F = m + L;
    c.nstates = 2 * n2 * E + 10 + r.below(100);
    c.ctype = "auto";
    Rows X;
    Labels y;
    for (int i = 0; i < n2; ++i)
    {
        Row x;
        x.v.assign(F, 0);
        if (onehot) x.v[i] = 1;
        else for (int f = 0; f < m; ++f) x.v[f] = r.chance(.5);
        y.push_back(r.below(L));
        x.v[m + y.back()] = 1;
        X.push_back(std::move(x));
    }
    string const hist = c.str() + fmt(" F=%d L=%d n=%d epochs=%d", F, L, n2, E);
    ctx.op(hist);
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit(X, y, L, 0), "fit");
    Snap const s0 = e->snap();
    vector<int32_t> ta(s0.ta.size(), -c.nstates);
    vector<uint32_t> w(s0.w.size(), 0);
    for (int l = 0; l < L; ++l)
    {
        // output 0 (for) fires on all other labels' examples, output 1 (against) on own ones
        ta[size_t(2 * (l * per + 0) + 1) * F + m + l] = 0;
        ta[size_t(2 * (l * per + 1) + 0) * F + m + l] = 0;
        w[l * per + 0] = w[l * per + 1] = 1000000000u;
        w[l * per + 2] = w[l * per + 3] = 1000000u;
    }
    e = e->with(ta, w);
    train(ctx, r, *e, X, y, L, E);
    Snap const s = e->snap();

    vector<vector<int64_t>> b(L, vector<int64_t>(n2, 0)); // times i was used against label l
    if (L == 2)
    {
        for (int i = 0; i < n2; ++i) b[1 - y[i]][i] = E;
    }
    else // one-hot: read it off, then everything else must fit
        for (int l = 0; l < L; ++l)
        {
            int64_t A = 0;
            for (int i = 0; i < n2; ++i) A += y[i] == l ? E : 0;
            for (int i = 0; i < n2; ++i)
                if (y[i] != l) b[l][i] = s.at(2 * (l * per + 2) + 1, i) + c.nstates - A;
        }
    for (int i = 0; i < n2; ++i)
    {
        int64_t sum = 0;
        for (int l = 0; l < L; ++l)
        {
            if (!ctx.check(b[l][i] >= 0 && b[l][i] <= E, "presentations-against-other-label", fmt("example %d label %d: %lld times in %d epochs ", i, l, (long long)b[l][i], E) + hist)) return;
            sum += b[l][i];
        }
        if (!ctx.check(sum == E, "presentations-of-example", fmt("example %d (label %d): used %lld times against other labels in %d epochs ", i, y[i], (long long)sum, E) + hist)) return;
    }
    for (int l = 0; l < L; ++l)
        for (int f = 0; f < F; ++f)
        {
            int64_t up = 0, dn = 0; // presentations with f set and own, or clear and other; and the reverse
            for (int i = 0; i < n2; ++i)
            {
                int64_t const a = y[i] == l ? E : 0;
                if (X[i].v[f]) { up += a; dn += b[l][i]; }
                else { up += b[l][i]; dn += a; }
            }
            for (int q = 2; q < 4; ++q)
            {
                int const o = l * per + q;
                int64_t const p = int64_t(s.at(2 * o, f)) + c.nstates, g = int64_t(s.at(2 * o + 1, f)) + c.nstates;
                int64_t const wp = q == 2 ? up : dn, wg = q == 2 ? dn : up;
                // Type I (even own, odd other) raises true literals, Type II false ones
                if (q == 2 ? !(p == wp && g == wg) : !(p == dn && g == up))
                {
                    ctx.violation("presentation-counts", fmt("label %d output %d feature %d: counted %lld/%lld want %lld/%lld ", l, q, f, (long long)p, (long long)g, (long long)wp, (long long)wg) + hist);
                    return;
                }
            }
        }
    ctx.count("classifier_presentations", int64_t(n2) * E);
    if (n2 > 65536) ctx.count("huge_data_sets");
    if (E > 65535) ctx.count("more_epochs_than_16_bits");
    ctx.count("evaluations");
    ctx.seen(s.model_digest());
    ctx.sample(hist);
}

static void regressor_counts(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = false;
    c.clauses = 2 * r.pick({1, 2, 5, 10});
    int const N = c.outputs_per_group();
    c.T = r.pick({2 * N, 20, 100, 1000});
    c.T = std::max(c.T, N + 2);
    c.loss = r.pick({"MAE", "MSE", "L1+2", "berHu"});
    c.C1 = r.pick({0.f, .5f, 1.f});
    bool const enduring = r.chance(.012);
    int const n = enduring ? r.range(1, 2) : gen_n(r, ctx.thorough);
    int const E = enduring ? many_epochs(r, c, ctx.thorough) : r.range(1, n > 1000 ? 2 : 4);
    int const F = enduring ? r.range(1, 3) : n > 40000 ? r.pick({1, 7, 30}) : r.pick({1, 7, 30, 64, 70, 128});
    c.nstates = N * n * E + 10;
    c.ctype = "auto";
    auto loss = [&](double x)
    {
        x = std::fabs(x);
        if (c.loss == "MAE") return x;
        if (c.loss == "MSE") return x * x;
        if (c.loss == "L1+2") return c.C1 * x + (1 - c.C1) * x * x;
        return x <= c.C1 ? x : x * x - c.C1 * c.C1 + c.C1;
    };
    Rows X;
    Labels y;
    vector<int64_t> hits;
    for (int i = 0; i < n; ++i)
    {
        for (int t = 0;; ++t)
        {
            int const yy = t > 200 ? N : r.chance(.3) ? r.pick({0, c.T}) : r.range(0, c.T);
            double const P = std::min(1., loss(double(N - yy) / c.T)), v = N * P;
            double const fr = v - std::floor(v);
            if (yy != N && (v < .5001 || std::fabs(fr - .5) < 1e-3)) continue;
            y.push_back(yy);
            hits.push_back(yy == N ? 0 : std::llround(v));
            break;
        }
        Row x;
        x.v.assign(F, 0);
        for (auto & q : x.v) q = r.chance(.5);
        X.push_back(std::move(x));
    }
    string const hist = c.str() + fmt(" F=%d n=%d epochs=%d", F, n, E);
    ctx.op(hist);
    auto e = must_make(ctx, c);
    must_ok(ctx, e->fit(X, y, 2, 0), "fit");
    Snap const s0 = e->snap();
    e = e->with(vector<int32_t>(s0.ta.size(), -c.nstates), {});
    train(ctx, r, *e, X, y, 2, E);
    Snap const s = e->snap();
    for (int f = 0; f < F; ++f)
    {
        int64_t up = 0, dn = 0, p = 0, g = 0;
        for (int i = 0; i < n; ++i) ((y[i] > N) == (X[i].v[f] != 0) ? up : dn) += hits[i] * E;
        for (int o = 0; o < N; ++o)
        {
            p += int64_t(s.at(2 * o, f)) + c.nstates;
            g += int64_t(s.at(2 * o + 1, f)) + c.nstates;
        }
        if (!ctx.check(p == up && g == dn, "presentation-counts", fmt("feature %d: counted %lld/%lld want %lld/%lld ", f, (long long)p, (long long)g, (long long)up, (long long)dn) + hist)) return;
    }
    ctx.count("regressor_presentations", int64_t(n) * E);
    if (n > 65536) ctx.count("huge_data_sets");
    if (E > 65535) ctx.count("more_epochs_than_16_bits");
    ctx.count("evaluations");
    ctx.seen(s.model_digest());
    ctx.sample(hist);
}

// Which example came first in each epoch. A clause under Type II feedback that fires on everything
// raises, per presentation, all plain automata but that of the presented one-hot example. Started so
// that they all reach -1 after e-1 epochs, the first example of epoch e closes the clause and stays
// the only one excluded.
static int first_of(Snap const & s, int o, int n)
{
    int first = -1;
    for (int f = 0; f < n; ++f)
        if (s.at(2 * o, f) < 0) { if (first >= 0) return -2; first = f; }
    return first;
}

static void order(Ctx & ctx, Rng & r, Kind k)
{
    int const n = 16;
    vector<vector<int>> seqs;
    Cfg c = base(r, k);
    c.weighted = true;
    c.T = r.pick({1, 4, 16, 64});
    c.nstates = 1000;
    c.ctype = "auto";
    Rows X;
    for (int i = 0; i < n; ++i)
    {
        Row x;
        x.v.assign(n, 0);
        x.v[i] = 1;
        X.push_back(std::move(x));
    }
    Labels const y(n, 0);
    int const E = 9;
    string hist;
    for (int rep = 0; rep < 2; ++rep)
    {
        if (rep) c.seed = c.seed + (r.chance(.5) ? 1 : 0x10000 * (1 + r.below(1000)));
        vector<int> seq;
        if (is_clf(k))
        {
            c.clauses = 4 * (E + 1);
            hist = "order " + c.str();
            ctx.op(hist);
            int const per = c.outputs_per_group();
            auto e = must_make(ctx, c);
            must_ok(ctx, e->fit(X, y, 2, 0), "fit");
            Snap const s0 = e->snap();
            vector<int32_t> ta(s0.ta.size(), -c.nstates);
            vector<uint32_t> w(s0.w.size(), 0);
            w[2 * E + 1] = 1000000000u; // against the own label, always
            w[per] = 1000000000u;       // for the other label
            for (int ep = 0; ep < E; ++ep)
                for (int f = 0; f < n; ++f) ta[size_t(2 * (2 * ep + 1)) * n + f] = -1 - ep * (n - 1);
            e = e->with(ta, w);
            train(ctx, r, *e, X, y, 2, E);
            Snap const s = e->snap();
            for (int ep = 0; ep < E; ++ep) seq.push_back(first_of(s, 2 * ep + 1, n));
        }
        else
        {
            c.clauses = 2;
            c.loss = "MAE";
            hist = "order " + c.str();
            ctx.op(hist);
            auto e0 = must_make(ctx, c);
            must_ok(ctx, e0->fit(X, y, 2, 0), "fit");
            for (int ep = 0; ep < E; ++ep)
            {
                vector<int32_t> ta(2 * n, -c.nstates);
                for (int f = 0; f < n; ++f) ta[f] = -1 - ep * (n - 1);
                auto e = e0->with(ta, {1000000u});
                train(ctx, r, *e, X, y, 2, E);
                seq.push_back(first_of(e->snap(), 0, n));
            }
        }
        string t;
        for (int v : seq) t += fmt(" %d", v);
        for (int v : seq)
            if (!ctx.check(v >= 0, "order-not-readable", "firsts:" + t + " " + hist)) return;
        for (int v : seq) ctx.count(fmt("first_%s_%d", kind_name(k), v)); // judged over all cases by the driver
        bool same = true;
        for (int v : seq) same = same && v == seq[0];
        if (!ctx.check(!same, "order-same-each-epoch", "firsts:" + t + " " + hist)) return;
        if (rep && !ctx.check(seq != seqs[0], "order-same-each-seed", "firsts:" + t + " " + hist)) return;
        seqs.push_back(seq);
        uint64_t h = k;
        for (int v : seq) h = mix(h, v);
        ctx.seen(h);
    }
    ctx.count("epoch_orders_read", 2 * E);
    ctx.count("evaluations");
    ctx.sample(hist);
}

// The same for data sets of any size: examples are their own number in binary and one feature that is
// always set. A clause with some of those bits included fires on a subset only, and its other automata
// are started so that they all reach -1 after the subset has been presented ep times: the next one of
// the subset includes the complement of itself, which can be read back, and closes the clause.
struct Watch { vector<int> fixed; vector<int> members; int ep; int first = -1; };

static void wide_order(Ctx & ctx, Rng & r, Kind k)
{
    Cfg c = base(r, k);
    c.weighted = true;
    c.T = r.pick({1, 4, 16, 64});
    c.ctype = "auto";
    int const n = r.chance(.02) ? r.pick({65536, 65537, 70001}) : r.chance(.3) ? r.pick({255, 256, 257, 1000, 1024, 4096, 5000})
        : r.chance(.5) ? r.chance(.3) ? r.range(9000, 20000) : r.range(4097, 9000) : r.chance(.2) ? r.range(1000, 10000) : r.range(40, 1000);
    int bits = 1;
    while ((1 << bits) < n) ++bits;
    int const F = bits + 1, E = is_clf(k) && n > 4096 && n <= 9000 ? 9 : 5;
    c.nstates = (E + 1) * n + 10;
    Rows X(n);
    for (int i = 0; i < n; ++i)
    {
        X[i].v.assign(F, 0);
        for (int b = 0; b < bits; ++b) X[i].v[b] = i >> b & 1;
        X[i].v[bits] = 1;
    }
    Labels const y(n, 0);
    vector<vector<int>> sets; // per watched set: -1 or the value of each bit
    sets.push_back(vector<int>(bits, -1));
    {
        // a half or quarter, at either end most of the time
        vector<int> f(bits, -1);
        f[bits - 1] = 0;
        if (r.chance(.5)) { f[bits - 1] = (n - 1) >> (bits - 1) & 1; f[bits - 2] = (n - 1) >> (bits - 2) & 1; }
        else if (r.chance(.5)) { f[bits - 1] = -1; f[r.below(bits)] = r.below(2); }
        sets.push_back(f);
        // a pair
        int const free = r.chance(.5) ? 0 : r.below(bits), a = r.chance(.3) ? n - 1 : r.below(n);
        for (int b = 0; b < bits; ++b) f[b] = b == free ? -1 : a >> b & 1;
        sets.push_back(f);
    }
    vector<Watch> ws;
    for (auto const & f : sets)
    {
        Watch q;
        q.fixed = f;
        for (int i = 0; i < n; ++i)
        {
            bool in = true;
            for (int b = 0; b < bits && in; ++b) in = f[b] < 0 || f[b] == (i >> b & 1);
            if (in) q.members.push_back(i);
        }
        if (q.members.size() < 2) continue;
        for (q.ep = 0; q.ep < E; ++q.ep) ws.push_back(q);
    }
    auto clause = [&](Watch const & q, vector<int32_t> & ta, size_t o)
    {
        for (int f = 0; f < F; ++f)
        {
            int64_t set = 0;
            for (int i : q.members) set += X[i].v[f];
            int64_t const clear = int64_t(q.members.size()) - set;
            bool const fixed = f < bits && q.fixed[f] >= 0;
            // plain automata rise when the feature is clear, the negated ones when it is set
            ta[(2 * o) * F + f] = fixed && q.fixed[f] == 1 ? 0 : int32_t(fixed ? -c.nstates : -1 - q.ep * clear);
            ta[(2 * o + 1) * F + f] = fixed && q.fixed[f] == 0 ? 0 : int32_t(fixed ? -c.nstates : -1 - q.ep * set);
        }
    };
    auto read = [&](Watch const & q, Snap const & s, int o)
    {
        int x = 0;
        for (int b = 0; b < bits; ++b)
        {
            if (q.fixed[b] >= 0) { x |= q.fixed[b] << b; continue; }
            bool const p = s.at(2 * o, b) >= 0, g = s.at(2 * o + 1, b) >= 0;
            if (p == g) return -1;
            if (g) x |= 1 << b;
        }
        return s.at(2 * o, bits) < 0 && s.at(2 * o + 1, bits) >= 0 && x < n ? x : -1;
    };
    string hist = fmt("wide order of %d ", n) + c.str();
    if (is_clf(k))
    {
        int const Q = int(ws.size());
        c.clauses = 4 * (Q + 1);
        int const per = c.outputs_per_group();
        hist = fmt("wide order of %d ", n) + c.str();
        ctx.op(hist);
        auto e = must_make(ctx, c);
        must_ok(ctx, e->fit(X, y, 2, 0), "fit");
        Snap const s0 = e->snap();
        vector<int32_t> ta(s0.ta.size(), -c.nstates);
        vector<uint32_t> w(s0.w.size(), 0);
        w[2 * Q + 1] = 1000000000u;
        w[per] = 1000000000u;
        for (int q = 0; q < Q; ++q) clause(ws[q], ta, 2 * q + 1);
        e = e->with(ta, w);
        train(ctx, r, *e, X, y, 2, E);
        Snap const s = e->snap();
        for (int q = 0; q < Q; ++q) ws[q].first = read(ws[q], s, 2 * q + 1);
    }
    else
    {
        c.clauses = 2;
        c.loss = "MAE";
        hist = fmt("wide order of %d ", n) + c.str();
        ctx.op(hist);
        auto e0 = must_make(ctx, c);
        must_ok(ctx, e0->fit(X, y, 2, 0), "fit");
        for (auto & q : ws)
        {
            vector<int32_t> ta(size_t(2) * F, -c.nstates);
            clause(q, ta, 0);
            auto e = e0->with(ta, {1000000000u});
            train(ctx, r, *e, X, y, 2, E);
            q.first = read(q, e->snap(), 0);
        }
    }
    for (size_t i = 0; i < ws.size(); i += E)
    {
        string t;
        bool same = true;
        size_t const m = ws[i].members.size();
        for (int ep = 0; ep < E; ++ep)
        {
            int const v = ws[i + ep].first;
            t += fmt(" %d", v);
            same = same && v == ws[i].first;
        }
        for (int ep = 0; ep < E; ++ep)
        {
            auto const & q = ws[i + ep];
            if (!ctx.check(std::binary_search(q.members.begin(), q.members.end(), q.first), "wide-order-not-readable",
                fmt("firsts of %zu:", m) + t + " " + hist)) return;
            if (m == 2) ctx.count(fmt("pair_%d_%d", k, q.first == q.members[1]));
            else if (m % 8 == 0 || m >= 1000) ctx.count(fmt("eighth_%d_%c%d_%d", k, int(m) == n ? 'w' : 's', n > 4096 ? 2 : n >= 1000 ? 1 : 0, int((std::lower_bound(q.members.begin(), q.members.end(), q.first) - q.members.begin()) * 8 / m)));
        }
        // 1000^-4 for the data sets this is judged on
        if (m >= 1000 && !ctx.check(!same, "wide-order-same-each-epoch", fmt("firsts of %zu:", m) + t + " " + hist)) return;
        for (int ep = 1; ep < E; ++ep)
            if (m >= 40) ctx.count(ws[i + ep].first == ws[i + ep - 1].first ? "again_first" : "newly_first");
        uint64_t h = k;
        for (int ep = 0; ep < E; ++ep) h = mix(h, ws[i + ep].first);
        ctx.seen(h);
        ctx.count("wide_orders_read", E);
    }
    ctx.count("evaluations");
}

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    int const m = (id / 4) % 5;
    if (m < 3) is_clf(k) ? classifier_counts(ctx, r, k) : regressor_counts(ctx, r, k);
    else if (m == 3) r.chance(.3) ? wide_order(ctx, r, k) : order(ctx, r, k);
    else
    {
        // fit from scratch: as initialisation followed by the epochs judged above
        Prob p = gen_prob(r, k, 40);
        int const E = r.range(1, 3);
        ctx.op("fit " + p.str());
        auto a = must_make(ctx, p.c), b = must_make(ctx, p.c);
        must_ok(ctx, a->fit(p.X, p.y, p.L, E), "fit");
        must_ok(ctx, b->fit(p.X, p.y, p.L, 0), "fit");
        must_ok(ctx, b->partial_fit(p.X, p.y, p.L, E), "partial_fit");
        string const d = snap_diff(a->snap(), b->snap());
        ctx.check(d.empty(), "fit-unlike-partial-fit", d + " " + p.str());
        ctx.count("fits_compared");
    }
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
