// Generated API calls, valid or spoilt in known ways, with the status an independent reading of the
// data says they must get.
#pragma once
#include "common.hpp"

#include <climits>

namespace H
{

enum CallKind { FIT, PFIT, PRED, PRED1, DEC, DEC1, EVAL };
inline char const * call_name(int k)
{
    static char const * n[] = {"fit", "partial_fit", "predict", "predict(one)", "decision_function", "decision_function(one)", "evaluate"};
    return n[k];
}

struct Shape // what the generator knows about the estimator
{
    bool fitted = false;
    int F = 0, L = 0;
    Rows last; // data of the last accepted training, and its labels
    Labels lasty;
};

struct Call
{
    CallKind k = FIT;
    Rows X;
    Labels y;
    int L = 2;
    unsigned ep = 1;
    int want = 0; // 0 OK, 2 value error, 3 not fitted
    string why;   // how it was spoilt

    string str() const
    {
        string s = fmt("%s n=%zu F=%zu ny=%zu L=%d epochs=%u", call_name(k), X.size(), X.empty() ? size_t(0) : X[0].v.size(), y.size(), L, ep);
        return s + (why.empty() ? " valid" : " spoilt:" + why);
    }
};

// The specification of acceptance, from the data alone.
inline int classify(Call const & k, Cfg const & c, Shape const & s)
{
    bool const clf = is_clf(c.kind), train = k.k <= PFIT, fresh = k.k == FIT || (k.k == PFIT && !s.fitted);
    if (!train && !s.fitted) return 3;
    if (k.X.empty()) return 2;
    if (train || k.k == EVAL)
        if (k.y.size() != k.X.size()) return 2;
    for (auto const & x : k.X)
    {
        if (x.v.size() != k.X[0].v.size()) return 2;
        if (!is_bw(c.kind))
            for (char v : x.v)
                if (v != 0 && v != 1) return 2;
        if (is_bw(c.kind) && !x.pad.empty()) return 2;
    }
    if (!fresh && int(k.X[0].v.size()) != s.F) return 2;
    if (train && clf)
    {
        int64_t mx = 0;
        for (int v : k.y)
        {
            if (v < 0) return 2;
            mx = std::max<int64_t>(mx, v);
        }
        if (!fresh && mx >= s.L) return 2;
        if (fresh)
        {
            int64_t const labels = std::max<int64_t>(mx + 1, k.L);
            if (labels < 2 || labels * c.clauses > INT_MAX) return 2;
        }
    }
    else if (train)
    {
        for (int v : k.y)
            if (v < 0 || v > c.T) return 2;
    }
    return 0;
}

inline bool spoil_X(Rng & r, Cfg const & c, Rows & X, string & why, bool one)
{
    switch (r.below(4))
    {
        case 0:
            if (one || X.size() < 2) return false;
            if (X.size() > 2 && r.chance(.25)) // no more and no fewer values than rows of one length would have
            {
                size_t const a = r.range(1, int(X.size()) - 1), b = r.range(1, int(X.size()) - 1);
                int const d = X[b].v.size() > 64 && r.chance(.3) ? 64 : 1;
                if (a == b || int(X[b].v.size()) <= d) return false;
                for (auto i : {a, b}) { X[i].pad.clear(); X[i].spare = 0; }
                X[a].v.resize(X[a].v.size() + d, 0);
                X[b].v.resize(X[b].v.size() - d);
                why += " ragged-balanced";
                return true;
            }
            {
                auto & row = X[r.chance(.5) ? X.size() - 1 : r.below(int(X.size()))];
                auto & v = row.v;
                row.pad.clear(); // positions past the old end may lie inside the new content
                row.spare = 0;
                int const m = r.below(4);
                if (m == 0) v.push_back(0);
                else if (m == 1 && v.size() > 1) v.pop_back();
                else if (m == 2) v.resize(v.size() + 64, 0);
                else if (v.size() > 1) v.clear();
                else v.push_back(1);
                why += " ragged";
                return true;
            }
        case 1:
        case 2:
        {
            auto & row = X[r.chance(.5) ? X.size() - 1 : r.below(int(X.size()))];
            if (!is_bw(c.kind))
            {
                if (row.v.empty()) return false;
                int const p = r.chance(.3) ? int(row.v.size()) - 1 : r.chance(.2) ? 0 : r.below(int(row.v.size()));
                row.v[p] = r.pick<char>({2, 3, -1, 49, 48, 127, -128, 16});
                why += " non-binary";
                return true;
            }
            int const n = int(row.v.size());
            int const tail = n % 64;
            if (r.chance(.5) && tail != 0)
            {
                row.pad.push_back(r.chance(.3) ? n : r.chance(.3) ? n - tail + 63 : r.range(n, n - tail + 63));
                if (r.chance(.3)) row.spare = r.range(1, 9);
                why += " stray-bit";
                return true;
            }
            row.spare = r.range(1, 9);
            int const lo = (n + 63) / 64 * 64, hi = lo + 64 * row.spare - 1;
            row.pad.push_back(r.chance(.3) ? lo : r.chance(.3) ? hi : r.range(lo, hi));
            why += " stray-block";
            return true;
        }
        default:
            if (one) return false;
            X.clear();
            why += " empty-X";
            return true;
    }
}

inline bool marathons = true; // see there

inline Call gen_call(Rng & r, Cfg const & c, Shape const & s, double p_bad, double p_train = .5, bool big = true)
{
    Call k;
    bool const clf = is_clf(c.kind);
    if (r.chance(p_train)) k.k = r.chance(.35) ? FIT : PFIT;
    else k.k = clf ? r.pick({PRED, PRED1, DEC, DEC1, EVAL, EVAL}) : r.pick({PRED, PRED1});
    bool const train = k.k <= PFIT;
    bool const one = k.k == PRED1 || k.k == DEC1;
    bool const fresh = k.k == FIT || (k.k == PFIT && !s.fitted); // (re)initialises the model
    int F = fresh ? (r.chance(.3) && s.fitted ? s.F : gen_features(r, big)) : s.fitted ? s.F : gen_features(r, big);
    int n = one ? 1 : r.range(1, 7);
    k.L = r.pick({2, 2, 3, 5});
    for (int t = 0; fresh && t < 50 && int64_t(F) * c.outputs_per_group() * (clf ? 5 : 1) > 60000; ++t)
        F = t < 30 ? gen_features(r, false) : r.range(1, 2); // still too many for giant numbers of clauses
    if (fresh && big && c.outputs_per_group() <= 4 && r.chance(.004)) F = giant_features(r);
    k.ep = r.pick({0, 1, 1, 2, 3});
    // now and then many of something, as far as the work allows
    if (fresh && clf && r.chance(.03)) k.L = r.pick({8, 9, 16, 17, 33, 64, 65, 130, 257});
    while (k.L > 5 && int64_t(F) * c.outputs_per_group() * k.L > 60000) k.L /= 2;
    if (!one && r.chance(.06)) n = r.pick({r.range(8, 40), 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4099});
    if (r.chance(.03)) k.ep = r.pick({7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101});
    auto work = [&] { return int64_t(n) * (train ? std::max(1u, k.ep) * 2 : clf ? (s.fitted ? s.L : 2) : 1) * F * c.outputs_per_group(); };
    while (k.ep > 3 && work() > 400000) k.ep /= 2;
    if (F * int64_t(c.outputs_per_group()) > 60000) k.ep = std::min(k.ep, 1u);
    bool marathon = false;
    while (n > 3 && work() > 1000000) n /= 2;
    while (n > 7 && work() > 400000) n /= 2;
    // the smallest of models trained for very long, past what fits 16 bits
    if (marathons && c.jobs == 1 && train && n <= 7 && int64_t(F) * c.outputs_per_group() * (clf ? std::max(k.L, s.L) : 1) <= 150 && r.chance(&__sanitizer_get_heap_size == nullptr ? .02 : .004))
    {
        marathon = true;
        k.ep = unsigned(r.pick({1000, 5000, 66000, 70000}) / n + 1);
    }
    // the data of the last training once more, changed a little or not at all
    bool const again = !marathon && !s.last.empty() && r.chance(.3) && (fresh || int(s.last[0].v.size()) == s.F);
    if (again)
    {
        F = int(s.last[0].v.size());
        n = one ? 1 : int(s.last.size());
        if (fresh && clf) k.L = std::min(k.L, 5);
        if (work() > 400000) k.ep = std::min(k.ep, 1u);
        k.X = one ? Rows(1, r.pick({s.last.front(), s.last.back(), s.last[r.below(int(s.last.size()))]})) : s.last;
        if (r.chance(.5) && F > 0)
        {
            auto & x = k.X[r.below(n)].v;
            auto & v = x[r.chance(.3) ? F - 1 : r.below(F)];
            v = !v;
        }
    }
    else k.X = gen_rows(r, n, F);
    int const labels = fresh || !s.fitted ? k.L : s.L;
    k.y = gen_y(r, c, n, labels);
    if (again && !one && r.chance(.7) && (!clf || fresh || *std::max_element(s.lasty.begin(), s.lasty.end()) < labels)) k.y = s.lasty;
    if (fresh && clf)
    {
        if (r.chance(.2)) k.L = r.pick({0, 1, -7, 2}); // raised to what the labels need
        int const mx = *std::max_element(k.y.begin(), k.y.end());
        if (std::max(mx + 1, k.L) < 2) k.y[0] = 1;
    }
    else if (clf && r.chance(.3)) k.L = r.pick({0, 1, 2, 50, -1, INT_MAX, INT_MIN}); // has no meaning here
    if (!train && !s.fitted)
    {
        k.want = 3;
        if (r.chance(.5))
        {
            string w;
            spoil_X(r, c, k.X, w, one);
        }
        if (r.chance(.2)) k.y.clear();
        k.why = " not-fitted";
        return k;
    }
    if (!r.chance(p_bad)) return k;

    int const spoils = r.pick({1, 1, 1, 2, 3});
    for (int i = 0; i < spoils; ++i)
    {
        bool done = false;
        for (int t = 0; t < 20 && !done; ++t)
        {
            switch (r.below(7))
            {
                case 0: case 1:
                    if (!k.X.empty()) done = spoil_X(r, c, k.X, k.why, one);
                    break;
                case 2: // another number of features than trained with
                    if (fresh || k.X.empty()) break;
                    {
                        int const d = r.pick({1, -1, 64, -64, 8, 1});
                        int const nf = s.F + d;
                        if (nf < 1) break;
                        for (auto & x : k.X) { x.v.resize(nf, 0); x.pad.clear(); x.spare = 0; }
                        k.why += fmt(" features%+d", d);
                        // rows may have been spoilt before; all of them are of the same wrong size now
                        done = true;
                    }
                    break;
                case 3: // lengths
                    if (!train && k.k != EVAL) break;
                    if (r.chance(.3)) { if (k.y.empty()) break; k.y.clear(); k.why += " empty-y"; }
                    else if (r.chance(.5) && k.y.size() > 1 && k.y.size() == k.X.size()) { k.y.pop_back(); k.why += " short-y"; }
                    else if (k.y.size() >= k.X.size()) { k.y.push_back(0); k.why += " long-y"; }
                    else break;
                    done = true;
                    break;
                case 4: case 5: // labels or responses
                    if (!train || k.y.empty()) break;
                    {
                        auto & v = k.y[r.chance(.5) ? k.y.size() - 1 : r.below(int(k.y.size()))];
                        if (clf)
                        {
                            int const m = r.below(3);
                            if (m == 0) v = r.pick({-1, -2, INT_MIN});
                            else if (m == 1 && !fresh) v = r.pick({s.L, s.L + 1, s.L + 7, INT_MAX});
                            else if (m == 2 && fresh) v = r.pick({INT_MAX, INT_MAX - 1});
                            else break;
                        }
                        else
                        {
                            int const m = r.below(2);
                            if (m == 0) v = r.pick({-1, -2, INT_MIN});
                            else if (c.T < INT_MAX) v = r.pick({c.T + 1, INT_MAX});
                            else break;
                        }
                        k.why += fmt(" label=%d", v);
                        done = true;
                    }
                    break;
                default: // fewer than two labels
                    if (!clf || !fresh || !k.why.empty()) break;
                    if (r.chance(.2)) { k.L = r.pick({INT_MAX, INT_MAX - 1}); k.why += " too-many-labels"; done = true; break; }
                    k.L = r.pick({1, 0, -1, INT_MIN});
                    std::fill(k.y.begin(), k.y.end(), 0);
                    k.why += " one-label";
                    spoil_X(r, c, k.X, k.why, one); // maybe
                    done = true;
                    i = spoils; // a later one could add a second label
            }
        }
    }
    if (!k.X.empty() && !one)
        for (auto & x : k.X)
            if (x.v.empty() && k.X[0].v.empty()) { x.v.assign(1, 0); x.pad.clear(); } // no features at all: not specified
    k.want = classify(k, c, s);
    return k;
}

// performs the call; answers go into h when they are OK
inline Status perform(Est & e, Call const & k, uint64_t * h = nullptr)
{
    Labels o;
    vector<vector<int>> d;
    vector<int> d1;
    int one = 0;
    float a = 0;
    Status s;
    switch (k.k)
    {
        case FIT: s = e.fit(k.X, k.y, k.L, k.ep); break;
        case PFIT: s = e.partial_fit(k.X, k.y, k.L, k.ep); break;
        case PRED: s = e.predict(k.X, o); break;
        case PRED1: s = e.predict1(k.X[0], one); break;
        case DEC: s = e.decision(k.X, d); break;
        case DEC1: s = e.decision1(k.X[0], d1); break;
        case EVAL: s = e.evaluate(k.X, k.y, a); break;
    }
    if (h && s.code == 0)
    {
        for (int v : o) *h = mix(*h, uint32_t(v));
        for (auto & x : d) for (int v : x) *h = mix(*h, uint32_t(v));
        for (int v : d1) *h = mix(*h, uint32_t(v));
        uint32_t b;
        std::memcpy(&b, &a, 4);
        *h = mix(mix(*h, uint32_t(one)), b);
    }
    return s;
}

inline void learn_shape(Shape & s, Call const & k)
{
    if (k.want != 0) return;
    if (k.k <= PFIT) { s.last = k.X; s.lasty = k.y; }
    if (k.k == FIT || (k.k == PFIT && !s.fitted))
    {
        s.fitted = true;
        s.F = int(k.X[0].v.size());
        s.L = int(std::max<int64_t>(k.L, int64_t(*std::max_element(k.y.begin(), k.y.end())) + 1));
        if (s.L < 0) s.L = 2; // regressors have no labels
    }
}

} // namespace H
