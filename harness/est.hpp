// Type-erased estimators: implementation over the library's public API.
#pragma once

#include "common.hpp"

#include "tsetlini.hpp"
#include "tsetlini_state_json.hpp"
#include "estimator_state.hpp"
#include "basic_bit_vector_companion.hpp"

namespace H
{

using namespace Tsetlini;

inline aligned_vector_char to_classic(Row const & r) { return aligned_vector_char(r.v.begin(), r.v.end()); }

inline bit_vector_uint64 to_bits(Row const & r)
{
    size_t const n = r.v.size();
    size_t const blocks = (n + 63) / 64 + r.spare;
    bit_vector_uint64::aligned_vector st(blocks);
    for (size_t i = 0; i < n; ++i)
        if (r.v[i]) st[i / 64] |= uint64_t(1) << (i % 64);
    for (int p : r.pad)
        if (size_t(p) / 64 < blocks) st[p / 64] |= uint64_t(1) << (p % 64);
    return bit_vector_uint64(n, std::move(st));
}

inline string pv_str(param_value_t const & p)
{
    if (auto v = std::get_if<int>(&p)) return fmt("int:%d", *v);
    if (auto v = std::get_if<seed_type>(&p)) return fmt("uint:%u", *v);
    if (auto v = std::get_if<real_type>(&p)) return fmt("real:%.9g", double(*v));
    if (auto v = std::get_if<bool>(&p)) return fmt("bool:%d", int(*v));
    if (auto v = std::get_if<string>(&p)) return "str:" + *v;
    return "none";
}

inline std::map<string, string> params_map(params_t const & p)
{
    std::map<string, string> m;
    for (auto & kv : p) m[kv.first] = pv_str(kv.second);
    return m;
}

template<class G>
uint64_t future_digest(G const & g, int n = 5200)
{
    auto c = std::make_unique<G>(g);
    uint64_t h = 3;
    for (int i = 0; i < n; ++i)
    {
        auto const v = (*c)();
        uint32_t b;
        static_assert(sizeof(v) == 4, "");
        std::memcpy(&b, &v, 4);
        h = mix(h, b);
    }
    return h;
}

template<class St>
Snap take_snap(St const & st)
{
    Snap s;
    std::visit([&](auto const & m)
    {
        using vt = typename std::decay_t<decltype(m)>::value_type;
        s.width = sizeof(vt);
        s.rows = m.rows();
        s.cols = m.cols();
        s.ta.resize(size_t(s.rows) * s.cols);
        for (int r = 0; r < s.rows; ++r)
        {
            auto p = m.row_data(r);
            for (int c = 0; c < s.cols; ++c) s.ta[size_t(r) * s.cols + c] = p[c];
        }
    }, st.ta_state.matrix);
    s.fitted = s.rows != 0;
    s.w.assign(st.ta_state.weights.begin(), st.ta_state.weights.end());
    if constexpr (std::is_same_v<typename St::ta_state_type, TAStateWithPolarity>)
    {
        auto const & pm = st.ta_state.polarity;
        s.has_pol = true;
        s.prows = pm.rows();
        s.pcols = pm.cols();
        s.pol.resize(size_t(s.prows) * s.pcols);
        for (int r = 0; r < s.prows; ++r)
        {
            auto p = pm.row_data(r);
            for (int c = 0; c < s.pcols; ++c)
                s.pol[size_t(r) * s.pcols + c] = (p[c / 64] >> (c % 64)) & 1;
            for (unsigned c = s.pcols; c < pm.row_blocks() * 64; ++c)
                if ((p[c / 64] >> (c % 64)) & 1) s.pol_pad_clean = false;
        }
    }
    s.params = params_map(st.m_params);
    s.ifut = future_digest(st.igen);
    s.ffut = future_digest(st.fgen);
    return s;
}

template<Kind K> struct Tr;
template<> struct Tr<CC> { using E = ClassifierClassic; using S = ClassifierStateClassic; using X = aligned_vector_char;
    static X conv(Row const & r) { return to_classic(r); } };
template<> struct Tr<CB> { using E = ClassifierBitwise; using S = ClassifierStateBitwise; using X = bit_vector_uint64;
    static X conv(Row const & r) { return to_bits(r); } };
template<> struct Tr<RC> { using E = RegressorClassic; using S = RegressorStateClassic; using X = aligned_vector_char;
    static X conv(Row const & r) { return to_classic(r); } };
template<> struct Tr<RB> { using E = RegressorBitwise; using S = RegressorStateBitwise; using X = bit_vector_uint64;
    static X conv(Row const & r) { return to_bits(r); } };

template<Kind K> Either<status_message_t, typename Tr<K>::E> make_json(string const & js)
{
    if constexpr (K == CC) return make_classifier_classic_from_json(js);
    else if constexpr (K == CB) return make_classifier_bitwise_from_json(js);
    else if constexpr (K == RC) return make_regressor_classic_from_json(js);
    else return make_regressor_bitwise_from_json(js);
}

template<Kind K, class ...A> Either<status_message_t, typename Tr<K>::E> make_args(A && ...a)
{
    if constexpr (K == CC) return make_classifier_classic(std::forward<A>(a)...);
    else if constexpr (K == CB) return make_classifier_bitwise(std::forward<A>(a)...);
    else if constexpr (K == RC) return make_regressor_classic(std::forward<A>(a)...);
    else return make_regressor_bitwise(std::forward<A>(a)...);
}

template<Kind K> Either<status_message_t, typename Tr<K>::E> make_from_cfg_args(Cfg const & c)
{
    if constexpr (is_clf(K))
        return make_args<K>(
            number_of_physical_classifier_clauses_per_label_t{c.clauses}, number_of_states_t{c.nstates},
            specificity_t{c.s}, threshold_t{c.T}, weighted_flag_t{c.weighted}, max_weight_t{c.maxw},
            boost_tpf_t{c.boost}, number_of_jobs_t{c.jobs}, verbosity_t{c.verbose}, counting_type_t{c.ctype},
            clause_output_tile_size_t{c.tile}, random_seed_t{c.seed});
    else
        return make_args<K>(
            number_of_physical_regressor_clauses_t{c.clauses}, number_of_states_t{c.nstates},
            specificity_t{c.s}, threshold_t{c.T}, weighted_flag_t{c.weighted}, max_weight_t{c.maxw},
            boost_tpf_t{c.boost}, number_of_jobs_t{c.jobs}, verbosity_t{c.verbose}, counting_type_t{c.ctype},
            clause_output_tile_size_t{c.tile}, loss_fn_name_t{c.loss}, loss_fn_C1_t{c.C1},
            box_muller_flag_t{c.bm}, random_seed_t{c.seed});
}

// Data handed to the library lives either in a fresh vector each time, or (reuse_data) in one vector per
// thread and kind of row, whose rows are overwritten in place as long as their sizes allow it: whoever
// recognises data by its address sees other data there.
template<class X> vector<X> & kept_rows()
{
    static thread_local vector<X> v;
    return v;
}

inline void overwrite(aligned_vector_char & to, aligned_vector_char && from)
{
    if (to.size() == from.size()) std::copy(from.begin(), from.end(), to.begin());
    else to = std::move(from);
}

inline void overwrite(bit_vector_uint64 & to, bit_vector_uint64 && from)
{
    if (to.m_vector.size() == from.m_vector.size())
    {
        std::copy(from.m_vector.begin(), from.m_vector.end(), to.m_vector.begin());
        to.m_bit_length = from.m_bit_length;
    }
    else to = std::move(from);
}

// f(), from within a parallel region of the calling program if in_team
template<class F> auto call_library(F && f)
{
    using R = decltype(f());
    if (!in_team) return f();
    std::unique_ptr<R> r;
    #pragma omp parallel num_threads(2)
    {
        #pragma omp single
        r.reset(new R(f()));
    }
    return std::move(*r);
}

template<Kind K>
struct EstT : Est
{
    using E = typename Tr<K>::E;
    using S = typename Tr<K>::S;
    using X_t = typename Tr<K>::X;
    E e;

    explicit EstT(E && x) : Est(K), e(std::move(x)) {}

    static vector<X_t> conv(Rows const & X)
    {
        vector<X_t> r;
        r.reserve(X.size());
        for (auto const & x : X) r.push_back(Tr<K>::conv(x));
        return r;
    }
    struct Given // rows as the library gets them
    {
        vector<X_t> own;
        vector<X_t> const & rows;
        explicit Given(Rows const & X) : own(reuse_data ? vector<X_t>() : conv(X)), rows(reuse_data ? kept_rows<X_t>() : own)
        {
            if (!reuse_data) return;
            auto & k = kept_rows<X_t>();
            k.resize(X.size());
            for (size_t i = 0; i < X.size(); ++i) overwrite(k[i], Tr<K>::conv(X[i]));
        }
        explicit Given(Row const & x) : Given(Rows(1, x)) {}
    };
    static Status st(status_message_t const & m) { return {int(m.first), m.second}; }

    Status fit(Rows const & X, Labels const & y, int L, unsigned ep) override
    {
        Given const g(X);
        auto const & x = g.rows;
        if constexpr (K == CC || K == CB) return st(call_library([&] { return e.fit(x, y, max_number_of_labels_t{L}, number_of_epochs_t{ep}); }));
        else { (void)L; return st(call_library([&] { return e.fit(x, y, number_of_epochs_t{ep}); })); }
    }
    Status partial_fit(Rows const & X, Labels const & y, int L, unsigned ep) override
    {
        Given const g(X);
        auto const & x = g.rows;
        if constexpr (K == CC || K == CB) return st(call_library([&] { return e.partial_fit(x, y, number_of_epochs_t{ep}, max_number_of_labels_t{L}); }));
        else { (void)L; return st(call_library([&] { return e.partial_fit(x, y, number_of_epochs_t{ep}); })); }
    }
    template<class Ei, class F> static Status take(Ei && ei, F && f)
    {
        Status r;
        if (ei.isLeft)
        {
            r = st(ei.leftValue);
            if (r.code == 0) r.code = -1;
        }
        else f(ei.rightValue);
        return r;
    }
    Status predict(Rows const & X, Labels & out) const override
    {
        Given const g(X);
        return take(call_library([&] { return e.predict(g.rows); }), [&](auto & v) { out.assign(v.begin(), v.end()); });
    }
    Status predict1(Row const & x, int & out) const override
    {
        Given const g(x);
        return take(call_library([&] { return e.predict(g.rows[0]); }), [&](auto & v) { out = v; });
    }
    Status decision(Rows const & X, vector<vector<int>> & out) const override
    {
        if constexpr (K == CC || K == CB)
        {
            Given const g(X);
            return take(call_library([&] { return e.decision_function(g.rows); }), [&](auto & v)
            {
                out.clear();
                for (auto const & r : v) out.emplace_back(r.begin(), r.end());
            });
        }
        else return {-1, ""};
    }
    Status decision1(Row const & x, vector<int> & out) const override
    {
        if constexpr (K == CC || K == CB)
        {
            Given const g(x);
            return take(call_library([&] { return e.decision_function(g.rows[0]); }), [&](auto & v) { out.assign(v.begin(), v.end()); });
        }
        else return {-1, ""};
    }
    Status evaluate(Rows const & X, Labels const & y, float & out) const override
    {
        if constexpr (K == CC || K == CB)
        {
            Given const g(X);
            return take(call_library([&] { return e.evaluate(g.rows, y); }), [&](auto & v) { out = v; });
        }
        else return {-1, ""};
    }
    Snap snap() const override { auto p = e.clone_state(); return take_snap(*p); }
    std::map<string, string> params() const override { return params_map(e.read_params()); }
    std::unique_ptr<Est> clone() const override
    {
        auto p = e.clone_state();
        return std::make_unique<EstT>(E(*p));
    }
    std::unique_ptr<Est> steal() override { return std::make_unique<EstT>(std::move(e)); }
    void assign_move(Est & o) override { e = std::move(dynamic_cast<EstT &>(o).e); }
    string save() const override { auto p = e.clone_state(); return to_json_string(*p); }
    std::unique_ptr<Est> load(string const & doc) const override
    {
        auto p = e.clone_state();
        from_json_string(*p, doc);
        return std::make_unique<EstT>(E(*p));
    }
    std::unique_ptr<Est> with(vector<int32_t> const & ta, vector<uint32_t> const & w) const override
    {
        auto p = e.clone_state();
        std::visit([&](auto & m)
        {
            using vt = typename std::decay_t<decltype(m)>::value_type;
            for (unsigned r = 0; r < m.rows(); ++r)
            {
                auto q = m.row_data(r);
                for (unsigned c = 0; c < m.cols(); ++c) q[c] = vt(ta[size_t(r) * m.cols() + c]);
            }
            if constexpr (K == CB || K == RB)
                for (unsigned r = 0; r < m.rows(); ++r)
                    for (unsigned c = 0; c < m.cols(); ++c)
                    {
                        bool const inc = ta[size_t(r) * m.cols() + c] >= 0;
                        if (bool(p->ta_state.polarity.test(r, c)) != inc) p->ta_state.polarity.flip(r, c);
                    }
        }, p->ta_state.matrix);
        if (!w.empty()) p->ta_state.weights.assign(w.begin(), w.end());
        return std::make_unique<EstT>(E(*p));
    }
    std::unique_ptr<Est> advance(int ni, int nf) const override
    {
        auto p = e.clone_state();
        for (int i = 0; i < ni; ++i) p->igen();
        for (int i = 0; i < nf; ++i) p->fgen();
        return std::make_unique<EstT>(E(*p));
    }
    bool state_equal(Est const & o) const override
    {
        auto a = e.clone_state();
        auto b = dynamic_cast<EstT const &>(o).e.clone_state();
        return *a == *b;
    }
};

} // namespace H
