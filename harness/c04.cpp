// C04: creation from JSON documents and from argument lists. The oracle is a table of settings with
// their domains and defaults, written independently of the library.
#include "est.hpp"

#include <climits>
#include <cfloat>
#include <optional>
#include <sched.h>
#include <thread>
#include <tuple>
#include <unistd.h>

// how many processors the machine seems to have
static int processors = -1;
unsigned std::thread::hardware_concurrency() noexcept { return unsigned(processors >= 0 ? processors : sysconf(_SC_NPROCESSORS_ONLN)); }

namespace H
{

enum Set { CLAUSES, STATES, SPEC, THR, WEIGHTED, MAXW, BOOST, JOBS, VERBOSE, CTYPE, TILE, SEED, LOSS, C1, BM, NSET };
static constexpr int n_settings(Kind k) { return is_clf(k) ? int(LOSS) : int(NSET); }

static string key_of(Kind k, int s)
{
    static char const * n[] = {"number_of_clauses_per_label", "number_of_states", "s", "threshold", "weighted", "max_weight",
        "boost_true_positive_feedback", "n_jobs", "verbose", "counting_type", "clause_output_tile_size", "random_state",
        "loss_fn", "loss_fn_C1", "box_muller"};
    if (s == CLAUSES && !is_clf(k)) return "number_of_regressor_clauses";
    return n[s];
}

// a value as the caller states it
struct Val
{
    int64_t i = 0;
    float f = 0;
    bool b = false;
    string str;
    bool ok = true; // in the domain
};

static Val gen_value(Rng & r, Kind k, int s, bool good)
{
    Val v;
    v.ok = good;
    int const q = is_clf(k) ? 4 : 2;
    auto positive = [&](int64_t hi) -> int64_t
    {
        return good ? (r.chance(.3) ? r.pick<int64_t>({1, 2, hi, hi - 1}) : r.chance(.5) ? r.range(1, 300) : r.range(1, int(hi)))
                    : (r.chance(.5) ? r.pick<int64_t>({0, -1, INT_MIN, -2}) : -int64_t(r.range(1, INT_MAX)));
    };
    switch (s)
    {
        case CLAUSES:
            if (good) v.i = r.chance(.15) ? INT_MAX / q * q : int64_t(q) * r.range(1, 50);
            else
                do v.i = r.chance(.4) ? r.pick<int64_t>({0, -q, 1, -1, q + 1, 2 * q - 1, INT_MAX, INT_MIN}) : r.range(-50, 500);
                while (v.i > 0 && v.i % q == 0);
            break;
        case STATES:
        case THR:
        case MAXW:
            v.i = positive(INT_MAX);
            break;
        case BOOST:
            v.i = good ? r.below(2) : r.pick<int64_t>({-1, 2, 3, INT_MAX, INT_MIN, 255, 256});
            break;
        case JOBS:
            v.i = good ? (r.chance(.3) ? -1 : r.chance(.8) ? r.range(1, 16) : INT_MAX) : r.pick<int64_t>({0, -2, -3, INT_MIN, -100});
            break;
        case TILE:
            if (good) v.i = r.pick({16, 32, 64, 128});
            else
                do v.i = r.chance(.5) ? r.pick<int64_t>({0, 8, 15, 17, 24, 48, 96, 127, 129, 256, 512, -16, 1, INT_MAX}) : r.range(-300, 300);
                while (v.i == 16 || v.i == 32 || v.i == 64 || v.i == 128);
            break;
        case SPEC:
            if (good) v.f = r.chance(.4) ? r.pick({1.f, 1.0000001f, 2.f, 3.9f, FLT_MAX, 1e30f}) : float(1 + r.unit() * 100);
            else v.f = r.pick({0.f, -0.f, .5f, .99999994f, .999f, -1.f, -3.9f, -FLT_MAX, INFINITY, -INFINITY, NAN, FLT_MIN});
            break;
        case C1:
            if (good) v.f = r.chance(.4) ? r.pick({0.f, 1.f, .5f, FLT_MAX, -FLT_MAX, -1.f, FLT_MIN}) : float(r.unit() * 2 - .5);
            else v.f = r.pick({INFINITY, -INFINITY, NAN});
            break;
        case WEIGHTED:
        case VERBOSE:
        case BM:
            v.b = r.chance(.5);
            v.ok = true;
            break;
        case CTYPE:
            v.str = good ? r.pick<char const *>({"auto", "int8", "int16", "int32"})
                         : r.pick<char const *>({"", "int64", "uint8", "INT8", "Auto", " int8", "int8 ", "int", "int3", "int320", "8", "autoint8"});
            break;
        case LOSS:
            v.str = good ? r.pick<char const *>({"MSE", "MAE", "L1", "L2", "L1+2", "berHu"})
                         : r.pick<char const *>({"", "mse", "L3", "L1 ", "L1+", "+2", "berhu", "BerHu", "L1+2+3", "MS", "MSEE", "Huber"});
            break;
        case SEED:
            v.i = r.chance(.4) ? r.pick<int64_t>({0, 1, 2147483647, 2147483648, 4294967295}) : int64_t(r.next() & 0xffffffffu);
            v.ok = true;
            break;
    }
    return v;
}

static bool is_int_setting(int s)
{
    return s == CLAUSES || s == STATES || s == THR || s == MAXW || s == BOOST || s == JOBS || s == TILE || s == SEED;
}
static bool is_float_setting(int s) { return s == SPEC || s == C1; }
static bool is_bool_setting(int s) { return s == WEIGHTED || s == VERBOSE || s == BM; }
static bool is_str_setting(int s) { return s == CTYPE || s == LOSS; }

// the value as read back
static string expected(int s, Val const & v)
{
    if (s == SEED) return fmt("uint:%u", unsigned(v.i));
    if (is_int_setting(s)) return fmt("int:%d", int(v.i));
    if (is_float_setting(s)) return fmt("real:%.9g", double(v.f));
    if (is_bool_setting(s)) return fmt("bool:%d", int(v.b));
    return "str:" + v.str;
}

static std::map<string, string> defaults(Kind k)
{
    std::map<string, string> m = {
        {"number_of_states", "int:100"}, {"s", "real:2"}, {"threshold", "int:15"}, {"weighted", is_clf(k) ? "bool:0" : "bool:1"},
        {"max_weight", "int:2147483647"}, {"boost_true_positive_feedback", "int:0"}, {"verbose", "bool:0"},
        {"counting_type", "str:auto"}, {"clause_output_tile_size", "int:16"}, {"number_of_features", "none"}};
    if (is_clf(k))
    {
        m["number_of_clauses_per_label"] = "int:12";
        m["number_of_labels"] = "none";
    }
    else
    {
        m["number_of_regressor_clauses"] = "int:20";
        m["loss_fn"] = "str:MSE";
        m["loss_fn_C1"] = "real:0";
        m["box_muller"] = "bool:0";
    }
    return m;
}

// compares read-back parameters with those wanted; n_jobs and random_state may be free
static string params_problem(std::map<string, string> got, std::map<string, string> want, bool free_jobs, bool free_seed)
{
    if (free_jobs)
    {
        auto it = got.find("n_jobs");
        if (it == got.end() || it->second.compare(0, 4, "int:") || atoi(it->second.c_str() + 4) < 1)
            return "automatic n_jobs reads back as " + (it == got.end() ? string("missing") : it->second);
        got.erase(it);
        want.erase("n_jobs");
    }
    if (free_seed)
    {
        auto it = got.find("random_state");
        if (it == got.end() || it->second.compare(0, 5, "uint:"))
            return "unset random_state reads back as " + (it == got.end() ? string("missing") : it->second);
        got.erase(it);
        want.erase("random_state");
    }
    for (auto & kv : want)
    {
        auto it = got.find(kv.first);
        if (it == got.end()) return kv.first + " is missing";
        if (it->second != kv.second) return kv.first + " reads back as " + it->second + ", want " + kv.second;
    }
    for (auto & kv : got)
        if (!want.count(kv.first)) return "unexpected parameter " + kv.first + "=" + kv.second;
    return "";
}

// ---------------------------------------------------------------- JSON text
static string int_text(Rng & r, int64_t v)
{
    switch (r.below(8))
    {
        case 0: return fmt("%lld.0", (long long)v);
        case 1: return fmt("%lld.000", (long long)v);
        case 2: return fmt("%llde0", (long long)v);
        case 3: return v % 10 == 0 && v != 0 ? fmt("%llde1", (long long)(v / 10)) : fmt("%lld", (long long)v);
        default: return fmt("%lld", (long long)v);
    }
}
static string float_text(Rng & r, float v)
{
    if (v == std::floor(v) && std::fabs(v) < 1e6 && !(v == 0 && std::signbit(v)) && r.chance(.5)) return fmt("%d", int(v));
    return r.chance(.5) ? fmt("%.9g", v) : fmt("%.20e", double(v));
}
static string val_text(Rng & r, int s, Val const & v)
{
    if (is_int_setting(s)) return int_text(r, v.i);
    if (is_float_setting(s))
    {
        if (std::isfinite(v.f)) return float_text(r, v.f);
        // not expressible; numbers beyond the range of a float
        return std::isnan(v.f) ? r.pick<char const *>({"1e39", "-1e39"}) : v.f > 0 ? r.pick<char const *>({"1e39", "4e38", "1e308", "3.5e38"}) : r.pick<char const *>({"-1e39", "-1e308"});
    }
    if (is_bool_setting(s)) return v.b ? "true" : "false";
    return "\"" + v.str + "\"";
}

static string wrong_text(Rng & r, int s)
{
    static char const * anyway[] = {"[]", "{}", "[1]", "{\"a\":1}", "[[[[[[]]]]]]"};
    if (r.chance(.25)) return anyway[r.below(5)];
    if (is_int_setting(s))
    {
        if (r.chance(.2)) return s == SEED ? "\"7\"" : r.pick<char const *>({"null", "\"16\"", "\"\"", "\"1\""});
        if (s == SEED)
            return r.pick<char const *>({"-1", "4294967296", "4294967296.0", "1.5", "0.1", "-0.5", "-4294967295", "18446744073709551615",
                "18446744073709551616", "1e10", "1e400", "9223372036854775808", "-9223372036854775808", "4294967295.5", "[7]"});
        return r.pick<char const *>({"2147483648", "4294967296", "4294967312", "4294967297", "-2147483649", "-4294967280", "16.5", "1.0000001", "0.5", "1e10",
            "1e300", "-1e300", "9223372036854775807", "18446744073709551615", "18446744073709551632", "-9223372036854775808", "-9223372036854775809",
            "2147483648.0", "2147483647.5", "64.25", "12.000001", "1e-5", "[16]"});
    }
    if (is_float_setting(s)) return r.pick<char const *>({"null", "\"2\"", "true", "\"2.0\"", "false", "\"\""});
    if (is_bool_setting(s)) return r.pick<char const *>({"0", "1", "null", "\"true\"", "\"false\"", "1.0", "-1", "2"});
    return r.pick<char const *>({"8", "null", "true", "1.5", "[\"auto\"]", "{\"auto\":1}"});
}

static string ws(Rng & r) { return r.chance(.7) ? "" : r.pick<char const *>({" ", "\n", "\t ", "\r\n", "   "}); }

struct Item { string key, text; };
static string doc_text(Rng & r, vector<Item> const & items)
{
    string s = ws(r) + "{" + ws(r);
    for (size_t i = 0; i < items.size(); ++i)
    {
        if (i) s += "," + ws(r);
        s += "\"";
        if (r.chance(.05) && !items[i].key.empty())
        {
            s += fmt("\\u%04x", (unsigned char)items[i].key[0]);
            s += items[i].key.substr(1);
        }
        else s += items[i].key;
        s += "\"" + ws(r) + ":" + ws(r) + items[i].text + ws(r);
    }
    return s + "}";
}

// ---------------------------------------------------------------- argument lists
struct Args // one object per setting; what is left after the call is inspected
{
    int clauses; int states; float s; int T; bool weighted; int maxw; bool boost; int jobs; bool verbose; string ctype; int tile;
    string loss; float C1v; bool bm; unsigned seed;
};

template<Kind K, int S> auto strong_val(Val const & v)
{
    if constexpr (S == CLAUSES && is_clf(K)) return number_of_physical_classifier_clauses_per_label_t{int(v.i)};
    else if constexpr (S == CLAUSES) return number_of_physical_regressor_clauses_t{int(v.i)};
    else if constexpr (S == STATES) return number_of_states_t{int(v.i)};
    else if constexpr (S == SPEC) return specificity_t{v.f};
    else if constexpr (S == THR) return threshold_t{int(v.i)};
    else if constexpr (S == WEIGHTED) return weighted_flag_t{v.b};
    else if constexpr (S == MAXW) return max_weight_t{int(v.i)};
    else if constexpr (S == BOOST) return boost_tpf_t{v.i != 0};
    else if constexpr (S == JOBS) return number_of_jobs_t{int(v.i)};
    else if constexpr (S == VERBOSE) return verbosity_t{v.b};
    else if constexpr (S == CTYPE) return counting_type_t{v.str};
    else if constexpr (S == TILE) return clause_output_tile_size_t{int(v.i)};
    else if constexpr (S == SEED) return random_seed_t{unsigned(v.i)};
    else if constexpr (S == LOSS) return loss_fn_name_t{v.str};
    else if constexpr (S == C1) return loss_fn_C1_t{v.f};
    else return box_muller_flag_t{v.b};
}

// compile time choice of order and way of passing
struct Pattern { int n = 0; int idx[NSET] = {}; int how[NSET] = {}; };
static constexpr Pattern pattern(Kind k, int variant)
{
    Pattern p;
    uint64_t s = uint64_t(variant) * 2654435761u + uint64_t(k) * 40503u + 12345;
    auto rnd = [&s](int n) constexpr
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return int((s >> 33) % uint64_t(n));
    };
    for (int i = 0; i < 8; ++i) rnd(2);
    int const N = n_settings(k);
    int keep = variant == 0 ? N : variant == 1 ? 0 : variant % 3 == 0 ? N : 1 + rnd(N);
    int all[NSET] = {};
    for (int i = 0; i < N; ++i) all[i] = i;
    for (int i = N - 1; i > 0; --i)
    {
        int const j = rnd(i + 1), t = all[i];
        all[i] = all[j];
        all[j] = t;
    }
    p.n = keep;
    for (int i = 0; i < keep; ++i)
    {
        p.idx[i] = all[i];
        p.how[i] = rnd(3);
    }
    return p;
}

template<int how, class T> decltype(auto) pass(T & x)
{
    if constexpr (how == 0) return static_cast<T &>(x);
    else if constexpr (how == 1) return static_cast<T const &>(x);
    else return static_cast<T &&>(x);
}

// creates from a pattern; `changed` names an lvalue argument that came back different
template<Kind K, int V, size_t ...I>
EstP create(Val const * vals, Status & st, string & changed, std::index_sequence<I...>)
{
    static constexpr Pattern P = pattern(K, V);
    auto objs = std::make_tuple(strong_val<K, P.idx[I]>(vals[P.idx[I]])...);
    auto const before = objs;
    EstP out;
    auto res = make_args<K>(pass<P.how[I]>(std::get<I>(objs))...);
    if (res.isLeft)
    {
        st.code = int(res.leftValue.first);
        st.msg = res.leftValue.second;
        if (st.code == 0) st.code = -1;
    }
    else out = std::make_unique<EstT<K>>(std::move(res.rightValue));
    auto same = [](auto const & a, auto const & b) // bytewise for floats: NaN must stay
    {
        auto const x = value_of(a), y = value_of(b);
        if constexpr (std::is_floating_point_v<std::decay_t<decltype(x)>>) return std::memcmp(&x, &y, sizeof x) == 0;
        else return x == y;
    };
    ((P.how[I] != 2 && !same(std::get<I>(objs), std::get<I>(before)) ? void(changed = key_of(K, P.idx[I])) : void()), ...);
    return out;
}

using Creator = EstP (*)(Val const *, Status &, string &);
template<Kind K, int V> EstP create_one(Val const * vals, Status & st, string & changed)
{
    return create<K, V>(vals, st, changed, std::make_index_sequence<pattern(K, V).n>());
}
static constexpr int NV = 12;
template<Kind K, int ...V> Creator creator(int v, std::integer_sequence<int, V...>)
{
    static Creator const t[] = {create_one<K, V>...};
    return t[v];
}
static Creator creator_of(Kind k, int v)
{
    using S = std::make_integer_sequence<int, NV>;
    switch (k)
    {
        case CC: return creator<CC>(v, S());
        case CB: return creator<CB>(v, S());
        case RC: return creator<RC>(v, S());
        default: return creator<RB>(v, S());
    }
}

// ---------------------------------------------------------------- cases
static EstP from_json(Kind k, string const & doc, Status & st)
{
    auto go = [&](auto tag) -> EstP
    {
        constexpr Kind K = decltype(tag)::value;
        auto res = make_json<K>(doc);
        if (res.isLeft)
        {
            st.code = int(res.leftValue.first);
            st.msg = res.leftValue.second;
            if (st.code == 0) st.code = -1;
            return nullptr;
        }
        return std::make_unique<EstT<K>>(std::move(res.rightValue));
    };
    switch (k)
    {
        case CC: return go(std::integral_constant<Kind, CC>());
        case CB: return go(std::integral_constant<Kind, CB>());
        case RC: return go(std::integral_constant<Kind, RC>());
        default: return go(std::integral_constant<Kind, RB>());
    }
}

// verdict on one creation
static bool judge(Ctx & ctx, EstP const & e, Status const & st, bool want_ok, string const & why, string const & what)
{
    ctx.count("evaluations");
    if (want_ok)
    {
        ctx.count("accepted");
        return ctx.check(bool(e), "in-domain-refused", fmt("status %s (%s) for ", code_name(st.code), st.msg.c_str()) + what);
    }
    ctx.count("refused");
    ctx.count("refused_" + why);
    ctx.seen(mix(std::hash<string>()(why), std::hash<string>()(what)));
    if (!ctx.check(!e, ("accepted-" + why).c_str(), "accepted " + what)) return false;
    if (!ctx.check(st.code == 1, "refused-with-wrong-status", fmt("status %s for ", code_name(st.code)) + what)) return false;
    return ctx.check(!st.msg.empty(), "refused-without-message", what);
}

// trains and compares read-back parameters before and after
static void training_adds(Ctx & ctx, Rng & r, Est & a, Est * b, string const & what)
{
    Kind const k = a.kind;
    auto before = a.params();
    int const F = r.pick({1, 2, 3, 17, 64, 65}), L = r.range(2, 5), n = r.range(1, 5), T = atoi(before["threshold"].c_str() + 4);
    if (int64_t(atoi((is_clf(k) ? before["number_of_clauses_per_label"] : before["number_of_regressor_clauses"]).c_str() + 4)) * F * L > 40000) return;
    Rows X = gen_rows(r, n, F);
    Labels y(n);
    int mx = 0;
    for (auto & v : y)
    {
        v = is_clf(k) ? r.below(L) : r.range(0, std::min(T, 1000000));
        mx = std::max(mx, v);
    }
    int const asked = r.range(0, 1) ? L : std::max(2, L - 1);
    auto train = [&](Est & e, unsigned ep) { return r.chance(.5) ? e.fit(X, y, asked, ep) : e.partial_fit(X, y, asked, ep); };
    bool const pf = r.chance(.5);
    unsigned const ep = r.range(0, 2);
    (void)train;
    auto go = [&](Est & e) { return pf ? e.partial_fit(X, y, asked, ep) : e.fit(X, y, asked, ep); };
    must_ok(ctx, go(a), "training of " + what);
    auto want = before;
    want["number_of_features"] = fmt("int:%d", F);
    if (is_clf(k)) want["number_of_labels"] = fmt("int:%d", std::max(asked, mx + 1));
    string const d = params_problem(a.params(), want, false, false);
    if (!ctx.check(d.empty(), "training-changes-parameters", d + " after training " + what)) return;
    ctx.count("trained_parameters_compared");
    if (b)
    {
        must_ok(ctx, go(*b), "training of " + what);
        string const q = snap_diff(a.snap(), b->snap());
        ctx.check(q.empty(), "json-and-args-train-differently", q + " for " + what);
        ctx.count("twins_trained");
    }
}

// now and then, while an estimator is created, there is but one processor, or the number is unknown
struct Machine
{
    cpu_set_t all;
    bool one = false;
    Machine(Ctx & ctx, Rng & r)
    {
        if (!r.chance(.1)) return;
        processors = r.pick({0, 1, 1, 1, 2, 3, 7, 1024});
        ctx.count("other_numbers_of_processors");
        if (processors != 1 || sched_getaffinity(0, sizeof all, &all)) return;
        int c = 0;
        while (c < CPU_SETSIZE && !CPU_ISSET(c, &all)) ++c;
        cpu_set_t first;
        CPU_ZERO(&first);
        CPU_SET(c, &first);
        one = !sched_setaffinity(0, sizeof first, &first);
        if (one) ctx.count("single_processor");
    }
    ~Machine()
    {
        processors = -1;
        if (one) sched_setaffinity(0, sizeof all, &all);
    }
};

static void json_case(Ctx & ctx, Rng & r, Kind k)
{
    int const N = n_settings(k);
    vector<int> sel;
    double const p = r.pick({0., .2, .5, .9, 1.});
    for (int s = 0; s < N; ++s)
        if (r.chance(p)) sel.push_back(s);
    for (int i = int(sel.size()) - 1; i > 0; --i) std::swap(sel[i], sel[r.below(i + 1)]);
    std::map<string, string> want = defaults(k);
    bool free_jobs = true, free_seed = true, ok = true;
    vector<Item> items;
    Val vals[NSET];
    bool given[NSET] = {};
    for (int s : sel)
    {
        Val const v = gen_value(r, k, s, true);
        vals[s] = v;
        given[s] = true;
        items.push_back({key_of(k, s), val_text(r, s, v)});
        want[key_of(k, s)] = expected(s, v);
        if (s == JOBS) free_jobs = v.i == -1;
        if (s == SEED) free_seed = false;
    }
    if (free_seed && !given[SEED] && r.chance(.1)) items.push_back({"random_state", "null"});
    string why;
    int const bad = r.chance(.4) ? 0 : r.chance(.8) ? 1 : r.range(2, 3);
    for (int i = 0; i < bad; ++i)
    {
        auto put = [&](string const & key, string const & text)
        {
            for (auto & it : items)
                if (it.key == key) { it.text = text; return; }
            items.insert(items.begin() + r.below(int(items.size()) + 1), {key, text});
        };
        int const m = r.below(10);
        int s = r.below(N);
        if (m < 4)
        {
            while (is_bool_setting(s) || s == SEED) s = r.below(N);
            put(key_of(k, s), val_text(r, s, gen_value(r, k, s, false)));
            why = "out-of-domain-" + key_of(k, s);
        }
        else if (m < 8)
        {
            put(key_of(k, s), wrong_text(r, s));
            why = "wrong-type-" + key_of(k, s);
        }
        else
        {
            string key = r.chance(.3) ? r.pick<string>({"", "foo", "number_of_labels", "number_of_features", "random_seed", "clauses", "S", "T", "seed", "loss", "verbosity"}) : key_of(k, r.below(N));
            if (r.chance(.8))
            {
                int const q = r.below(4);
                if (q == 0) key += r.pick<char const *>({" ", "_", "s", "1"});
                else if (q == 1 && key.size() > 1) key.pop_back();
                else if (q == 2 && !key.empty()) key[0] = char(toupper(key[0]));
                else key = " " + key;
            }
            else if (key.empty()) key = "";
            bool known = false;
            for (Kind kk : {CC, RC})
                for (int z = 0; z < n_settings(kk); ++z) known = known || key_of(kk, z) == key;
            if (known) continue;
            put(key, r.pick<char const *>({"1", "null", "true", "\"x\"", "16"}));
            why = "unknown-key";
        }
        ok = false;
    }
    string doc = doc_text(r, items);
    if (r.chance(.15)) // malformed or not an object
    {
        ok = false;
        switch (r.below(8))
        {
            case 0: doc = doc.substr(0, r.below(int(doc.size()))); why = "truncated"; break;
            case 1: doc += r.pick<char const *>({"}", ",", "x", "{}", "null", "]", "\"", "1"}); why = "trailing-garbage"; break;
            case 2: doc = r.pick<char const *>({"", " ", "[]", "null", "true", "1", "\"s\"", "1.5", "[{}]", "[1,2]", "\"{}\""}); why = "not-an-object"; break;
            case 3: doc = "[" + doc + "]"; why = "not-an-object"; break;
            case 4: doc = r.pick<char const *>({"{s:2}", "{'s':2}", "{\"s\":}", "{\"s\" 2}", "{\"s\":2,}", "{,}", "{\"s\":NaN}", "{\"s\":Infinity}", "{\"s\":+2}",
                "{\"s\":.5}", "{\"s\":02}", "{\"s\":2.}", "{\"s\":0x2}", "{\"weighted\":True}", "{\"loss_fn\":MSE}", "{\"s\":2;}", "{\"s\"=2}", "{\"s\":2 \"threshold\":3}"}); why = "malformed"; break;
            case 5: doc.insert(doc.find('{') + 1, r.pick<char const *>({"\xff", "\xc3\x28", "\x01", "/**/,", "\\"})); why = "malformed"; break;
            case 6: doc.insert(doc.find('{') + 1, string(1, '\0')); why = "malformed"; break;
            default: doc = string(size_t(r.range(1, 2000)), r.pick({'[', '{', '"', '1'})) + doc; why = "malformed"; break;
        }
    }
    string const what = string(kind_name(k)) + " " + doc.substr(0, 1500);
    ctx.op("json " + what);
    Status st;
    string const copy = doc;
    EstP e;
    {
        Machine const m(ctx, r);
        e = from_json(k, doc, st);
    }
    ctx.check(doc == copy, "document-modified", what);
    ctx.count("json_documents");
    if (!judge(ctx, e, st, ok, why, what) || !e) return;
    string const d = params_problem(e->params(), want, free_jobs, free_seed);
    if (!ctx.check(d.empty(), "json-read-back", d + " for " + what)) return;
    ctx.count("read_back");
    ctx.seen(std::hash<string>()(what));
    auto const pa = e->params();
    auto const ps = e->snap().params;
    ctx.check(pa == ps, "state-params-differ", what);
    if (free_jobs) return; // as many jobs as the machine has
    if (vals[JOBS].i > 16) return;
    training_adds(ctx, r, *e, nullptr, what);
    ctx.sample(what);
}

static void args_case(Ctx & ctx, Rng & r, Kind k)
{
    int const V = r.below(NV);
    Pattern const P = pattern(k, V);
    Val vals[NSET];
    std::map<string, string> want = defaults(k);
    bool free_jobs = true, free_seed = true, ok = true;
    string why, what = string(kind_name(k)) + " args";
    vector<Item> items;
    int const bad = r.chance(.5) ? 0 : r.range(1, 2);
    std::set<int> spoil;
    for (int i = 0; i < bad && P.n; ++i) spoil.insert(P.idx[r.below(P.n)]);
    for (int i = 0; i < P.n; ++i)
    {
        int const s = P.idx[i];
        Val v = gen_value(r, k, s, !spoil.count(s));
        if (s == BOOST) { v.i = r.below(2); v.ok = true; }
        vals[s] = v;
        if (!v.ok) { ok = false; why = "out-of-domain-" + key_of(k, s); }
        what += " " + key_of(k, s) + "=" + expected(s, v) + (P.how[i] == 0 ? "&" : P.how[i] == 1 ? " const&" : "&&");
        want[key_of(k, s)] = expected(s, v);
        if (s == JOBS) free_jobs = v.i == -1;
        if (s == SEED) free_seed = false;
        if (v.ok) items.push_back({key_of(k, s), val_text(r, s, v)});
    }
    ctx.op(what);
    Status st;
    string changed;
    std::optional<Machine> machine;
    machine.emplace(ctx, r);
    EstP e = creator_of(k, V)(vals, st, changed);
    ctx.count("argument_lists");
    ctx.check(changed.empty(), "argument-modified", changed + " of " + what);
    if (!judge(ctx, e, st, ok, why, what) || !e) return;
    string const d = params_problem(e->params(), want, free_jobs, free_seed);
    if (!ctx.check(d.empty(), "args-read-back", d + " for " + what)) return;
    ctx.count("read_back");
    ctx.seen(std::hash<string>()(what));
    // the same as a document
    for (int i = int(items.size()) - 1; i > 0; --i) std::swap(items[i], items[r.below(i + 1)]);
    Status sj;
    EstP j = from_json(k, doc_text(r, items), sj);
    machine.reset();
    if (!ctx.check(bool(j), "json-refused-where-args-accepted", what)) return;
    auto pj = j->params(), pe = e->params();
    if (free_seed) { pj.erase("random_state"); pe.erase("random_state"); }
    if (!ctx.check(pj == pe, "json-and-args-differ", params_problem(pj, pe, false, false) + " for " + what)) return;
    if (free_seed) j = nullptr;
    else
    {
        string const q = snap_diff(e->snap(), j->snap());
        if (!ctx.check(q.empty(), "json-and-args-differ", q + " for " + what)) return;
        if (!ctx.check(e->state_equal(*j), "json-and-args-unequal", what)) return;
    }
    ctx.count("twins_compared");
    if (!free_jobs && vals[JOBS].i <= 16) training_adds(ctx, r, *e, j.get(), what);
    ctx.sample(what);
}

void run_case(Ctx & ctx, Rng & r, int64_t)
{
    for (int i = 0; i < 8; ++i)
    {
        Kind const k = gen_kind(r);
        if (r.chance(.6)) json_case(ctx, r, k);
        else args_case(ctx, r, k);
    }
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
