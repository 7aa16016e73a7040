// C06: the same history under configurations that must not matter.
#include "calls.hpp"

#include <iostream>
#include <sys/syscall.h>

namespace H
{

// everything the process writes to its standard streams goes to a memory file
struct Capture
{
    int fd = -1, out = -1, err = -1;
    Capture()
    {
        fd = int(syscall(SYS_memfd_create, "capture", 0));
        fflush(stdout);
        fflush(stderr);
        out = dup(1);
        err = dup(2);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    int64_t size()
    {
        std::cout.flush();
        std::cerr.flush();
        std::clog.flush();
        fflush(stdout);
        fflush(stderr);
        return lseek(fd, 0, SEEK_END);
    }
    string text(int64_t from)
    {
        char b[300];
        ssize_t const n = pread(fd, b, sizeof b, from);
        return string(b, n > 0 ? n : 0);
    }
    ~Capture()
    {
        size();
        dup2(out, 1);
        dup2(err, 2);
        close(out);
        close(err);
        close(fd);
    }
};

static int width_of(string const & ctype) { return ctype == "int8" ? 1 : ctype == "int16" ? 2 : ctype == "int32" ? 4 : 0; }

struct Variant
{
    Cfg c;
    EstP e;
    string what;
};

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    Cfg base = gen_cfg(r, k);
    // many outputs in some cases, wide rows in others
    bool const lengthy = id / 4 % 16 == 9; // a training of many passes
    bool const wide = !lengthy && r.chance(.25), many = !lengthy && !wide && r.chance(.3);
    if (many) base.clauses = is_clf(k) ? 4 * r.range(10, 60) : 2 * r.range(40, 200);
    if (wide) base.clauses = is_clf(k) ? 4 : 2 * r.range(1, 4);
    if (lengthy) base.clauses = is_clf(k) ? 4 : 2 * r.range(1, 2);
    bool const giant = !lengthy && !wide && !many && giant_clauses(r, base, .004);
    if (r.chance(.3)) base.nstates = r.pick({127, 128, 129, 32767, 32768, 32769});
    base.jobs = 1;
    base.tile = 16;
    base.verbose = false;
    base.ctype = "int32";
    bool const unweighted_pair = r.chance(.3);
    if (unweighted_pair) { base.weighted = false; base.maxw = r.pick({1, 5, 2147483647}); }

    vector<Variant> vs;
    auto add = [&](Cfg c, string what)
    {
        if (lengthy) c.jobs = std::min(c.jobs, 2);
        vs.push_back({c, nullptr, what});
    };
    add(base, "base");
    {
        Cfg c = base;
        c.jobs = r.chance(.05) ? r.pick({33, 64, 1 << 30, 2147483647}) : r.pick({2, 3, 4, 5, 7, 8, 16});
        add(c, fmt("n_jobs=%d", c.jobs));
        if (r.chance(.5)) { c = base; c.jobs = r.pick({2, 3, 5, 8}); add(c, fmt("n_jobs=%d", c.jobs)); }
    }
    for (int t : {32, 64, 128})
    {
        Cfg c = base;
        c.tile = t;
        if (r.chance(.3)) c.jobs = r.pick({2, 3});
        add(c, fmt("tile=%d n_jobs=%d", t, c.jobs));
    }
    for (auto t : {"int8", "int16", "auto"})
    {
        Cfg c = base;
        c.ctype = t;
        if (r.chance(.2)) c.tile = r.pick({32, 64, 128});
        if (r.chance(.2)) c.jobs = r.pick({2, 3});
        add(c, fmt("counting_type=%s tile=%d n_jobs=%d", t, c.tile, c.jobs));
    }
    {
        Cfg c = base;
        c.verbose = true;
        if (r.chance(.3)) c.ctype = r.pick({"int8", "auto"});
        add(c, "verbose counting_type=" + c.ctype);
    }
    if (unweighted_pair)
    {
        Cfg c = base;
        c.weighted = true;
        c.maxw = 1;
        if (r.chance(.3)) c.jobs = 2;
        if (r.chance(.3)) c.ctype = "auto";
        add(c, "weighted, max_weight=1");
    }
    string hist = base.str();
    // only the base and, in turn, the verbose one print; see below
    marathons = false; // some have many jobs
    Capture cap;
    for (auto & v : vs) v.e = must_make(ctx, v.c, r.chance(.3));

    Shape s;
    int const steps = r.range(2, 5);
    bool injected = false;
    int64_t firing = 0;
    for (int i = 0; i < steps; ++i)
    {
        bool big = true;
        Call call;
        for (int t = 0;; ++t)
        {
            call = gen_call(r, base, s, .05, i == 0 ? 1. : .55, big && !many && !giant);
            if (wide && !s.fitted && !call.X.empty())
            {
                int const F = r.pick({961, 1023, 1024, 1025, 1087, 1089, 2047, 2048, 2049, 4095, 4096, 4097, 4160, 8128, 8129, 8192, 8193, 8256});
                bool same = call.want == 0;
                for (auto & x : call.X) same = same && x.pad.empty() && x.v.size() == call.X[0].v.size();
                if (same)
                {
                    for (size_t q = 0; q < call.X.size(); ++q) call.X[q] = gen_row(r, F);
                    if (call.X.size() > 2) { call.X.resize(2); call.y.resize(2); call.L = std::max(call.L, 2); }
                    call.want = classify(call, base, s);
                }
            }
            if (lengthy && i < 2 && t < 200 && (call.k > PFIT || call.want != 0 || call.X.size() > 3 || call.X[0].v.size() > 6 || call.L > 3)) continue;
            if (lengthy && i < 2 && call.k <= PFIT && call.want == 0 && call.X.size() <= 3 && call.X[0].v.size() <= 6)
            {
                call.ep = unsigned(r.pick({r.range(200, 1000), 1001, 2048, 2500}));
                ctx.count("lengthy_trainings");
            }
            if (many && !call.X.empty() && call.X[0].v.size() > 200) continue;
            break;
        }
        hist += " | " + call.str();
        ctx.op(hist);
        Status st0;
        uint64_t h0 = 0;
        for (size_t q = 0; q < vs.size(); ++q)
        {
            auto & v = vs[q];
            int64_t const before = cap.size();
            uint64_t h = 1;
            Status const st = perform(*v.e, call, &h);
            int64_t const after = cap.size();
            if (!v.c.verbose)
            {
                if (!ctx.check(after == before, "prints-when-silent", "printed '" + cap.text(before) + "' in " + hist + " with " + v.what)) return;
                ctx.count("silent_calls");
            }
            else if (after != before) ctx.count("verbose_calls_printing");
            if (q == 0) { st0 = st; h0 = h; continue; }
            string const w = "base and " + v.what + ": " + hist;
            if (!ctx.check(st.code == st0.code, "status-differs", fmt("%s vs %s, ", code_name(st0.code), code_name(st.code)) + w)) return;
            if (!ctx.check(h == h0, "answers-differ", w)) return;
            ctx.count("calls_compared");
        }
        if (st0.code == 0) learn_shape(s, call);
        if (s.fitted && !call.X.empty() && r.chance(.4))
        {
            // states a training history would hardly reach
            Snap const sn = vs[0].e->snap();
            Row x = gen_row(r, sn.cols);
            if (call.want == 0 && int(call.X[0].v.size()) == sn.cols && r.chance(.7)) x = call.X[r.below(int(call.X.size()))];
            if (int(x.v.size()) == sn.cols)
            {
                auto const ta = gen_ta(r, sn.rows, sn.cols, base.nstates, &x);
                vector<uint32_t> w(sn.w.size());
                for (auto & q : w) q = uint32_t(r.below(std::min(base.maxw, 20)));
                for (auto & v : vs)
                {
                    vector<uint32_t> ww = w;
                    if (v.c.maxw == 1 && v.c.weighted) ww.assign(sn.rows / 2, 0);
                    v.e = v.e->with(ta, ww);
                }
                injected = true;
                hist += " | inject";
                // queried on the very row
                Rows const q{x, gen_row(r, sn.cols)};
                uint64_t const d0 = answers_digest(ctx, *vs[0].e, q);
                Snap const now = vs[0].e->snap();
                for (int o = 0; o < now.rows / 2; ++o) firing += Ref::fires(now, o, x, true);
                for (size_t z = 1; z < vs.size(); ++z)
                    if (!ctx.check(answers_digest(ctx, *vs[z].e, q) == d0, "answers-differ", "base and " + vs[z].what + " on injected states: " + hist)) return;
                ctx.count("injected_models_queried");
            }
        }
        if (!s.fitted) continue;
        Snap const a = vs[0].e->snap();
        for (size_t q = 1; q < vs.size(); ++q)
        {
            Snap b = vs[q].e->snap();
            string const w = "base and " + vs[q].what + ": " + hist;
            // wide enough, whatever was asked for
            if (!ctx.check(int64_t(base.nstates) <= int64_t(1) << (8 * b.width - 1), "states-too-narrow", fmt("%d byte states for %d states ", b.width, base.nstates) + w)) return;
            if (width_of(vs[q].c.ctype) && int64_t(base.nstates) > int64_t(1) << (8 * width_of(vs[q].c.ctype) - 1)) ctx.count("widened");
            if (vs[q].c.weighted && !base.weighted)
            {
                bool one = true;
                for (auto x : b.w) one = one && x == 0;
                if (!ctx.check(one && int(b.w.size()) == b.rows / 2, "weight-above-one", w)) return;
                b.w.clear();
                ctx.count("unit_weight_models_compared");
            }
            string const d = snap_diff(a, b, false, false);
            if (!ctx.check(d.empty(), "models-differ", d + " between " + w)) return;
            ctx.count("models_compared");
        }
        ctx.seen(a.digest());
    }
    if (injected) ctx.count("clauses_firing_on_injected", uint64_t(firing));
    ctx.count("evaluations", vs.size());
    ctx.sample(hist.substr(0, 600));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
