// C14: trees of clones and moved estimators; every live one is compared with a replay of its own history.
#include "calls.hpp"

namespace H
{

struct Node
{
    Cfg c;
    Shape s;
    EstP e;
    vector<Call> past;
    Snap last;
};

void run_case(Ctx & ctx, Rng & r, int64_t id)
{
    Kind const k = Kind(id % 4);
    vector<Node> live;
    string hist;
    auto create = [&]
    {
        Node n;
        n.c = gen_cfg(r, k);
        if (r.chance(.06)) n.c.jobs = r.pick({33, 200, 1 << 20, INT_MAX}); // the parameter is part of the copy, however many there are
        hist += " create:" + n.c.str();
        n.e = must_make(ctx, n.c);
        n.last = n.e->snap();
        live.push_back(std::move(n));
    };
    create();
    int const steps = r.range(6, 16);
    for (int i = 0; i < steps; ++i)
    {
        size_t const at = r.below(int(live.size()));
        int const m = r.below(10);
        if (m <= 3)
        {
            Node & n = live[at];
            Call const t = gen_call(r, n.c, n.s, .1, .8, false);
            hist += fmt(" [%zu]", at) + t.str();
            ctx.op(hist);
            perform(*n.e, t);
            learn_shape(n.s, t);
            if (t.k <= PFIT && t.want == 0) n.past.push_back(t);
            n.last = n.e->snap();
        }
        else if (m <= 5 && live.size() < 5)
        {
            hist += fmt(" clone[%zu]", at);
            ctx.op(hist);
            Node n{live[at].c, live[at].s, live[at].e->clone(), live[at].past, live[at].last};
            ctx.check(n.e->state_equal(*live[at].e), "clone-unequal", hist);
            live.push_back(std::move(n));
            ctx.count("clones");
        }
        else if (m == 6)
        {
            hist += fmt(" move-construct[%zu]", at);
            ctx.op(hist);
            auto n = live[at].e->steal();
            live[at].e = std::move(n);
            ctx.count("move_constructions");
        }
        else if (m == 7 && live.size() > 1)
        {
            size_t to = r.below(int(live.size()));
            if (to == at) to = (to + 1) % live.size();
            hist += fmt(" move-assign[%zu]=[%zu]", to, at);
            ctx.op(hist);
            live[to].e->assign_move(*live[at].e);
            live[to].c = live[at].c;
            live[to].s = live[at].s;
            live[to].past = live[at].past;
            live[to].last = live[at].last;
            live.erase(live.begin() + at);
            ctx.count("move_assignments");
        }
        else if (m == 8 && live.size() > 1)
        {
            hist += fmt(" destroy[%zu]", at);
            ctx.op(hist);
            live.erase(live.begin() + at);
            ctx.count("destructions");
        }
        else if (m == 9 && live[at].s.fitted)
        {
            // edit a cloned state and build an estimator from it: the original must not notice
            hist += fmt(" edit-clone-of[%zu]", at);
            ctx.op(hist);
            Snap const sn = live[at].e->snap();
            Row const like = gen_row(r, live[at].s.F);
            auto x = live[at].e->with(gen_ta(r, sn.rows, live[at].s.F, live[at].c.nstates, &like), vector<uint32_t>(sn.w.size(), 0));
            Call const t = gen_call(r, live[at].c, live[at].s, 0., 1., false);
            perform(*x, t);
            ctx.count("edited_clones");
        }
        else if (live.size() < 5) create();
        // nobody but the one operated on may have changed, which has its new snapshot in place
        for (size_t j = 0; j < live.size(); ++j)
        {
            string const d = snap_diff(live[j].last, live[j].e->snap());
            if (!ctx.check(d.empty(), "other-estimator-changed", fmt("[%zu] ", j) + d + " after" + hist)) return;
            ctx.count("isolation_checks");
        }
        ctx.count("evaluations");
    }
    for (size_t j = 0; j < live.size(); ++j)
    {
        auto f = must_make(ctx, live[j].c);
        for (auto const & t : live[j].past)
        {
            ctx.op("replay of " + hist);
            perform(*f, t);
        }
        Snap const a = f->snap(), b = live[j].e->snap();
        string const d = snap_diff(a, b);
        if (!ctx.check(d.empty(), "differs-from-replay", fmt("[%zu] ", j) + d + hist)) return;
        // and it goes on the same way
        Call const t = gen_call(r, live[j].c, live[j].s, 0., 1., false);
        perform(*f, t);
        perform(*live[j].e, t);
        string const d2 = snap_diff(f->snap(), live[j].e->snap());
        ctx.check(d2.empty(), "continues-differently", fmt("[%zu] ", j) + d2 + hist + " then " + t.str());
        if (live[j].s.fitted)
        {
            Shape s2 = live[j].s;
            learn_shape(s2, t);
            Rows const X = gen_rows(r, 4, s2.F);
            ctx.check(answers_digest(ctx, *f, X) == answers_digest(ctx, *live[j].e, X), "answers-differ-from-replay", hist);
            ctx.seen(mix(a.model_digest(), std::hash<string>()(hist)));
        }
        ctx.count("replays_compared");
    }
    ctx.sample(hist.substr(0, 1000));
}

} // namespace H

int main(int argc, char ** argv) { return H::harness_main(argc, argv); }
