"""What each check runs: harness, build flavour and number of cases per tier."""
import math
import os
import re


def st(harness, flavour, quick, thorough, name=None, **kw):
    return dict(name=name or "%s-%s" % (harness, flavour), harness=harness + ".cpp", flavour=flavour,
                quick=quick, thorough=thorough, **kw)


VG = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--show-leak-kinds=definite",
      "--errors-for-leak-kinds=definite", "--num-callers=24", "--fair-sched=try", "--suppressions=/dev/null"]

PROPS = {
    "C01": dict(
        stages=[st("c01", "asan", 1600, 100000),
                st("c01", "asan", 80, 4000, name="c01-asan-uar", first=1000000, env={
                    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:malloc_fill_byte=0:max_malloc_fill_size=65536"}),
                st("c01", "vg", 64, 1600, extra="short", wrap=VG, slow=4),
                st("c01", "plain", 1, 12, name="c01-giant", extra="giant", workers=1, giant=True)],
        rule="a case = a history of 6 to 22 operations (create, train, query, valid or spoilt, clone, move, save, load, "
             "truncated load, injected automata) on a pool of estimators, run under ASan+UBSan and repeated for the heap "
             "balance, and shorter ones under valgrind memcheck. Non-trivial = API calls, distinct by (kind, call, "
             "spoiling, features, tile, states, threshold, loss, type, flags)",
        floors={"evaluations": 1000, "heap_balance_checked": 500}),
    "C08": dict(
        stages=[st("c08", "plain", 16000, 120000)],
        rule="a case = a random configuration and data set, a trained model and two injected ones; every answer of the "
             "API is recomputed from a clone of the automata. Non-trivial = (model, input) pairs with at least one "
             "firing clause, distinct by digest of both",
        floors={"answers_with_firing_clauses": 1000}),
    "C02": dict(
        stages=[st("c02", "plain", 40000, 600000), st("c02", "asan", 4000, 60000),
                st("c02", "plain", 3, 16, name="c02-giant", extra="giant", workers=1, giant=True)],
        rule="a case = a history of 3 to 9 calls on one estimator, two thirds of them spoilt in one to three ways at "
             "random positions; the expected status comes from how the data was made. Non-trivial = spoilt calls, "
             "distinct by (kind of spoiling, call, estimator kind, trained or not, features, examples); or a single fault anywhere in up to 110000 rows or 140000 features",
        floors={"status_S_VALUE_ERROR": 1000, "status_S_NOT_FITTED_ERROR": 500, "status_S_OK": 1000, "single_faults_in_much_data": 2000}),
    "C03": dict(
        stages=[st("c02", "plain", 30000, 400000, extra="state")],
        rule="a case = a history as in C02, executed on one estimator, and without the calls to be refused on a twin; full "
             "state digests (automata, weights, generators, parameters) before and after each refused call and against "
             "the twin after each accepted one. Non-trivial = refused calls, distinct as in C02",
        floors={"refused_on_fitted": 1000, "refused_on_unfitted": 500, "twin_comparisons": 1000, "single_faults_in_much_data": 1500}),
    "C09": dict(
        stages=[st("c09", "plain", 12000, 400000)],
        rule="a case = rounds of one to seven queries (of every kind, some to be refused) between training calls; state "
             "digest after each query, answers repeated in another order and by a never queried twin, also after 130 to 2060 queries of one object; trained "
             "models compared with the query-free twin. Non-trivial = accepted queries, distinct by (model, query, data)",
        floors={"answers": 2000, "answers_repeated": 2000, "trained_models_compared": 1000, "long_histories": 100}),
    "C10": dict(
        stages=[st("c10", "plain", 12000, 400000)],
        rule="a case = 3 to 8 operations driven into saturation (few states, small maximum weights, many epochs, "
             "automata injected at their bounds), all automata, weights and include bits checked after each. "
             "Non-trivial = models with at least one automaton or weight at a bound, distinct by digest",
        floors={"models_checked": 2000, "states_at_top": 1000, "states_at_bottom": 1000, "weights_at_top": 500,
                "initial_models_checked": 500}),
    "C13": dict(
        stages=[st("c13", "plain", 1500, 80000)],
        rule="a case = training in up to 4 steps, saved and reloaded (over states of any origin) at each cut, untrained "
             "included, with generators wound to buffer boundaries; compared with the uninterrupted twin; plus three untrained "
             "estimators with parameters at the ends of their domains. Non-trivial = documents, distinct by content",
        floors={"documents": 500, "extreme_parameter_documents": 1500, "truncated_documents": 500, "resumed_trainings_compared": 500, "untrained_documents": 100}),
    "C14": dict(
        stages=[st("c14", "plain", 10000, 200000)],
        rule="a case = 6 to 16 operations (train, query, clone, move-construct, move-assign, destroy, edit a cloned "
             "state) on up to five estimators; all of them are compared with their last snapshot after each operation "
             "and with a replay of their own history at the end. Non-trivial = replayed trained estimators, distinct "
             "by model and history",
        floors={"isolation_checks": 5000, "replays_compared": 1000, "move_assignments": 200, "clones": 500}),
    "C15": dict(
        stages=[st("c15", "plain", 12000, 200000)],
        rule="a case = a random split of 0 to 9 (rarely up to 2100) epochs over fit and partial_fit calls against one fit, and a refit after "
             "a random past (other shapes, labels, injected automata and weights) against a fresh estimator. Non-trivial "
             "= split trainings, distinct by resulting model and split",
        floors={"installments_compared": 1000, "refits_of_trained": 500, "zero_epoch_continuations": 200}),
    "C11": dict(
        stages=[st("c11", "plain", 20000, 400000)],
        rule="a case = chains of single-example training steps from trained or injected models, each judged clause by "
             "clause by the legality relation (in some, 5000 to 40000 steps); or one to three epochs of two or three examples where feedback is certain "
             "and nothing is forgotten, whose outcome must be that of one of the possible orders. Non-trivial = steps "
             "with feedback and compared epochs, distinct by (model, example)",
        floors={"steps_with_feedback": 1000, "type1_firing": 500, "type1_silent": 500, "type2_firing": 500,
                "type2_silent": 500, "epochs_compared": 500, "far_threshold_cases": 300, "long_run_steps": 40000}),
    "C12": dict(
        stages=[st("c12", "plain", 24000, 400000)],
        rule="a case = chains of single-example training steps of regressors from trained or injected models, judged by "
             "the legality relation and by the number of applications the loss prescribes (exact when all clauses fire "
             "and weights have room); or epochs of two or three examples with one clause and certain feedback. "
             "Non-trivial = steps with feedback and compared epochs, distinct by (model, example)",
        floors={"steps_without_error": 200, "exact_counts_decided": 1000, "type1_firing": 500, "type1_silent": 500,
                "type2_firing": 500, "type2_silent": 500, "epochs_compared": 500, "loss_MSE": 100, "loss_MAE": 100,
                "loss_L1": 100, "loss_L2": 100, "loss_L1+2": 100, "loss_berHu": 100,
                "long_run_steps": 40000}),
    "C20": dict(
        stages=[st("c20", "plain", 8000, 160000)],
        rule="a case = training in a regime where automata count presentations exactly (feedback certain, nothing "
             "forgotten), counts compared for all features and labels; or clauses that record which example of all, or "
             "of a part or pair of 40 to 70001, came first in each epoch; or fit against initialisation and continuation. Non-trivial = "
             "distinct resulting models and orders",
        floors={"classifier_presentations": 20000, "regressor_presentations": 20000, "epoch_orders_read": 1000, "wide_orders_read": 1000, "huge_data_sets": 2,
                "fits_compared": 200}),
}


PROPS["C18"] = dict(
    stages=[st("c18", "plain", 10000, 1000000), st("c18", "asan", 4000, 300000),
            st("c18", "plain", 4, 40, name="c18-giant", extra="giant", workers=1, giant=True)],
    rule="a case = a container of random type, alignment and size (around block and cache line boundaries), up to 60 writes "
         "through random access paths, then copies, moves, assignments and comparisons, all positions and all padding "
         "compared with a plain array throughout. Non-trivial = distinct (type, content)",
    floors={"writes": 100000, "contents_compared": 50000})

PROPS["C19"] = dict(
    stages=[st("c19", "plain", 16000, 200000)],
    rule="a case = 4 to 14 operations (draw to buffer boundaries, copy, assign, re-seed, relocate, create) on a pool of "
         "generators of two seeds, draws compared with the seed's sequence and equality among all checked after each; or "
         "range and uniformity tests, up to the widest ranges and many millions of draws of one generator. Non-trivial = distinct (seed, history)",
    floors={"draws_compared": 100000, "copies": 500, "assignments": 500, "reseedings": 500, "equalities": 10000,
            "seed_pairs": 500, "range_draws": 100000, "integers": 100000, "reals": 100000,
            "wide_range_draws": 1000000, "late_draws": 10000000})

PROPS["C17"] = dict(
    stages=[st("c17", "plain", 1800, 100000)],
    rule="a case = a fixed situation (score, threshold, s, loss, shape) repeated for tens to hundreds of training steps from "
         "re-injected states that make every random choice visible; sums compared with their expectation by Bernstein "
         "bounds at 1e-11, per case and pooled over all cases. Non-trivial = distinct resulting models",
    floors={"feedback_draws": 100000, "forgetting_rows": 100000, "other_labels_drawn": 10000, "initial_states": 100000,
            "rare_applications_drawn": 10000, "rare_feedback_draws": 100000, "applications": 100000, "tests": 500, "wide_initial_rows": 20})


def pooled(groups):
    """C17: the sums of all cases against the sum of their expectations."""
    for st_ in groups.values():
        c = st_.counters
        for k in sorted(x[7:] for x in c if x.startswith("pool_o_")):
            o, e, v = (c.pop("pool_%s_%s" % (q, k), 0) / 1e3 for q in "oev")
            lim = 26 / 3 + ((26 / 3) ** 2 + 52 * v) ** .5
            c["pooled_tests"] = c.get("pooled_tests", 0) + 1
            if os.environ.get("VERIF_VERBOSE"):
                print("  pooled %-34s observed %.1f expected %.1f allowed +-%.1f" % (k, o, e, lim))
            if abs(o - e) > lim:
                st_.add(0, "pooled-" + k, "observed %.1f, expected %.1f +- %.1f over all cases" % (o, e, lim))
        n, s, q = (c.pop("bin_" + x, 0) for x in "nsq")
        if n > 10000:
            m = s / 1e3 / n - 100
            var = q / 1e3 / n - m * m
            if os.environ.get("VERIF_VERBOSE"):
                print("  pooled binomial n=%d mean %+.4f sd, variance ratio %.4f" % (n, m, var))
            if abs(m) > .03 + 7 / n ** .5:
                st_.add(0, "pooled-binomial-mean", "mean is off by %.4f standard deviations over %d draws" % (m, n))
            if abs(var - 1) > .05 + 7 * (3 / n) ** .5:
                st_.add(0, "pooled-binomial-spread", "variance is %.4f of the binomial's over %d draws" % (var, n))


def binomial_tail(x, n, p):
    """probability of a count at least as far from n * p as x, on its side"""
    def term(i):
        return math.exp(math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p))
    return sum(term(i) for i in (range(x, n + 1) if x > n * p else range(x + 1)))


def first_positions(groups):
    """C20: over many epochs every one of the 16 examples must have come first at some time."""
    for st_ in groups.values():
        for kind in ("ClassifierClassic", "ClassifierBitwise", "RegressorClassic", "RegressorBitwise"):
            n = [st_.counters.pop("first_%s_%d" % (kind, i), 0) for i in range(16)]
            if sum(n) >= 1500 and min(n) == 0:
                st_.add(0, "example-never-first", "%s: of 16 examples these many times each came first: %s" % (kind, n))
        for k in range(4):
            n = [st_.counters.pop("pair_%d_%d" % (k, i), 0) for i in range(2)]
            if abs(n[0] - n[1]) > 8 * (n[0] + n[1]) ** .5 + 8:
                st_.add(0, "pair-order-not-random", "estimator %d: of two examples the first came first %d times, the second %d times" % (k, *n))
        for z in ("w0", "w1", "w2", "s0", "s1", "s2"):
            every = [[st_.counters.pop("eighth_%d_%s_%d" % (k, z, i), 0) for i in range(8)] for k in range(4)]
            every += [[x + y for x, y in zip(every[0], every[1])], [x + y for x, y in zip(every[2], every[3])]]
            for k, n in enumerate(every):
                st_.counters["firsts_judged_" + z] = st_.counters.get("firsts_judged_" + z, 0) + (sum(n) if k < 4 else 0)
                # sizes that eight does not divide make the shares a little uneven
                if min(binomial_tail(x, sum(n), .125 * (1.01 if x > sum(n) / 8 else .99)) for x in n) < 1e-11:
                    st_.add(0, "first-not-random", "%s of estimator %d: the example that came first was in each eighth of the data these many times: %s" % (z, k, n))
        a, b = st_.counters.get("again_first", 0), st_.counters.get("newly_first", 0)
        if a > (a + b) / 40 + 8 * ((a + b) / 40) ** .5 + 8:
            st_.add(0, "order-repeated", "the same example of at least 40 came first in successive epochs %d times of %d" % (a, a + b))




PROPS["C04"] = dict(
    stages=[st("c04", "plain", 12000, 200000)],
    rule="a case = eight creations: documents of random keys, order, spelling and spacing, and argument lists of compile-time "
         "random order, selection and value category, valid or spoilt in one to three ways; status, read-back parameters, "
         "untouched arguments, identity of both forms and effect of training judged by an independent table of domains and "
         "defaults; some while there seems to be one processor or none. Non-trivial = distinct documents and lists",
    floors={"accepted": 3000, "refused": 3000, "read_back": 3000, "twins_compared": 1000, "twins_trained": 300,
            "trained_parameters_compared": 1000, "refused_truncated": 50, "refused_unknown-key": 200,
            "single_processor": 300})

CROSS = {"C20": first_positions, "C17": pooled}

PROPS["C06"] = dict(
    stages=[st("c06", "plain", 2500, 100000)],
    rule="a case = one history of 2 to 5 calls and injections executed by nine to eleven estimators that differ in jobs (up to 16), tile "
         "size (with 961 to 8256 features in a quarter of the cases), counting type, verbosity, and maximum weight 1 against "
         "unweighted; answers, statuses, models, generators compared after each, standard streams captured, also in calls of up to 2500 epochs. Non-trivial = "
         "distinct models",
    floors={"calls_compared": 10000, "models_compared": 10000, "widened": 500, "unit_weight_models_compared": 300,
            "silent_calls": 10000, "verbose_calls_printing": 200, "clauses_firing_on_injected": 1000,
            "lengthy_trainings": 100})

_c05 = [("plain", {}), ("filled", {"MALLOC_PERTURB_": "165"}), ("zeroed", {"MALLOC_PERTURB_": "255", "MALLOC_TOP_PAD_": "1000000", "OMP_THREAD_LIMIT": "2"}),
        ("mmapped", {"MALLOC_MMAP_THRESHOLD_": "4096", "MALLOC_PERTURB_": "90", "LC_ALL": "POSIX", "COLUMNS": "x" * 3000, "OMP_DYNAMIC": "false"})]
PROPS["C05"] = dict(
    stages=[st("c05", "plain", 1600, 60000, name="c05-" + n, extra=n, env=e, chunk=[0, 37, 53, 41][i])
            for i, (n, e) in enumerate(_c05)],
    rule="a case = one history of 2 to 6 calls with clones, moves and reloads, executed twice in each of four processes that differ in "
         "heap filling and layout, environment, preceding cases and in what up to eight other estimators do in between "
         "(in the same and in short-lived threads); all eight digests must agree; or over a thousand estimators trained alike in one process, all of which must agree. Non-trivial = distinct digests",
    floors={"histories_repeated": 2000, "noise_calls": 5000, "unseeded": 100, "twins": 50000, "histories_compared_across_processes": 1000})


def same_everywhere(groups):
    """C05: equal digests in all processes; unseeded seeds all different."""
    byname = list(groups.values())
    seeds = {}
    for st_ in byname:
        for k, v in sorted(st_.outputs.items()):
            if k[0] == "u":
                if v in seeds:
                    st_.add(int(k[1:]), "unseeded-equal-across-processes", "%s in %s and %s" % (v, seeds[v], (st_.spec["name"], k)))
                seeds[v] = (st_.spec["name"], k)
    first = byname[0]
    n = 0
    for st_ in byname[1:]:
        for k, v in sorted(st_.outputs.items()):
            if k[0] == "h" and k in first.outputs:
                n += 1
                if first.outputs[k] != v:
                    st_.add(int(k[1:]), "differs-across-processes", "history %s: %s in %s, %s in %s" % (
                        k[1:], first.outputs[k], first.spec["name"], v, st_.spec["name"]))
    first.counters["histories_compared_across_processes"] = n


CROSS["C05"] = same_everywhere

PROPS["C07"] = dict(
    stages=[st("c07", "tsan", 900, 20000)],
    rule="a case = one estimator with 2 to 8 jobs, or 2 to 4 threads each with its own estimator (new, or cloned from a common "
         "ancestor) over shared read-only data, performing 3 to 9 operations under ThreadSanitizer (libgomp's fork and "
         "join made known to it) with random delays at region entry and exit; results compared with a run alone. "
         "Non-trivial = distinct results and orders of entry",
    floors={"parallel_regions": 10000, "region_threads": 20000, "thread_groups": 200, "results_compared": 500, "delays": 5000})

PROPS["C16"] = dict(
    stages=[st("c16", "plain", 480, 8000)],
    rule="a case = a task (noisy XOR with up to 68 distracting features, three to seven noisy patterns, a noisy response linear in 3 to 5 "
         "of up to 13 bits) with random adequate settings, learned from scratch; skill on unseen noiseless data (0 = chance "
         "or the mean response, 1 = perfect) against a floor, also after twice as many and after 150 to 600 epochs more; mean skill per "
         "variant. Non-trivial = distinct trained models",
    floors={"models_trained": 400, "trained_on": 100, "trained_for_long": 4, "long_runs": 20, "long_regressions": 40})


# mean and spread of the skill of single runs, measured over 8000 runs of another seed
def expected_skill(family, w, b):
    if family == "long-linear":
        return .82, .14
    if family == "classes":
        return (.987, .04) if w else (.999, .02)
    if family == "xor":
        return (.94, .16) if w else (1., .03)
    if family == "xor_distractors":
        return (.935, .11) if w or b else (.999, .05)
    if family == "xor_many_distractors":
        return (.955, .1) if w else (.67, .22) if b else (.98, .08)
    return (.77, .12) if w else (.70, .17) if "L1_" in family + "_" or "MAE" in family or "berHu" in family else (.75, .13)


def skills(groups):
    """C16: the mean skill of every variant, loss function and setting."""
    by = {}
    for st_ in groups.values():
        for k, v in st_.outputs.items():
            name, s1, s2 = v.split()
            family = re.sub("(_weighted|_boosted|_bitwise|_classic)+$", "", name)
            w, b = "_weighted" in name, "_boosted" in name
            task = family.split("_")[0]
            variant = "bitwise" if "bitwise" in name else "classic"
            e, sd = expected_skill(family, w, b)
            for s, when in ((s1, ""), (s2, "_after_more")):
                s = float(s)
                for g in {family, family + "_" + variant, task, task + "_" + variant, task + ("_weighted" if w else "_unweighted"),
                          task + ("_boosted" if b else "_unboosted"), family + ("_weighted" if w else "_unweighted"),
                          task + ("_binomial" if "binomial" in name else "_exact")}:
                    by.setdefault(g + when, []).append((s, e, sd, int(k[1:])))
    for name, v in sorted(by.items()):
        m = sum(x[0] for x in v) / len(v)
        e = sum(x[1] for x in v) / len(v)
        lim = .04 + 6.5 * sum(x[2] ** 2 for x in v) ** .5 / len(v)
        if name.count("_") <= 1:
            st_.counters["mean_skill_permille_" + name] = int(1000 * m)
        if os.environ.get("VERIF_VERBOSE"):
            print("  %-40s n=%-4d worst %.3f mean %.3f expected %.3f -%.3f" % (name, len(v), min(v)[0], m, e, lim))
        if m < e - lim:
            st_.add(min(v)[3], "mean-skill-" + name, "mean skill of %d runs is %.3f, expected %.3f - %.3f" % (len(v), m, e, lim))


CROSS["C16"] = skills

PROPS["C21"] = dict(
    stages=[st("c21", "plain", 8000, 200000)],
    rule="a case = one training call, and its continuation, made in one of twelve forms (order, temporaries, variables, constants, "
         "moved, epochs left out) against the plain form with everything given; or a classifier asked for more or fewer labels than its "
         "data has, its number of labels, size, scores and accepted labels examined through two continuations and a refit. Non-trivial "
         "= distinct (model, form) and (model, capacity)",
    floors={"forms_compared": 1000, "default_epochs_compared": 500, "capacities_checked": 1000, "models_with_spare_labels": 200,
            "too_few_labels_refused": 20, "models_of_many_labels": 10, "refits_with_other_capacity": 100})

PROPS["C22"] = dict(
    stages=[st("c22", "plain", 4000, 100000)],
    rule="a case = a pool of ten or more states of one configuration (twins, copies, reloaded, queried, and some that differ in one "
         "automaton, weight, parameter or generator position, in data shape or history); all pairs, both ways. Non-trivial = distinct "
         "pairs of states",
    floors={"equal_pairs": 10000, "unequal_pairs": 10000, "automaton_edits": 1000, "weight_edits": 300, "generator_edits": 1000,
            "parameter_edits": 500, "other_histories": 500, "giant_pools": 8, "other_pasts": 1000})
