"""What each check runs and how its output is judged."""
import json, os, re, signal
import build

CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP, signal.SIGFPE}


def classify(r):
    """(verdict, class, message, extra) of one process; verdict: ok, violation, error."""
    for line in r["out"].splitlines():
        if line.startswith("VIOL "):
            try:
                d = json.loads(line[5:])
            except ValueError:
                d = {"class": "?", "msg": line[5:300]}
            return "violation", d["class"], d["msg"], d
        if line.startswith("HERR "):
            return "error", "harness", line[5:], {}
    if r["timed_out"]:
        return "error", "timeout", f"no answer after {r['job']['timeout']} s", {}
    if r["job"].get("judge"):
        return r["job"]["judge"](r)
    if r["rc"] == 0:
        if r["job"].get("result", True) and "\nRESULT " not in "\n" + r["out"]:
            return "error", "harness", "no result", {}
        return "ok", "", "", {}
    if r["rc"] < 0 and -r["rc"] in {int(s) for s in CRASH}:
        if "memory allocation of" in r["err"] or "failed to spawn thread" in r["err"]:
            return "error", "memory", r["err"][-300:], {}
        tail = [l for l in r["err"].splitlines() if l.strip()][-3:]
        return "violation", "crash", f"the process was killed by signal {-r['rc']}: " + " / ".join(tail), {}
    return "error", "exit", f"exit status {r['rc']}", {}


def aggregate(results):
    a = dict(counts={}, maxes={}, distinct=0, most_distinct=0, samples=[], known=[])
    for r in results:
        for line in r["out"].splitlines():
            if line.startswith("RESULT "):
                d = json.loads(line[7:])
                for k, v in d["counts"].items():
                    a["counts"][k] = a["counts"].get(k, 0) + v
                for k, v in d["maxes"].items():
                    a["maxes"][k] = max(a["maxes"].get(k, 0), v)
                a["distinct"] += d["distinct"]
                a["most_distinct"] = max(a["most_distinct"], d["distinct"])
                a["samples"] += d["samples"][:1]
            elif line.startswith("KNOWN "):
                if line[6:] not in a["known"]:
                    a["known"].append(line[6:])
    return a


def replay_cmd(cmd, extra):
    if "exec" not in extra:
        return cmd
    c = [x for x in cmd if not x.startswith(("exec=", "n="))]
    return c + [f"exec={extra['exec']}"]


def findings():
    """The failures which are known: {(property, case): what fails}."""
    out = {}
    with open(os.path.join(build.HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if m:
                out[m.group(1), m.group(2)] = m.group(3)
    return out


def judge_deep(r):
    """A ring so long that the recursion of a collection overflows the stack: a known finding, if it is listed."""
    overflow = r["rc"] < 0 and "has overflowed its stack" in r["err"]
    what = findings().get((r["job"]["property"], r["job"]["case"]))
    if overflow and what:
        r["out"] += f"\nKNOWN case={r['job']['case']} {what}\n"
        return "ok", "", "", {}
    r["job"] = dict(r["job"], judge=None)
    return classify(r)


def deep(prop, case, args):
    return dict(cmd=[build.binary("vp"), "deep"] + args, timeout=120, judge=judge_deep, property=prop, case=case)


def secs(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def vh(mode, args, seed, s, classes, flavour="vp"):
    return dict(cmd=[build.binary(flavour), mode, f"seed={seed}", f"secs={s}", "classes=" + ",".join(classes)] + args,
                timeout=s * 3 + 120)


def spread(variants, classes, seed, tier, quick=20, thorough=300, flavour="vp"):
    """Eight processes, going through the variants (mode, args) round robin."""
    s = secs(tier, quick, thorough)
    n = 8
    out = []
    for i in range(max(n, len(variants))):
        mode, args = variants[i % len(variants)]
        out.append(vh(mode, args, seed * 1000 + i, s, classes, flavour))
    # keep the total time the same if there are more variants than slots
    if len(out) > n:
        for j in out:
            j["cmd"][3] = f"secs={max(2, s * n // len(out))}"
    return out


def need(**minimum):
    def f(agg):
        for k, v in minimum.items():
            have = agg["counts"].get(k, 0)
            if have < v:
                return f"{k} = {have} < {v}"
        return None
    return f


SEQ_RULE = ("random operation histories (create, clone, store, move, take, remove, swap, clear, drop, collect, change policy) over "
            "values of six layouts, run against a reachability model; distinct counts histories with different operation/outcome "
            "sequences in which at least one cyclic value was reclaimed")
SEQ_ASSUME = ["every random choice comes from VERIF_SEED", "histories of at most a few hundred operations over at most 60 values"]

PROPS = {}


def prop(pid, variants, classes, nonvacuous, rule=SEQ_RULE, assumptions=SEQ_ASSUME, flavours=("vp",), quick=30, thorough=300, **kw):
    PROPS[pid] = dict(flavours=list(flavours), rule=rule, assumptions=assumptions, nonvacuous=nonvacuous,
                      jobs=lambda seed, tier: spread(variants, classes, seed, tier, quick, thorough, flavours[0]), **kw)


def more(pid, extra):
    """Additional processes of a check."""
    first = PROPS[pid]["jobs"]
    PROPS[pid]["jobs"] = lambda seed, tier: extra() + first(seed, tier)


CONC_RULE = ("random programs for 2 to 4 threads under a controlled scheduler (random walk, priority changes, long pauses of one thread) "
             "which decides at every atomic operation and lock of the collector who runs next; distinct counts different "
             "program/schedule pairs with at least three thread switches in which values were destroyed while threads were running")
CONC_ASSUME = SEQ_ASSUME[:1] + ["executions are sequentially consistent interleavings at the instrumented operations; 2 to 4 threads, "
                                "2 to 9 operations each, up to 4 shared values beforehand"]
BOTH_RULE = SEQ_RULE + "; and " + CONC_RULE
BOTH_ASSUME = SEQ_ASSUME + CONC_ASSUME[1:]

U = "useq"
S = "sseq"
C = "conc"
prop("C01", [(U, []), (U, ["borrow"]), (U, ["dtor"]), (U, ["big", "mixed"])], ["safety", "uaf"],
     need(destructions=10000, cyclic_garbage_collected=1000, explicit_collections=1000, condition_true=1000))
prop("C02", [(U, ["policy=0"]), (U, []), (U, ["mixed"]), (U, ["big", "mixed"])], ["complete"],
     need(garbage_at_collections=2000, collections_with_garbage=500))
more("C02", lambda: [deep("C02", "ring-of-400000", ["n=400000"])])
prop("C03", [(C, []), (C, ["mixed"]), (C, ["dtor"]), (C, []), (S, ["mixed"]), (C, ["policy=1"]), (C, ["threads=4"]), (S, ["big"])] + 8 * [("shift", [])],
     ["safety", "uaf"], need(destroyed_while_concurrent=1000, handles_moved_during_collections=10000, early_references_used_during_collections=2000, concurrent_collect_calls=1000, overlapping_collect_calls=100),
     quick=60, rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C04", [(C, []), (C, ["policy=0"]), (C, ["mixed"]), (C, ["threads=3"]), (C, ["threads=2"]), (S, ["mixed"]), ("shift", []), (C, ["dtor"])],
     ["complete"], need(handles_moved_during_collections=2000, destroyed_while_concurrent=1000, garbage_at_quiescence=1000, overlapping_collect_calls=100),
     quick=45, rule=BOTH_RULE, assumptions=BOTH_ASSUME)
more("C04", lambda: [deep("C04", "shared-ring-of-400000", ["sync", "n=400000"])])
prop("C05", [(U, ["mixed"]), (S, ["mixed"]), (C, []), (U, ["big", "mixed"]), (S, ["big", "mixed"]), (C, ["dtor"]), (U, ["dtor", "panics"]), (S, ["dtor", "panics"]), ("zoo", [])],
     ["once", "uaf"], need(unusual_values=10000, values_destroyed=50000, blocks_released=50000, destroyed_while_concurrent=1000),
     rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C06", [(U, ["policy=0"]), (U, ["mixed"]), (C, []), (C, []), (U, ["dtor"]), (S, []), (C, ["mixed"]), (C, ["threads=2"])],
     ["prompt"], need(values_destroyed=20000, leaf_values=1000), rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C07", [(U, ["dtor"]), (S, ["dtor"]), (C, ["dtor"]), (U, ["dtor", "big"]), (U, ["dtor", "panics"]), (S, ["dtor", "big"]), (C, ["dtor"]), (U, ["dtor", "borrow"])],
     ["dead", "uaf"], need(values_destroyed=20000, dead_handles_seen=100), rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C08", [(U, []), (S, []), (U, ["mixed"]), (S, ["mixed"]), (U, ["big"]), (S, ["big"]), (C, []), (U, ["dtor"])],
     ["ident", "uaf"], need(values_destroyed=20000), rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C10", [(U, ["probe"]), (S, ["probe"]), (U, ["mixed", "probe"]), (S, ["mixed", "probe"]), (C, []), (C, ["dtor"]), (U, ["probe", "dtor"]), (S, ["probe", "dtor"])],
     ["count"], need(counter_probes=1000, values_destroyed=20000), rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C13", [(U, ["borrow"]), (S, ["borrow"]), (U, ["borrow", "big"]), (S, ["borrow", "big"]), (U, ["borrow", "dtor"]), (S, ["borrow", "dtor"]), (C, []), (C, ["mixed"])],
     ["safety", "uaf", "complete", "panic", "deadlock"], need(values_destroyed=20000), rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C14", [(U, ["dtor"]), (S, ["dtor"]), (U, ["dtor", "panics"]), (S, ["dtor", "panics"]), (C, ["dtor"]), (U, ["dtor", "probe"]), (S, ["dtor", "big"]), (C, ["dtor"])],
     ["safety", "uaf", "complete", "once", "dead", "prompt", "count", "panic", "deadlock", "ident"],
     need(values_destroyed=20000), rule=BOTH_RULE, assumptions=BOTH_ASSUME)
prop("C20", [(C, []), (C, ["dtor"]), (C, ["policy=1"]), (C, ["threads=4"]), (S, ["dtor"]), (U, ["dtor"]), (C, ["dtor", "policy=1"]), (C, ["mixed"]), ("flood", [])],
     ["deadlock"], need(schedule_points=100000, overlapping_collect_calls=100, drops_of_hoarded_handles=1000000),
     rule=BOTH_RULE + "; and real threads whose destructors drop more than a hundred thousand handles each", assumptions=BOTH_ASSUME)

# ---- policy, automatic collections, teardown, both collectors together

POL_RULE = ("random histories with changing collection conditions; every call of a condition and every collection is observed; "
            "distinct counts histories with different operation/outcome sequences")
ONE_ASSUME = SEQ_ASSUME[:1]
prop("C09", [("upol", []), ("spol", []), ("upol", []), ("spol", []), (U, ["mixed"]), (S, ["mixed"]), ("upol", []), ("spol", [])],
     ["policy"], need(condition_calls=10000, condition_true=1000, garbage_due=1000), rule=POL_RULE,
     assumptions=ONE_ASSUME + ["threads take turns (one runs at a time)"])
prop("C11", [("uauto", []), ("sauto", []), ("uauto", ["big=3000"]), ("sauto", ["big=3000"])], ["auto"],
     need(automatic_collections=1000, handle_operations=1000000, handovers_by_drops=1),
     rule="long programs (bursts of creation, cloning, unlinking and dropping) under the default condition; a piece of garbage is always "
          "pending, and the number of drops until it is collected is compared with the bound; distinct counts programs",
     assumptions=ONE_ASSUME + ["programs of up to a few hundred thousand handle operations, up to a few thousand living values"])
prop("C12", [("uauto", []), ("sauto", []), ("uauto", ["big=3000"]), ("sauto", ["big=3000"])], ["work"],
     need(automatic_collections=1000, handle_operations=1000000, large_heaps=10),
     rule="long programs (bursts of creation, cloning, unlinking and dropping) under the default condition; every traversal of a value is "
          "counted and compared with the number of handle operations and of living values; distinct counts programs",
     assumptions=ONE_ASSUME + ["work is measured in traversals of values, not in time or in visited handles"])
prop("C15", [("uexit", []), ("sexit", []), ("uexit", []), ("sexit", []), ("umexit", []), ("smexit", [])], ["exit", "safety", "uaf", "once", "panic"],
     need(threads_ended=1000, main_threads_ended=200, acts_of_conditions=500, handles_dropped_at_teardown=1000, variables_destroyed=1000),
     rule="threads which end while handles are held by thread-local variables declared before and after the collector's, with destructors "
          "and conditions which use the collector, and main threads of processes of their own which exit like this; distinct counts different thread programs",
     assumptions=ONE_ASSUME + ["for the main thread: only that the process exits normally and nothing is destroyed twice or while reachable"])
prop("C21", [("mix", [])], ["mix", "safety", "uaf"],
     need(collections_inside_others=1000, local_collections=1000, shared_collections=1000, local_garbage_due=1000, shared_garbage_collected=1000),
     rule="random graphs over values of both collectors on several threads which take turns, with collections of either kind, also inside destructors run by others, judged by a "
          "reachability model per collector; distinct counts histories with different operation/outcome sequences",
     assumptions=ONE_ASSUME + ["threads take turns (one runs at a time)"])
prop("C22", [("pause", [])], ["stall", "safety", "uaf"],
     need(held_up_in_a_destructor=200, held_up_in_a_traversal=200, operations_during_a_collection=100000),
     rule="a shared collection (explicit or automatic) over random structures is held up inside the traversal or the destructor of a random "
          "value until several other threads have executed random programs and ended; distinct counts different situations in which the "
          "collection was held up",
     assumptions=ONE_ASSUME + ["a thread counts as waiting if it has been asleep without running for five seconds while nothing else was going on",
                               "locks inside values belong to the program: the other threads only try to take those"],
     technique="real threads with an injected delay inside the collection; progress monitor on the other threads")
prop("C23", [("ugrow", []), ("sgrow", [])], ["growth"], need(programs_repeated=50, repetitions=50000, values_destroyed=100000),
     rule="random programs, each repeated 1600 times in one process; the bytes in use after each repetition are counted by the allocator, and the "
          "last quarter is compared with the second; distinct counts programs",
     assumptions=ONE_ASSUME + ["growth of less than about 20 bytes per repetition of a program is not seen", "no panicking destructors"],
     technique="counting allocator over repeated programs")
prop("C24", [(U, ["visits", "forked"]), (S, ["visits", "forked"]), (U, ["visits", "forked", "mixed"]), (S, ["visits", "forked", "mixed"])],
     ["safety", "uaf", "once", "complete", "panic", "deadlock", "dead"], need(traversal_panics=2000, destructions=20000, cyclic_garbage_collected=2000),
     rule=SEQ_RULE + "; now and then one of the next traversals panics; each history runs in a process of its own",
     assumptions=SEQ_ASSUME + ["values which existed when a traversal of shared values panicked, and values which were unreachable when a traversal of "
                               "local values panicked, need not be destroyed later"],
     technique="fault injection into the traversal code of values, judged by the reachability model")
prop("C25", [(C, ["own"]), (C, ["own", "policy=0"]), (C, ["own", "policy=1"]), (C, ["own", "threads=2"]), (C, ["own", "threads=3"]), (C, ["own", "threads=4"]), (C, ["own", "policy=0", "threads=2"]), (C, ["own"])],
     ["own"], need(own_garbage_at_collections=20000, overlapping_collect_calls=1000), rule=BOTH_RULE,
     assumptions=BOTH_ASSUME + ["destructors of the values in question do not use the collector"])
prop("C26", [(U, ["cond"]), (S, ["cond"]), (U, ["cond", "condpanics"]), (S, ["cond", "condpanics"]), (U, ["cond", "borrow"]), (S, ["cond", "borrow"]), (U, ["cond", "big"]), (C, ["cond"]), (S, ["cond", "big"]), (C, ["cond", "dtor"])],
     ["safety", "uaf", "once", "complete", "prompt", "dead", "ident", "panic", "deadlock"],
     need(acts_of_conditions=2000, collections_inside_conditions=500, conditions_using_the_other_collector=200, condition_panics=100, values_made_by_conditions=500),
     rule=BOTH_RULE + "; conditions use the collector themselves, and some panic (in the histories of one thread)",
     assumptions=BOTH_ASSUME, quick=22, technique="conditions which use the collector and panic, judged by the reachability model")
ALL = ["safety", "uaf", "complete", "once", "prompt", "dead", "count", "ident", "panic", "deadlock", "unsized", "exit"]
prop("C18", [(U, ["mixed"]), (S, ["mixed"]), (U, ["big", "mixed"]), (C, ["mixed"]), (U, ["dtor", "mixed"]), (S, ["borrow", "mixed"]), (U, ["borrow", "mixed"]), (C, [])],
     ALL, need(coerced_copies=1000, reads_through_unsized_values=10000, destructions=10000),
     rule=BOTH_RULE + "; values include slices behind sized and unsized handles", assumptions=BOTH_ASSUME, flavours=("unsized",))


# ---- generated types

def types_prop(pid, kind, rule):
    n = lambda tier: secs(tier, 300, 900)

    def js(seed, tier):
        return [dict(cmd=[build.binary(kind), f"seed={seed * 1000 + i}", f"n={secs(tier, 1500, 12000)}"], timeout=600) for i in range(8)]
    PROPS[pid] = dict(flavours=[], prepare=lambda seed, tier: build.types(kind, seed, n(tier)), jobs=js, same_cases=True,
                      nonvacuous=need(executions=50000, handles_owned=50000, visits_refused=1000), rule=rule,
                      assumptions=ONE_ASSUME + ["types nest up to about four levels; at most nine elements per container"],
                      technique="differential monitoring of visits by a recording visitor, over generated types")


types_prop("C16", "impls", "random values of random nestings of the supported library types, some with cells borrowed, locks held or poisoned, "
           "shown to a recording visitor and compared with the handles the generator put in; distinct counts types of which a value owned a handle")
types_prop("C17", "derive", "random values of random derived structs and enums (generics, lifetimes, where clauses, written by macros), "
           "shown to a recording visitor and compared with the handles the generator put in; distinct counts types of which a value owned a handle")


# ---- sanitizers

def judge_miri(r):
    m = re.search(r"^error: (Undefined Behavior: .*|.*deadlock.*|abnormal termination.*|the main thread terminated.*)$", r["err"], re.M)
    if m:
        cls = "race" if "Data race" in m[1] else "deadlock" if "deadlock" in m[1] else "ub"
        return "violation", cls, "Miri: " + m[1][:300], {}
    if r["rc"] == 0 and "RESULT " in r["out"]:
        return "ok", "", "", {}
    return "error", "miri", "exit status %s: %s" % (r["rc"], r["err"][-800:]), {}


def judge_tsan(r):
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", r["err"])
    if m and "thread leak" not in m[1]:
        where = re.findall(r"/dumpster/src/(\S+)", r["err"])
        return "violation", "race", f"ThreadSanitizer: {m[1].strip()} at " + ", ".join(dict.fromkeys(where[:6])), {}
    if r["rc"] == 0 and "RESULT " in r["out"]:
        return "ok", "", "", {}
    if "FATAL: ThreadSanitizer" in r["err"] or "failed to spawn thread" in r["err"] or "memory allocation of" in r["err"]:
        return "error", "tsan", r["err"][-800:], {}
    if r["rc"] < 0 and -r["rc"] in {int(s) for s in CRASH} or "ERROR: ThreadSanitizer" in r["err"]:
        tail = [l for l in r["err"].splitlines() if l.strip()][-3:]
        return "violation", "crash", f"the process died (status {r['rc']}): " + " / ".join(tail), {}
    return "error", "tsan", f"exit status {r['rc']}", {}


def judge_refusal(r):
    """A program which the compiler should refuse; if it does not, Miri says whether that does harm."""
    v = judge_miri(r)
    if v[0] == "violation":
        return v[:2] + ("an unsound program is accepted; " + v[2], {})
    if re.search(r"^error\[E\d+\]", r["err"], re.M) and "--> examples/" in r["err"]:
        if "RESULT " not in r["out"]:
            r["out"] += '\nRESULT {"counts":{"unsound_programs_refused":1},"maxes":{},"distinct":0,"samples":[]}\n'
        return "ok", "", "", {}
    return v


REFUSED = ["loan_local", "loan_shared", "escape_local", "escape_shared", "share_cell", "send_rc", "send_local", "safe_impl"]


def race_jobs(seed, tier):
    s = secs(tier, 20, 200)
    out = []
    for name in REFUSED + ["sound"]:
        out.append(dict(cmd=["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--example", name], timeout=200, cwd=build.source("miri"),
                        judge=judge_miri if name == "sound" else judge_refusal, env=build.environment(build.target("miri"))))
    for i in range(8):
        n = seed * 1000 + i
        out.append(dict(cmd=[build.binary("tsan"), f"seed={n}", f"secs={s}"] + (["small"] if i == 7 else []) + (["ops=40", "threads=5"] if i % 2 else []), timeout=s * 3 + 120, judge=judge_tsan,
                        env=dict(TSAN_OPTIONS="halt_on_error=1:report_thread_leaks=0:history_size=4")))
    s = secs(tier, 30, 200)
    for i in range(16):
        n = seed * 1000 + i
        e = build.environment(build.target("miri"))
        e["MIRIFLAGS"] += f" -Zmiri-seed={n & 0xffffffff}" + ["", " -Zmiri-disable-validation", " -Zmiri-preemption-rate=0.04",
                                                              " -Zmiri-disable-validation -Zmiri-preemption-rate=0.04"][i % 4]
        out.append(dict(cmd=["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--", f"seed={n}", f"secs={s}"] + (["small"] if i < 12 else []), timeout=s * 3 + 200,
                        judge=judge_miri, env=e, cwd=build.source("miri")))
    return out


PROPS["C19"] = dict(flavours=["tsan", "miri"], jobs=race_jobs,
                    nonvacuous=need(sound_programs_run=1, programs_under_miri=50, programs_without_ordering=100, programs_under_thread_sanitizer=2000, threads_started=5000, reads_of_values=10000, collections=5000),
                    rule="random programs (handles created, cloned, read, linked, passed between threads and dropped; collections; threads which end with "
                         "handles in thread-local variables; values of several layouts) under ThreadSanitizer on all cores and under Miri with its "
                         "weak memory emulation and random scheduling, most of these with threads which wait for each other without being ordered by that; distinct counts different programs",
                    assumptions=ONE_ASSUME + ["orderings weaker than what the x86 machine or Miri's store buffers can show are not seen",
                                              "aliasing models (Stacked/Tree Borrows) are not part of the verdict",
                                              "under ThreadSanitizer, fences order at least what they should (race/src/fence.rs); Miri has no such slack"],
                    technique="ThreadSanitizer and Miri as oracles over random programs, plus programs which are unsound unless the compiler refuses them")
