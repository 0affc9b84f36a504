import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = ("Seeded search, not proof: deterministic simulation of the real headers (compiled twice: clang -O1 with library assertions, gcc -O2 -DNDEBUG) "
        "with scheduling at every instrumented memory access. Assumes sequential consistency and non-preemptible libc/libstdc++ calls. ")
T = {
 "C01": ("deterministic simulation: seeded per-access thread interleavings with stalls and kills, every result compared with the same call run alone", "Oracle: the same call in a pristine single-threaded process of the same build."),
 "C02": ("deterministic simulation: seeded call histories with failures, stale errno, reused buffers and polluted memory, compared with the same call run alone", "Oracle: the same call in a pristine process; plus errno preservation."),
 "C03": ("deterministic simulation: locale switch faults at arbitrary steps of conversions, results compared with the C locale, ambient locale observed at every step of other threads", "Locales de_DE, tr_TR, fa_IR, ps_AF and hostile C++ facets."),
 "C04": ("deterministic simulation: allocation failure injected at every allocation index, once or persistently, with leak and retry checks", "Allocator is simulated; failing, leaking and double release are tracked exactly."),
 "C05": ("deterministic simulation: adjacent output slots at a guard page, every write checked at the instant it happens, under seeded interleavings", "Write footprint is observed by compiler instrumentation and guard pages."),
 "C06": ("deterministic simulation: text ending at a guard page or followed by a racing writer, every access checked, buffers reused", "Read footprint is observed by compiler instrumentation and guard pages."),
 "C07": ("deterministic simulation: seeded interrupts at arbitrary instructions, nested conversions from fallback and new-handler, compared with the same call run alone", "Interrupt points are instrumented memory accesses, allocations and function entries."),
 "C08": ("deterministic simulation: scripted fallbacks (odd ends, range errors, exceptions, nested calls) under seeded histories and schedules, contract checked per call", "Fallback is a stub playing seeded scripts."),
 "C09": ("deterministic simulation: producers and consumers over simulated pipes with short reads and writes, stalls, allocation failures and locale switches; every record compared with what was sent", "End-to-end check against the values sent."),
 "C10": ("deterministic simulation: pipes which lose, cut, duplicate, splice and corrupt records; every decode compared with an executable reference model", "Reference: independent grammar plus glibc strtod_l in the C locale."),
 "C11": ("deterministic simulation: threads killed or stalled forever inside conversions; per-call step budget and deadlock/livelock detection", "Budget: 5000 own steps per print, 6000 + 80 per character per parse; progress in bounded steps after faults."),
 "C12": ("deterministic simulation: stream sinks failing, short or throwing at every position and allocation failures; stream protocol checked", "Sink is a stub; std::ostream is real."),
 "C13": ("deterministic simulation: each call in a seeded rounding mode with raised exception flags, with interrupts, exceptions and failing allocations; compared with the same call run alone in the default environment, control words checked after each call and in callbacks", "Rounding mode and flags are set in the real FPU; values of the default fallback are not compared in other rounding modes."),
 "C14": ("deterministic simulation: seeded program starts with conversions in every phase of a process's and a thread's life and with failing allocations, and threads which fork while others are mid-conversion; compared with the same call run alone", "Phases run in a fixed order in a process started for the run; released library memory is poisoned and never reused."),
 "C15": ("deterministic simulation: stack depth and heap use of each call measured at every memory access under interrupts, exceptions, failing allocations and marathons of distinct calls; budgets and growth of held memory checked", "Budgets: 4 KiB of own stack, 1 KiB of heap per call, 32 KiB held per thread; frames inside libc are not counted."),
}
NA = {
 "N01": "A statistical statement about a pure function of one argument: no schedule, fault, time or history enters it, so simulation of executions adds nothing over sampling values.",
 "N02": "A statement about constant tables fixed at compile time; nothing to schedule or to inject.",
 "N03": "A relation between pure functions of one argument (the character type); no interleaving, fault or history enters. (C01, C09 and C10 run all character types against their own oracles.)",
 "N04": "A statement about the text format of one pure call; no interleaving, fault or history enters it.",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: all seams are made by compiler instrumentation (-fsanitize=thread call-backs implemented by the simulator) and link-time wrapping. Replay: ./check.py --replay evidence/<id>.replay"}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": "./check.py " + k, "thorough_cmd": "./check.py " + k, "technique": t, "level": "exploration", "level_note": base + n})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
