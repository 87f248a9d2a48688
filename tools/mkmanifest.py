# Writes MANIFEST.json.
import json
T="deterministic simulation with fault injection: seeded search over "
C={
"C01":("schedules of concurrent parses (preemption at library edges, loads and stores), texts and rule sets, against a reference PEG interpreter",
 "Every parse of every explored run is compared, tree and accept/reject, with an independent interpreter; threads are suspended inside calls at seeded points. Sampled, not exhaustive; sequential consistency; the interpreter in sim/src/model.rs is trusted."),
"C02":("schedules of concurrent failing parses, against a reference interpreter's failures",
 "Every error field (position, row, column, line before/after, message of error(...), rule path) is compared with the reference model or, where the notation leaves the wording free, with the same call alone. Sampled; the model is trusted."),
"C03":("histories of calls on one or several threads with reuse of freed memory, against the same call alone in a fresh process",
 "The oracle is the library itself in a fresh simulated process, so no model is trusted. Sampled histories, up to thousands of calls."),
"C04":("hash seeds, clock readings and jumps, allocator placement and stale contents, thread speed, against other environments",
 "Outcomes of one plan are compared byte for byte across at least three environments. Sampled."),
"C05":("histories and serialisation orders of add/merge/compile/parse over rule sets moved between threads, against a map model",
 "Contents are read back after the history and parses are compared with the model; sampled."),
"C06":("schedules of concurrent grammar compilations, valid and invalid grammar texts, against a reference compiler of the notation",
 "Every compiled rule set or rejection is compared with an independent compiler (sim/src/model.rs, trusted). Sampled."),
"C07":("hash seeds, construction orders and schedules of generating threads, with generated text read back by an independent reader",
 "Text equality across processes and environments, and denotation through a reader of the emitted code (sim/src/gread.rs, trusted). Sampled."),
"C08":("write faults (short, EINTR, EAGAIN, EPIPE, ENOSPC, EIO) at any write of the real program",
 "The shipped program runs under an interposed write(2) with a seeded fault sequence; accepted bytes and exit status are checked against complete output, whose meaning is compared with the library's own reader. Sampled."),
"C09":("suspensions of callers at any instant inside a call, for a long time or for ever, with progress of the others bounded in steps",
 "Liveness as completion within a step budget while the stalled set never runs; outcomes of all are compared. Sampled."),
"C10":("allocation failures (the n-th, windows, limits) in any call and schedule, against the undisturbed outcome",
 "For each failure the process must stop loudly or return the normal outcome. Failure points are sampled per plan, all of them for small plans."),
"C11":("long histories under a simulated allocator with exact accounting, guard bytes and quarantine",
 "Retained bytes compared between rounds; double, mismatched and out-of-bounds releases detected by the allocator. Sampled histories."),
"C12":("small caller stacks and long flat inputs under the scheduler, with stack use measured by a guarded, painted stack",
 "Stack use of pairs of lengths is compared, and long inputs run on small stacks; outcomes against the model. Sampled shapes and lengths."),
"C13":("schedules of threads transforming one shared tree, against reference transformations",
 "Results compared with independent transformations and the shared tree compared before and after. Sampled; model trusted."),
"C14":("schedules of threads reading one shared node list, against reference readers",
 "Every reader's returned node, rest or error is compared with an independent reader, its error text with the same call made alone, and the shared tree before and after. Sampled; model trusted.")
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
"N01":"Not a property of the current code that schedules or faults bear on: left recursion is outside what PEG semantics define (DESIGN.md, 'Well-formed rule sets'); the outcome is a function of the rule set alone, and the library recurses without a check, so a claim here would need a static analysis of rule sets, not a simulation.",
"N02":"A performance bound, not an outcome: plain backtracking is exponential by design for some rule sets, whatever the schedule, clock or fault.",
"N03":"Whether rustc accepts a text is decided by running the compiler on it; no schedule, time, I/O or fault of this system takes part. What the text denotes is claimed under C07 and C08.",
"N04":"macro_rules expansion happens in the compiler, before any execution that a simulator could control.",
}
ids={p['id'] for p in props}
checks=[]
for p in props:
    i=p['id']
    if i[0]!='C': continue
    t,n=C[i]
    checks.append(dict(property=i,quick_cmd=f"sim/check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough sim/check.sh {i}",
      evidence_file=f"evidence/{i}.json",technique=T+t,level="exploration",level_note=n))
m=dict(version=1,setup_cmd="sim/build.sh && sim/program.sh",
 hooks=dict(guard="none",enable="No hooks in /repo: sim/rustc-wrapper.sh compiles the unchanged sources with SanitizerCoverage callbacks, and the simulator supplies the allocator and the libc entry points (futex, clocks, randomness, write) that the standard library uses.",source_commits=[]),
 checks=checks,not_applicable=[dict(property=i,reason=r) for i,r in NA.items() if i in ids],
 notes="Replay a violation with: sim/replay.sh FILE. Self-test of printer, model and repeatability: target/sim/release/dynsim selftest.")
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
