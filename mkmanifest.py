#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = "deterministic simulation: seeded schedules, memory contents, divided backend work and injected failures, judged against a scalar reference model"
NOTE = {
 'C01': "Seeded exploration of lengths, operand kinds, values (incl. NaN/Inf/-0), team sizes and interleavings of the element-wise operations; bit-exact reference for sum, difference, negation. Trusts the simulated OpenMP runtime and BLAS to be within what their specifications allow.",
 'C02': "Seeded interleavings of 2-8 clients (and library calls inside the caller's own parallel regions) on shared constant objects, with a happens-before race check on every access. Memory inside real BLAS/LAPACK is covered by range checks at the call only.",
 'C03': "Seeded interleavings of clients with private objects, nested parallel regions, stalled threads; race check, deadlock and bounded-progress check (80 to 250 million events per run).",
 'C04': "Histories of vector and multi-column solves on one solver judged by residual and by a long-double reference solve; well-conditioned systems only.",
 'C05': "Breakdown at every position, singular systems and LAPACK failures injected at each call.",
 'C06': "Each run makes one allocation (seed-chosen position) inside a call fail and judges outcome, operands, leaks and the retry. Termination is an accepted outcome.",
 'C07': "Histories over a pool of sparse matrices against a std::map model, with allocation failures.",
 'C08': "Histories of growth, writes, copies, moves, rejected extensions and back substitution against a dense model, with allocation failures.",
 'C09': "Shapes, aliasing, alpha/beta, three backends; the BLAS is real or a simulated backend that divides its work by seed; long-double reference.",
 'C10': "Guard-zone and liveness check of every instrumented access and of backend extents, differential runs under different memory contents and reuse, leak check over repetitions.",
 'C11': "Well-conditioned systems up to order 140 with zero, unit, eigenvector and low-degree right-hand sides, repeated and concurrent solves; residual and iteration bounds.",
 'C12': "Histories and concurrent use of families of copies against independent models.",
 'C13': "Mismatching lengths and structural zeros at seed-chosen points of histories; exception type and operand content are judged.",
 'C14': "Simulated division of the summation by the backend, all lengths from 0; error bound of a summation against long double.",
 'C15': "All operand kinds, values and aliasing of the overloads; long-double reference.",
 'C16': "Histories of reads and writes over all access paths against a dense model.",
 'C18': "The accelerator configuration (LALIB_USE_ACCELERATOR) on a simulated device: absent, sharing the host's memory, or with a memory of its own that only mapped ranges reach; any league and team sizes; concurrent callers. The device code itself runs as host code.",
}
NA = [
 {"property": "C17", "reason": "Whether a program compiles is settled before anything runs: there is no execution, schedule, fault or input for a simulator to decide."},
]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none (no hooks in /repo: every source of nondeterminism is reached from outside through the compiler's instrumentation calls, the OpenMP/C library entry points and the allocator)", "enable": "not needed: sim/build.py compiles the headers of the working tree with -fopenmp -fsanitize=thread and links the simulator in place of the OpenMP, TSan, thread and malloc runtimes", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough", "technique": TECH, "level": "exploration", "level_note": NOTE[p], "evidence_file": f"evidence/{p}.json"} for p in NOTE],
     "not_applicable": NA,
     "notes": "Replay a violation with: python3 check.py replay <path>. Known findings: known_findings.txt."}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
