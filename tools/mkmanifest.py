#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
BB = "Drives the real command line program (built from the working tree, overflow checks on) as a black box; "
IN = "Calls the real functions through the hooked library; "
LIM = " Says nothing about executions that were not run; trusts the reference implementation in /verif/harness/mon/src."
C = {
"C01": ("black-box monitor: independent decoder over generated texts", BB + "an independent decoder must give back the input, for every Unicode scalar value in several contexts and for random texts."),
"C02": ("black-box monitor: reference encoder over generated texts", BB + "output compared with a reference encoder written from the documentation."),
"C03": ("black-box monitor: shortest-path oracle over generated token sets and texts", BB + "reported totals compared with a trie shortest path, as one fragment or split at paragraphs."),
"C04": ("in-process monitor: count reconciliation against all minimal tokenizations", IN + "counts are checked for conservation and against the exact range that minimal tokenizations allow; a black-box stage cross-checks merged pairs."),
"C05": ("ThreadSanitizer, fragment-event trace checker, stress with delays; Miri and AddressSanitizer in thorough runs", IN + "a job observer records which fragments the workers received (exactly once), totals are compared with a sequential run, a watchdog detects deadlock, TSan (and Miri with many scheduler seeds) detects data races; the CLI is run on files above 32 MiB."),
"C06": ("in-process trace checker over fragments; black box on files of several fragments", IN + "fragment streams are checked for concatenation, bounds and break positions at small limits; the CLI at the built-in limits."),
"C07": ("black-box monitor: save/load differential", BB + "generated and published sets are loaded and written again, compared by meaning and byte for byte."),
"C08": ("black-box monitor: validity and unique-decodability checker of optimizer output", BB + "every written set is checked, unique decodability with the Sardinas-Patterson test."),
"C09": ("black-box monitor: size and statistics oracle of optimizer output", BB + "the statistics record is recomputed with a shortest-path reference."),
"C10": ("black-box monitor: cost monotonicity over chains of runs", BB + "each result is compared with its input set by a shortest-path reference; steps without progress are detected on the step log."),
"C11": ("black-box monitor: token shape checker of optimizer output", BB + "every new token is inspected."),
"C12": ("black-box monitor: differential repetition under varied CPUs, load, clocks and hash seeds", BB + "outputs compared byte for byte."),
"C13": ("system-call fault injection with an LD_PRELOAD shim, /dev/full and file size limits", BB + "each read and write call of the recorded run is failed, shortened or interrupted; exit status and output are judged."),
"C14": ("in-process monitor of the byte optimizers; black box on final sets", IN + "results for random usage counts are checked for size, order and completeness."),
"C15": ("black-box monitor: reference count of characters", BB + "standard output compared with an exact count."),
"C16": ("black-box monitor: before/after comparison of pretty.py", "Runs the real pretty.py in scratch copies and compares parsed values, key order and idempotence."),
"C17": ("in-process trace checker of sampled fragments; black box on sizes", IN + "sampled paragraphs are located in the file and their spread is checked prefix by prefix."),
"C18": ("in-process model-based monitor over operation histories", IN + "random histories are mirrored in a simple model; all observable state is compared after each operation."),
"C19": ("in-process differential monitor over request histories", IN + "each answer of the cache is compared with a fresh tokenization."),
"C20": ("black-box monitor: differential of built-in and prior processing", BB + "outputs of both ways are compared byte for byte."),
"C21": ("black-box monitor: greedy-merge lower bound", BB + "sets with a unique minimal tokenization make the best merges certain; the result must be at least as good."),
"C23": ("black-box monitor: comparison of the file tree before and after each run", BB + "a tree with unrelated files is compared before and after each command, with and without errors."),
"C24": ("black-box monitor: concurrent runs compared with runs alone", BB + "groups of commands run at the same time with shared directories are compared with runs of their own; overlaps are counted."),
"C25": ("black-box monitor: peak memory (rusage) on files of growing size", BB + "peak resident memory on two CPUs is compared between a small and a several times larger file."),
"C26": ("black-box monitor: damaged token sets must be refused", BB + "valid sets are damaged in 29 ways; the commands must fail and leave the tokens directory alone."),
"C28": ("black-box monitor: growth of processor time", BB + "texts of many shapes in sizes sixteen times apart; the processor time (wait4) of each command may not grow more than 64-fold."),
"C29": ("black-box trace monitor: replay of the reported steps against the written token set", BB + "the reported changes are followed back from the written set to the initial one, and the bytes per token of each set on the way are recomputed with a shortest-path reference."),
"C30": ("black-box monitor: malformed UTF-8 must be refused", BB + "valid texts are damaged in 8 ways at any place, mostly around buffer and fragment limits, in files to 36 MiB; each of ten ways to read data must end with an error and leave the tokens directory alone."),
"C31": ("black-box metamorphic monitor: names, places, links, pipes, spelling", BB + "each command is run on plain files and then four times with the same contents under other names, in other places, through links and pipes, with other time stamps and options written otherwise; the results must be byte-identical."),
"C32": ("black-box metamorphic monitor: layouts of token set files", BB + "each token set is given once as a compact file and then in other layouts (white space, member order, escapes, lists of bytes, older names, meaningless members, pretty.py), for byte-identical results, and with its tokens and sequences listed in another order, for the same set and numbers."),
"C33": ("black-box monitor: new tokens looked up in the data", BB + "every new token of two or more bytes is searched for in the training data, on texts with fewer pairs than the request has room for, too."),
"C27": ("black-box monitor: contradictory and impossible requests", BB + "requests for other types, other processing, too few or huge numbers of tokens are met exactly or fail with the tokens directory unchanged."),
"C22": ("black-box monitor under a sped-up clock, with SIGKILL at checkpoint events", BB + "each file is copied when it is closed (LD_PRELOAD shim) and judged; runs are killed at random points."),
}
m = {"version": 1, "setup_cmd": "./check --build",
     "hooks": {"guard": "texmo_verif", "enable": "cfg texmo_verif, emitted by /verif/harness/sut/build.rs, which compiles /repo/src/main.rs as a library",
               "source_commits": ["e6b6589", "4d69553"]},
     "checks": [], "not_applicable": []}
for k in sorted(C):
    tech, note = C[k]
    m["checks"].append({"property": k, "quick_cmd": "./check " + k, "thorough_cmd": "VERIF_TIER=thorough ./check " + k,
                        "evidence_file": "evidence/%s.json" % k, "technique": "runtime monitoring: " + tech,
                        "level": "fault_enumeration" if k == "C13" else "exploration", "level_note": note + LIM})
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(path, "w"), indent=1)
open(path, "a").write("\n")
