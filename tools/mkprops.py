#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Processing is reversible",
  "Decoding the output of the process command by the documented rules gives back the input text exactly: an end-of-word marker turns into a space if it stands between two letters (ignoring case markers) and is dropped otherwise, a 'capitalized' marker upper-cases the next letter, an 'all-caps' marker upper-cases every letter of the following word. This holds for every UTF-8 text that does not itself contain the marker characters U+0014, U+0015 and U+0016, has Unix line ends and ends with a newline (a missing final newline is added).",
  ["inputs"], "every Unicode text without marker characters: every script and case mapping, every run of spaces, punctuation and newlines, every line length",
  "One test checks eleven short ASCII strings; reversibility depends on the case mapping of every Unicode letter and on every sequence of letter / space / other characters.",
  ["src/processing.rs", "src/main.rs"],
  [("add_word: case markers", "src/processing.rs"), ("process: word/space state machine", "src/processing.rs"), ("process_file: line by line copy", "src/processing.rs")],
  observe=["texmo process -d IN -o OUT: contents of OUT"])

p("C02", "Processing normalises words exactly as documented",
  "In processed text every maximal run of letters (Unicode alphabetic characters) is followed by exactly one end-of-word marker; a capitalized word (first letter upper-case, all others lower-case, a single capital included) appears as the 'capitalized' marker plus the same word in lower case, a longer all-upper-case word as the 'all-caps' marker plus the word in lower case, and any other word unchanged. A word whose capitals could not be recovered from lower case stays unchanged. A single space between two words is removed; every other character is kept, in order.",
  ["inputs"], "every Unicode text; every position of words relative to spaces, punctuation, line ends and the end of the file",
  "The existing test covers eleven strings of at most two words, one line each and only ASCII.",
  ["src/processing.rs"],
  [("get_char_type / State machine", "src/processing.rs"), ("add_word", "src/processing.rs")],
  observe=["texmo process -d IN -o OUT: contents of OUT"])

p("C03", "Reported token count is the minimum possible",
  "For any text and any valid token set, the reported number of tokens is the smallest number with which the text can be written as a concatenation of the set's tokens and fallback sequences (a sequence costs the number of its tokens), summed over the fragments the text was cut into. The reported number of scanned bytes is the length of the text, the reported initial size that of the unprocessed file, and bytes per token its ratio to the number of tokens.",
  ["inputs", "configurations"], "all texts (empty and megabytes long) and all valid token sets of all five types, including nested, overlapping, repetitive and very long tokens and bytes that are not valid UTF-8 by themselves",
  "Two tests tokenize one string each with six or fewer tokens; the automaton and the dynamic programme have to agree for every token set.",
  ["src/tokenizer2.rs", "src/batch_tokenize.rs", "src/stats2.rs"],
  [("suffix automaton construction", "src/tokenizer2.rs create_spans/create_suffix_states"), ("dynamic programme over span suffix chains", "src/tokenizer2.rs process_slice")],
  state=[("suffix_states", "Aho-Corasick style automaton over span prefixes", "src/tokenizer2.rs"), ("cost_state", "cheapest cost of each prefix", "src/tokenizer2.rs")],
  observe=["stats.total_tokens and stats.scanned_bytes in the JSON written by texmo convert-tokens"])

p("C04", "Usage counts describe one minimal tokenization",
  "The per-token, per-sequence and adjacent-pair counts returned with a tokenization are those of one actual minimal tokenization of each fragment: they account for every byte of the text exactly once, tokens used inside fallback sequences are included in the token counts, pairs are counted for directly adjacent whole tokens only, and the token counts sum to the reported total.",
  ["inputs", "configurations"], "all texts and valid token sets, single and multiple fragments",
  "No test looks at the counts at all; they steer every decision of the optimizer.",
  ["src/tokenizer2.rs", "src/stats2.rs"],
  [("back-tracing of the cheapest path", "src/tokenizer2.rs update_stats"), ("accumulation", "src/stats2.rs merge")],
  state=[("token_counts, seq_counts, pair_counts", "usage statistics", "src/stats2.rs")],
  observe=["TokenStats returned by tokenize_file"], hook="re-export of tokenize_file, TokenStats and the sampler trait (cfg texmo_verif)")

p("C05", "Parallel tokenization counts every fragment exactly once",
  "Tokenizing data with worker threads gives the same totals and the same token, sequence and pair counts as tokenizing its fragments one after another, whatever the number of fragments, their sizes, the number of available CPUs and the thread schedule. It always finishes, and it is free of data races.",
  ["schedules", "inputs", "configurations"], "all thread schedules, 1 to 8 CPUs, no fragments to thousands, uneven fragment sizes, slow and fast producers",
  "Every existing test is single-threaded and the parallel path needs at least 32 MiB of data.",
  ["src/batch_tokenize.rs", "src/stats2.rs"],
  [("job and result channels, shared receiver", "src/batch_tokenize.rs tokenize_file/worker"), ("merge of worker statistics", "src/stats2.rs merge")],
  state=[("jobs_rx", "queue shared by the workers", "src/batch_tokenize.rs")],
  observe=["TokenStats returned by tokenize_file", "stats in the output of convert-tokens and optimize on files above 32 MiB"],
  hook="re-export of tokenize_file and the sampler trait (cfg texmo_verif)")

p("C06", "Training data is read completely, exactly once and in order",
  "The fragments into which a data file is cut for tokenization, concatenated in order, are exactly the contents of the file, for every valid UTF-8 file and every fragment size limit. No fragment is empty, exceeds the limit or cuts a character in two, and every fragment but the last ends right after a blank line (two consecutive newlines) whenever the file has one that would let it.",
  ["inputs", "configurations"], "all file contents, lengths around multiples of the fragment limit, every alignment of blank lines and multi-byte characters with fragment ends, both the in-memory and the file reader",
  "No test covers the readers; a wrong cut needs megabytes of data aligned with a fragment end.",
  ["src/input/file_sampler.rs", "src/input/memory_sampler.rs", "src/input/util.rs", "src/input/sample.rs"],
  [("seek back to the paragraph end", "src/input/file_sampler.rs"), ("position arithmetic", "src/input/memory_sampler.rs"), ("find_paragraph_end, find_char_end", "src/input/util.rs")],
  observe=["fragments produced by the samplers", "stats.scanned_bytes in the output of convert-tokens and optimize"],
  hook="re-export of FileSampler, MemorySampler (cfg texmo_verif)")

p("C07", "Saving and loading a token set preserves it",
  "Loading a token set file and writing it again yields a token set with the same type, processing, paragraph flag, tokens and byte encodings; doing it once more reproduces the file byte for byte. This holds for every valid token set, including tokens that are not valid UTF-8, sequences of a single fallback token and those written in the older formats ('fallback_bits', 'all_tokens', without explicit sequences), and every published token set can be loaded and used.",
  ["inputs", "configurations"], "all valid token sets of all types, with and without explicit sequences, in any token order; the 49 published files",
  "One test serialises a bits4 set and parses it back without comparing or using the result.",
  ["src/tokenset.rs", "src/main.rs", "src/stats2.rs"],
  [("to_json", "src/tokenset.rs"), ("from_json", "src/tokenset.rs"), ("load_save_tokens", "src/main.rs")],
  observe=["JSON file written by texmo convert-tokens"])

p("C08", "Optimized token sets can encode every byte unambiguously",
  "In every token set the optimizer writes, tokens are distinct and non-empty, every one of the 256 byte values has exactly one encoding (its own token or one sequence of existing tokens), and any sequence of encodings can be decoded in only one way. For the bits1, bits2 and bits4 types a byte without its own token is encoded by its binary, base-4 or hexadecimal digits, most significant first; for the bytes type every byte has its own token.",
  ["inputs", "configurations"], "all training texts, both processing modes, all five token set types, all feasible sizes, with and without an input token set or --min-data-size",
  "No test runs the optimizer.",
  ["src/optimize.rs", "src/optimize_bytes.rs", "src/tokenset.rs"],
  [("optimize_bytes of each BytesOptimizer", "src/optimize_bytes.rs"), ("add_token / remove_token / sort", "src/tokenset.rs")],
  observe=["JSON file written by texmo optimize"])

p("C09", "The optimizer delivers the requested size with truthful statistics",
  "A successful optimize run writes one file named after the number of tokens, processing and type of the token set in it, with exactly the requested number of tokens; it has fewer only if every byte already has its own token and the data offers no further pair to merge. The statistics in the file are true of that set: ntokens is its size, total_tokens is its minimal token count on the full (processed) data, scanned_bytes is the size of that data, initial_size the size of the unprocessed file and bytes_per_token their ratio to total_tokens.",
  ["inputs", "configurations"], "all training texts, both processing modes, all types, all feasible sizes, with and without --processed-data, --input-tokens and --min-data-size",
  "No test runs the optimizer or looks at a statistics record.",
  ["src/optimize.rs", "src/main.rs", "src/stats2.rs", "src/batch_tokenize.rs"],
  [("optimize_tokenset_impl loop", "src/optimize.rs"), ("optimize_with_increasing_data", "src/main.rs"), ("TokenStats::to_json", "src/stats2.rs")],
  observe=["file name and JSON written by texmo optimize"])

p("C10", "Optimizing never makes a token set worse, and settles",
  "Starting from an input token set without sequences for strings of more than one byte, the result of an optimizer run over the whole data (without --min-data-size) needs no more tokens for the training data than the input set did, and growing the requested size never costs tokens compared with just keeping the input (except that a Huffman-coded set that must grow while no pair of tokens is left to merge gets a byte code built for counts one higher for every byte value, which can cost a few tokens on a tiny text). Every run terminates, whatever sizes are requested (an initial sample size of zero included), never accepting changes without end that gain nothing, and optimizing its own result again for the same data and size changes it only if that saves tokens or fills up a set that was smaller than requested.",
  ["inputs", "configurations", "histories"], "all training texts, types and sizes, chains of runs each starting from the previous result",
  "No test runs the optimizer; monotonicity is a property of the whole sequence of accepted changes.",
  ["src/optimize.rs", "src/optimize_bytes.rs", "src/batch_tokenize.rs"],
  [("optimization_step accepts only improvements", "src/optimize.rs"), ("remove_add_token", "src/optimize.rs")],
  observe=["JSON files written by consecutive texmo optimize runs"])

p("C11", "Tokens never reach across a paragraph break",
  "No token created by the optimizer contains a blank line (two consecutive newlines) followed by anything other than a newline. This holds even if such a token would be the most frequent, or the only possible, addition.",
  ["inputs", "configurations"], "all training texts, in particular short and repetitive ones with many blank lines; all types and sizes",
  "No test exercises is_valid_token or pair selection.",
  ["src/optimize.rs"],
  [("is_valid_token", "src/optimize.rs"), ("add_token_bpe", "src/optimize.rs")],
  observe=["tokens in the JSON written by texmo optimize"])

p("C12", "Results are reproducible",
  "Running the same command on the same files twice writes byte-for-byte identical output files, whatever the number of CPUs, the thread schedule, the process's hash seeds and the elapsed time.",
  ["schedules", "inputs", "configurations"], "all commands and options, repeated with different CPU counts, load and clocks",
  "A single test run sees one schedule and one set of hash seeds; the optimizer is never run twice.",
  ["src/optimize.rs", "src/batch_tokenize.rs", "src/optimize_bytes.rs", "src/tokenset.rs"],
  [("deterministic sorting of pairs and removal candidates", "src/optimize.rs"), ("canonical order of token sets", "src/tokenset.rs sort")],
  observe=["output files of repeated runs"])

p("C13", "A failed or partial read or write is never reported as success",
  "If any read of the input or write of the output fails, or the disk is full, the command exits with an error. If it exits successfully, its output file is complete and correct, even if the operating system split or interrupted reads and writes.",
  ["fault_sequences", "inputs"], "every read and write call of process, convert-tokens and optimize, failing with ENOSPC, EIO or EINTR or completing partially; /dev/full; output size limits",
  "No test injects an I/O fault.",
  ["src/processing.rs", "src/main.rs", "src/input/file_sampler.rs", "src/input/memory_sampler.rs"],
  [("error propagation and final flush in process_file", "src/processing.rs"), ("unwrap of every I/O result", "src/main.rs")],
  observe=["exit status and output file under injected faults"])

p("C14", "Byte tokens go to the most frequent bytes",
  "When single-byte tokens are allotted for given usage counts, the result has exactly the requested number of byte and extension tokens (or all 256 bytes if more are requested), keeps every longer token, and encodes every byte. In the bits types no byte without its own token is used more often than one that has one; in the Huffman type no byte whose code extends another byte's code is used more often than that other byte.",
  ["inputs", "configurations"], "all usage count distributions (zeros, ties, heavy skew, huge values), all budgets, all types with byte fallback",
  "No test calls the byte optimizers.",
  ["src/optimize_bytes.rs"],
  [("SimpleBytesOptimizer", "src/optimize_bytes.rs"), ("HuffOptimizer, optimize_splits, optimize_ext_encoding", "src/optimize_bytes.rs")],
  observe=["token set returned by the byte optimizers", "JSON written by texmo optimize"], hook="re-export of the byte optimizers and TokenStats (cfg texmo_verif)")

p("C15", "count-chars counts characters exactly",
  "count-chars reports the exact number of characters in the file, the exact number of occurrences of every character below U+0100 that occurs, and the highest character that occurs. This holds for every UTF-8 file, with or without a final newline.",
  ["inputs"], "all UTF-8 files",
  "No test runs count-chars.",
  ["src/main.rs"], [("count_chars", "src/main.rs")],
  observe=["standard output of texmo count-chars"])

p("C16", "Pretty-printing a JSON file never changes its meaning",
  "Running pretty.py on a UTF-8 JSON file whose strings are valid Unicode, whose numbers have at most 4000 digits and which is nested at most 200 levels deep succeeds and leaves a file that Python's json module parses to the same value (object keys and their order, list order, strings and numbers); running it again leaves the file as it is. A file that it cannot reformat (not JSON, not UTF-8, nested too deeply, strings that are not valid Unicode) is left as it was.",
  ["inputs"], "all JSON documents, in particular token sets with quotes, control characters, newlines and non-ASCII text, nested and empty containers, long and short lines; truncated, malformed, too deep and wrongly encoded files",
  "There is no test for pretty.py.",
  ["pretty.py"], [("serialize: line joining and comma placement", "pretty.py")],
  observe=["the rewritten file"])

p("C17", "Data samples consist of whole paragraphs spread evenly over the file",
  "The sample drawn for --min-data-size is a concatenation of whole paragraphs of the file in their original order. In every prefix of the file that ends with a paragraph, the sampled amount differs from its proportional share by no more than the longest paragraph, so the sample's size is within one paragraph of the requested size.",
  ["inputs", "configurations"], "all files (single paragraphs, runs of blank lines, no final newline) and all sample sizes below the file size",
  "No test covers sampling.",
  ["src/input/memory_sampler.rs", "src/main.rs"],
  [("sample_from_file", "src/input/memory_sampler.rs")],
  observe=["fragments of the sampler", "'Optimizing with N bytes of data' on standard output"], hook="re-export of MemorySampler (cfg texmo_verif)")

p("C18", "Editing a token set preserves the meaning of its encodings",
  "After any sequence of adding, removing and sorting operations, the token set contains exactly the tokens added and not removed, each once, and every remaining sequence still spells the same string with the same tokens as when it was added, although token numbers change. Adding a token for a string drops the sequence for that string and no other; size, long-token count, lookup and name always agree with the contents.",
  ["histories"], "all sequences of add_token, add_sequence, remove_token (of tokens not used in a sequence) and sort, from every starting set",
  "Two tests check one sort and one removal.",
  ["src/tokenset.rs"],
  [("remove_token: swap with last and renumber", "src/tokenset.rs"), ("sort: permutation of indices in sequences", "src/tokenset.rs"), ("add_token: drop shadowed sequence", "src/tokenset.rs")],
  state=[("tokens, sequences", "token indices inside sequences refer to positions in tokens", "src/tokenset.rs")],
  observe=["public fields and methods of TokenSet after each operation"], hook="re-export of TokenSet (cfg texmo_verif)")

p("C19", "Cached tokenization statistics equal freshly computed ones",
  "Whatever was asked before, statistics obtained through the tokenization cache for a token set describe exactly that token set on that data: totals, per-token and per-sequence counts equal those of a fresh tokenization, and pair counts are complete whenever they are requested.",
  ["histories", "inputs"], "all sequences of requests, with and without pair counts, over token sets that differ in one token, one sequence, their order, type or processing",
  "No test uses the cache.",
  ["src/batch_tokenize.rs", "src/stats2.rs"],
  [("TokenizerCache get_stats / get_stats_with_pairs / get_key", "src/batch_tokenize.rs"), ("clone_without_pairs", "src/stats2.rs")],
  state=[("cache", "statistics by serialised token set", "src/batch_tokenize.rs")],
  observe=["TokenStats returned by the cache"], hook="re-export of TokenizerCache (cfg texmo_verif)")

p("C20", "Built-in processing equals processing beforehand",
  "For a caps-words token set, convert-tokens and optimize give the same token set and statistics whether they process the raw file themselves or are given the output of the process command as processed data. Raw token sets are always applied to the raw file unprocessed.",
  ["inputs", "configurations"], "all texts, both commands, both processing modes, all token set types",
  "No test covers either command.",
  ["src/main.rs", "src/processing.rs"],
  [("maybe_process_file", "src/main.rs")],
  observe=["JSON files written by texmo convert-tokens and optimize"])

p("C21", "Adding a token is at least as good as one greedy BPE merge",
  "Given a token set of the bytes type with k tokens and a request for k+1, the optimizer's result needs no more tokens for the data than the set extended with a most frequent pair of adjacent tokens (among pairs that do not reach across a paragraph break) of a minimal tokenization of the data.",
  ["inputs"], "all training texts and bytes-type token sets",
  "No test runs the optimizer or the pair selection.",
  ["src/optimize.rs", "src/tokenizer2.rs"],
  [("add_token_bpe: pairs by descending count", "src/optimize.rs"), ("pair_counts", "src/tokenizer2.rs update_stats")],
  observe=["JSON files written by texmo optimize"])

p("C22", "Checkpoints of a long optimization are usable token sets",
  "Every token set file that an optimization has finished writing, including the checkpoints written about once a minute, is a complete, loadable token set with unambiguous encodings for all bytes, named after its own size, processing and type, no bigger than requested. If the run is interrupted, the files finished before that stay that way. Writing checkpoints does not change the final result.",
  ["schedules", "crash_points", "inputs"], "interruption at every point between checkpoint writes; arbitrarily fast or slow clocks; all types and sizes",
  "Checkpoints are only written in runs of more than a minute; no test runs the optimizer.",
  ["src/optimize.rs"],
  [("save_tokens every 60 s", "src/optimize.rs optimize_tokenset_impl")],
  observe=["files in the tokens directory, with the process's clock sped up"])

p("C23", "Commands change nothing but their output",
  "A successful command creates or changes only its output: process the file named by -o, convert-tokens and optimize files in the tokens directory that hold a token set and are named after it (of the processing and type asked for, no bigger than asked for); count-chars nothing. Temporary files are gone when it ends. Input files, an input token set of another size, and unrelated files in the input, output, working and temporary directories stay as they are, even if the command fails; if it fails because a file it has to read is missing or the input token set is damaged, an older version of the output stays as it was, too. (Naming the same file as input and output of process, or links, are outside of this.)",
  ["inputs", "configurations", "fault_sequences"], "all commands and options, trees with any other files (older results, files with temporary names, other token sets), input and output directories apart or the same, missing and damaged inputs",
  "No test runs a command; what a command does to the files around it is not visible in its result.",
  ["src/main.rs", "src/optimize.rs"],
  [("order of opening inputs and creating the output", "src/main.rs process"), ("temporary file for processed data", "src/main.rs maybe_process_file"), ("output file names", "src/main.rs save_tokens, load_save_tokens")],
  observe=["contents of all files of a scratch tree before and after a run"])

p("C24", "Commands running at the same time do not disturb each other",
  "Several commands run at the same time, sharing the data files, the working directory, the directory for temporary files and the tokens directory, but with outputs of different names, each write exactly what they write when run alone.",
  ["schedules", "inputs", "configurations"], "all combinations of commands over equal and different data files, all overlaps in time",
  "No test runs a command, let alone two at once; interference needs shared temporary names or files and overlapping runs.",
  ["src/main.rs", "src/optimize.rs"],
  [("unique temporary file for processed data", "src/main.rs maybe_process_file"), ("output file names", "src/main.rs save_tokens, load_save_tokens")],
  observe=["output files of overlapping runs"])

p("C25", "Memory use does not grow with the size of the data",
  "The peak memory use of process, count-chars and convert-tokens (with a fixed number of CPUs) is bounded independently of the size of the data file, as long as its lines are not excessively long: a file several times as big, and bigger than that peak, needs no more memory than one of 200 MiB.",
  ["inputs", "schedules"], "files of hundreds of megabytes and more, raw and processed, whatever the relative speed of reading and tokenizing",
  "No test reads a file at all; the bound only shows on files larger than memory buffers and queues.",
  ["src/batch_tokenize.rs", "src/input/file_sampler.rs", "src/processing.rs", "src/main.rs"],
  [("bounded job queue", "src/batch_tokenize.rs tokenize_file"), ("fragment by fragment reading", "src/input/file_sampler.rs"), ("line by line copy", "src/processing.rs process_file"), ("reused line buffer", "src/main.rs count_chars")],
  observe=["peak resident memory of the process"])

p("C26", "Damaged or unusable token sets are refused",
  "A file that is not a proper token set is refused: convert-tokens, and optimize given it as the input token set, end with an error without creating or changing any token set file. This holds for anything that is not exactly one complete JSON document, a missing or unknown type or processing, a paragraph flag that is not a boolean, a wrong number of fallback tokens for the bits and bytes types, tokens that are empty, listed twice or of another kind than strings, lists of bytes and numbers, byte values and fallback token numbers outside 0 to 255, fallback tokens not numbered 0, 1, 2 and so on, and sequences that are incomplete, refer to tokens that are not in the set, or encode nothing, a string that is a token itself or one that another listed sequence encodes. convert-tokens also ends with an error, without writing anything, if the set cannot encode the text.",
  ["inputs"], "every valid token set of every type with any of these kinds of damage at any place, whether or not the text needs the damaged part",
  "No test loads a damaged token set; one that is silently taken for another set gives wrong counts from then on.",
  ["src/tokenset.rs", "src/main.rs", "src/tokenizer2.rs"],
  [("from_json, parse_token", "src/tokenset.rs"), ("read_token_set", "src/main.rs"), ("create_spans", "src/tokenizer2.rs")],
  observe=["exit status and tokens directory after loading a damaged file"])

p("C27", "An optimize request is met exactly or refused",
  "An optimize run that succeeds delivers what the command line asked for: a usable token set of the requested type and the requested processing, with no more tokens than requested and the paragraph flag of the input token set (true without one), whose statistics are true of the data processed in that way - also when the input token set has another type, other processing or more tokens. If that is not possible (fewer tokens than the type needs, an input token set that cannot be turned into one of the requested kind or size, an option that is missing, unknown or not a number) the command fails and no token set file is created or changed (checkpoints of a long run aside). A request without such a contradiction succeeds (Huffman sets with more than 257 byte and extension tokens, and input sets with sequences for strings of more than one byte, which no optimizer run makes, aside).",
  ["inputs", "configurations"], "all combinations of requested type, processing and number of tokens (from none at all to the largest representable) with no input token set or one of any type, processing and size",
  "No test runs the optimizer; the combinations are many and the failing ones depend on both the options and the input token set.",
  ["src/main.rs", "src/optimize.rs", "src/optimize_bytes.rs"],
  [("optimize, Args", "src/main.rs"), ("optimize_tokenset", "src/optimize.rs"), ("asserts on the number of tokens", "src/optimize.rs")],
  observe=["exit status of texmo optimize, files in the tokens directory"])

p("C28", "Work grows in proportion to the data",
  "The processor time that process, count-chars and convert-tokens use grows no faster than in proportion to the size of the data (constant factors up to 4 and 50 ms aside), whatever its words, lines and paragraphs look like: a file of sixteen times the size and the same kind of contents does not take more than sixteen times as long - texts that are one single long word, line or paragraph and texts of nothing but spaces or line ends included.",
  ["inputs"], "all texts, of any shape, from tens of kilobytes up",
  "No test measures anything; work that grows with the square of a line or of the file shows only with large texts of a special shape.",
  ["src/processing.rs", "src/tokenizer2.rs", "src/input/file_sampler.rs", "src/input/util.rs", "src/main.rs"],
  [("process, process_file", "src/processing.rs"), ("process_slice", "src/tokenizer2.rs"), ("count_chars", "src/main.rs")],
  observe=["processor time of the commands (wait4)"])

p("C29", "The progress report of a command is true",
  "What optimize and convert-tokens announce on standard output is true. The changes that optimize reports (tokens removed -> tokens added) lead, one after another, from the token set it starts with to the one it writes; the announced initial number of tokens is the size of that starting set, and every announced number of bytes per token is the size of the data at hand (processed, and for a sample that sample) divided by the minimal number of tokens of the set at hand. No reported change makes the set bigger than requested, and one that adds no token raises the bytes per token. The announced output files and token set names are those written and used.",
  ["inputs", "configurations", "histories"], "all optimizer runs, of every type, with and without processing, an input token set and data samples, and all conversions",
  "No test runs the optimizer or reads what it prints; a wrong line in the log shows only if it is compared with the sets it speaks of.",
  ["src/optimize.rs", "src/main.rs", "src/stats2.rs"],
  [("show_tokenset_diff, remove_add_token", "src/optimize.rs"), ("optimize_with_increasing_data, load_save_tokens", "src/main.rs"), ("bytes_per_token", "src/stats2.rs")],
  observe=["standard output of texmo optimize and convert-tokens"])

p("C30", "Data that is not UTF-8 is refused",
  "If the data a command reads contains a malformed UTF-8 sequence anywhere (a stray or missing continuation byte, an overlong form, a surrogate, a value beyond U+10FFFF, a last character cut short), process, count-chars, convert-tokens and optimize end with an error, and no token set file is created or changed. The same data without that sequence is accepted.",
  ["inputs"], "all malformed sequences at any place of files of any size, raw or processed beforehand, with and without data samples",
  "No test reads malformed data; it is silently replaced or skipped on some paths only, depending on the command, the option and the size of the file, and the statistics are then those of another text.",
  ["src/input/sample.rs", "src/input/file_sampler.rs", "src/input/memory_sampler.rs", "src/processing.rs", "src/main.rs"],
  [("from_vec, from_bytes", "src/input/sample.rs"), ("process_file", "src/processing.rs"), ("count_chars", "src/main.rs")],
  observe=["exit status of each command, tokens directory"])

p("C31", "Names and places of files do not matter",
  "What process, count-chars, convert-tokens and optimize produce depends on the contents of their input files and the values of their options only. Under any file name and extension, in any directory, given by absolute or relative path, through symbolic or hard links or (for process and count-chars) a pipe, with any time stamps and permissions that allow reading, whatever other files lie beside them, with any writable directory for temporary files and with options in any order and spelling, the command succeeds as it does on plain files and what it writes is the same; an output named through a symbolic link is written where the link leads, and process can write into a named pipe.",
  ["inputs", "configurations"], "all file names, places, kinds of link, option spellings and directories for temporary files, for every command",
  "Tests work on in-memory data or one file; a name with a space, a link, a dot in a directory or another extension takes another path only if the code looks at names, and then silently.",
  ["src/main.rs", "src/processing.rs", "src/input/file_sampler.rs", "src/tokenset.rs"],
  [("main, open_file, load_save_tokens", "src/main.rs"), ("process_file", "src/processing.rs"), ("FileSampler", "src/input/file_sampler.rs")],
  observe=["files written and standard output of each command"])

p("C32", "The layout of a token set file does not matter",
  "What convert-tokens and optimize make of a token set file depends on the token set it describes only. White space, the order of object members, escapes in strings, tokens written as strings or as lists of their bytes, the places of the fallback tokens in the list of tokens, the older names of a type ('all_tokens', 'fallback_bits' with its number of bits), a paragraph flag that is false or left out, members that say nothing about the set (statistics of another set included) and reformatting by pretty.py do not change what is written. If the other tokens or the sequences are listed in another order, or the usual encodings of a bits type are left out, the written set has the same tokens and sequences and the same totals.",
  ["inputs", "configurations"], "all valid token sets in all JSON layouts, for conversions and as input of the optimizer",
  "Tests write one compact layout; published sets are reformatted by pretty.py and edited by hand, and a reader that depends on the layout gives other numbers or refuses a proper file.",
  ["src/tokenset.rs", "src/main.rs", "pretty.py"],
  [("from_json, parse_token", "src/tokenset.rs"), ("read_token_set", "src/main.rs"), ("serialize", "pretty.py")],
  observe=["files written by texmo convert-tokens and optimize"])

p("C33", "New tokens occur in the training data",
  "Every token of more than one byte that an optimizer run adds (one in the written token set that the input token set does not have) occurs as a string of bytes in the training data (the processed data, for a processed token set). No token is made up to fill the set to the requested size, whatever the size of the data and of the request, the type of the set, the input token set and the data samples used.",
  ["inputs", "configurations"], "all optimizer runs on all data, types, sizes, input token sets and sample sizes",
  "No test runs the optimizer; a token that stands for nothing in the data leaves every other number true and shows only in the list of tokens.",
  ["src/optimize.rs", "src/tokenizer2.rs", "src/stats2.rs", "src/input/memory_sampler.rs"],
  [("add_token_bpe", "src/optimize.rs"), ("update_stats", "src/tokenizer2.rs"), ("sample_from_file", "src/input/memory_sampler.rs")],
  observe=["token set files written by texmo optimize"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
