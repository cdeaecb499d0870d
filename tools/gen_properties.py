#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay uniform)."""
import json, os

RX = "packages/compiler/src/regex.rs"
CC = "packages/compiler/src/circom.rs"
H2 = "packages/compiler/src/halo2.rs"
LIB = "packages/compiler/src/lib.rs"
CLI = "packages/compiler/src/bin/compiler.rs"
CW = "packages/compiler/src/wasm.rs"
EX = "packages/apis/src/extract_substrs.rs"
PD = "packages/apis/src/padding.rs"
AW = "packages/apis/src/wasm.rs"
HELP = "packages/circom/circuits/regex_helpers.circom"

TESTS_C = ("No test that runs without circom looks at generated circuits: the compiler's one unit test matches a few "
           "dozen strings against seven raw regexes, and the circom tests sample a handful of messages per regex. ")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Circuit soundness: an accepted message contains a match",
  "For every decomposed or raw regex the compiler accepts within its documented limits and every message of bytes 0..254, if the generated circuit outputs out = 1 then the message contains a substring (bytes other than the zero padding) that matches the regex, begin and end anchors included. No byte value, position, repeated or partial occurrence, interior zero or invalid UTF-8 makes the circuit accept a message without a match.",
  ["inputs", "programs"], "all supported regexes x all messages of all lengths x all values of msg_bytes",
  TESTS_C + "Soundness quantifies over all regexes and all (adversarial) messages.",
  [RX, CC, HELP], [("DFA construction and part concatenation", RX + ": get_regex_and_dfa, add_dfa"),
   ("state transition gates", CC + ": generate_state_transition_logic"), ("accept gate", CC + ": generate_accept_logic"),
   ("OR / NOR helpers", HELP)], ["signal out of the evaluated circuit"])
p("C02", "Circuit completeness: a reachable match is accepted",
  "Every supported regex compiles, and its circuit has a satisfying witness for every message of bytes 0..254, with out = 1 whenever the left-to-right scan of the message (extend the current attempt while it is a prefix of some match, otherwise start over at the current byte; where a byte at a part boundary fits both the current part and the next one, the next part takes it) completes a match. In particular a message that consists of a match, or of bytes that cannot start a match followed by a match and any suffix, is accepted.",
  ["inputs", "programs"], "all supported regexes x all messages x all msg_bytes",
  TESTS_C + "Completeness quantifies over every byte of every character class and every state of every automaton.",
  [RX, CC, HELP], [("transition parsing from the DFA dump", RX + ": parse_states, process_edge, parse_char"),
   ("range and equality checks", CC + ": optimize_char_ranges, add_range_check, add_eq_check"),
   ("restart gate", CC + ": add_from_zero_enabled, add_zero_starting_state_updates")], ["signal out", "compile result"])
p("C03", "Reveal outputs expose exactly the public bytes of completed matches",
  "For every supported decomposed definition and message, reveal_i at position j equals the message byte when that byte was consumed by the i-th public part during a run of the scan (as in C02) that completes a match, up to the last completion of that run, and is 0 otherwise; when out = 0 every reveal output is 0. A byte consumed by a private part, by an abandoned attempt, or outside any match is never revealed; with an end anchor only the run that completes at the end of the message counts, and the byte of a begin alternative X in (X|^) counts as private.",
  ["inputs", "programs"], "all supported decomposed regexes with any number of public parts x all messages",
  TESTS_C + "Privacy and integrity of the revealed bytes must hold on messages with partial, repeated, adjacent and abandoned matches.",
  [RX, CC, HELP], [("public edge collection and renumbering", RX + ": process_public_regex, update_public_edges"),
   ("consecutive-run logic", CC + ": write_consecutive_logic"), ("reveal gates", CC + ": write_prev_states, write_is_substr, write_is_reveal_and_reveal")],
  ["signals reveal0..revealK"])
p("C04", "The message determines all outputs; sentinel and larger values are rejected",
  "In every generated circuit the constraints alone fix out and all reveal outputs: a prover who assigns any unconstrained or hinted signal differently, or changes any other witness value, cannot satisfy the constraints with different outputs for the same message. A message value of 255 (the start-of-string sentinel) or 256..510, or any other value outside 0..254 has no satisfying witness (the field value -1 is outside this property).",
  ["inputs", "programs", "fault_sequences"], "all generated circuits x all messages x all faulty assignments by the prover",
  "The circom tests only compute honest witnesses; under-constrained signals and missing range checks are invisible to them.",
  [CC, HELP], [("every signal is bound by <== and inputs are range-checked", CC + ": generate_declarations, add_state_transition, add_state_update"),
   ("helper templates", HELP)], ["constraint system of the generated circuit", "satisfiability of tampered witnesses"])
p("C05", "Every generated circom file is a complete, valid circuit",
  "Whatever supported regex, template name, output route and substring option is used, the emitted file is one complete circom template with that name and one parameter, with input msg[msg_bytes], outputs out and (when substrings are generated) one reveal array per public part in order, in which every component and signal is declared within bounds, assigned exactly once and before use, and every constraint is quadratic. It instantiates for every message length from 1 up.",
  ["inputs", "programs", "configurations"], "all supported regexes x template names x gen_substrs on/off x msg_bytes >= 1",
  "No running test compiles the output; upstream's tests compile about 35 fixed circuits with substrings on.",
  [CC, LIB], [("declarations and counters", CC + ": generate_declarations, generate_state_transition_logic"),
   ("template emission", CC + ": gen_circom_template, gen_circom_string, add_substrs_constraints")], ["text of the emitted file"])
p("C06", "Raw regex compilation preserves the language byte for byte",
  "For every raw regex with a single accepting state, the exported automaton (the allstr transition table) accepts exactly the byte strings that match the whole regex: nothing is lost or added for any byte value, including separators, quotes, backslashes, spaces, control characters and multi-byte UTF-8. This covers alternation at the top level and ranges of any width.",
  ["inputs", "programs"], "all raw regexes x all byte strings",
  "test_dfa_graph checks seven regexes on 33 strings; the automaton is recovered by pattern-matching a debug dump whose notation differs for many byte values.",
  [RX, H2], [("debug dump parsing", RX + ": convert_dfa_to_graph, parse_states, parse_transition, process_state_edges"),
   ("table writer", H2 + ": dfa_to_regex_def_text")], ["allstr.txt"])
p("C07", "Decomposed compilation is exact concatenation, whatever the split",
  "For every supported decomposed definition in which no byte at a part boundary fits both the current part and the next one, the exported automaton accepts exactly the concatenation of the parts' languages (with the start-of-string sentinel where the begin anchor allows it). As long as the boundaries stay unambiguous in this sense, splitting a part in two, merging adjacent private parts, or changing which parts are public never changes the set of accepted strings.",
  ["inputs", "programs"], "all supported decomposed definitions x all byte strings",
  "No Rust test compiles a decomposed definition at all.",
  [RX], [("part merging", RX + ": get_regex_and_dfa, rename_states, add_dfa, merge_edges, process_accept_state")], ["allstr.txt"])
p("C08", "The exported table is a well-formed deterministic automaton",
  "In every exported transition table no state has two transitions on one byte. For every raw regex with one accepting state and every decomposed definition without ambiguous part boundaries (see C07), the table names start state 0, one accepting state and the largest state id; ids are contiguous from 0, every transition goes to an existing state, every state is reachable from the start and can reach the accepting state, only byte values 0..255 appear, and 255 only as the start-of-string sentinel leaving state 0.",
  ["inputs", "programs"], "all supported regexes, raw and decomposed",
  "No test reads an exported table.",
  [RX, H2], [("renumbering", RX + ": sort_and_rename_states, rename_states"), ("table writer", H2 + ": dfa_to_regex_def_text")], ["allstr.txt"])
p("C09", "The begin anchor binds to the start of the message and nowhere else",
  "A definition whose first part starts with ^ matches only at message position 0; one whose first part starts with (X|^) or (^|X) matches at position 0 or directly after X, and nowhere else. A caret that is escaped or inside a character class is an ordinary character and never acts as an anchor.",
  ["inputs", "programs"], "all supported anchored definitions x all messages",
  "Caret handling is only exercised by five circom test circuits that do not run here, on a few messages.",
  [RX, CC], [("caret detection and split", RX + ": find_caret_index, process_caret_in_regex"),
   ("sentinel edge", RX + ": handle_caret_regex, modify_graph_for_caret"), ("sentinel byte", CC + ": in[0] <== 255")], ["signal out", "allstr.txt"])
p("C10", "The end anchor binds to the end of the message and nowhere else",
  "A regex ending in an unescaped $ is accepted only if a match ends exactly at the last byte before the zero padding (or at the end of a completely filled message), whatever earlier matches occur; without a trailing $ anchor, and for an escaped dollar, the circuit imposes no such condition. A trailing $ applies to the whole definition, also when the last part is an alternation.",
  ["inputs", "programs"], "all supported end-anchored regexes (raw and decomposed) x all messages x all amounts of padding",
  "Two circom test circuits with a handful of messages, all padded; they do not run here.",
  [RX, CC], [("anchor detection", RX + ": validate_end_anchor, create_regex_and_dfa_from_str_and_defs"),
   ("padding counter and end check", CC + ": generate_accept_logic")], ["signal out"])
p("C11", "Halo2 tables describe the same matcher and substrings as the circom circuit",
  "For every supported decomposed definition the Halo2 files define the same matching and revealing behaviour as the circom template generated from it: scanning any message of bytes 1..254 with allstr.txt (and, for an end anchor, asking for acceptance at its end) gives the circuit's out, and the i-th substr file lists exactly the transitions that reveal_i exposes. Its first two lines name exactly the states in which the i-th public part can begin and end.",
  ["inputs", "programs", "configurations"], "all supported definitions x all messages; any number of public parts",
  "The Halo2 writer is not covered by any test.",
  [H2, RX, CC, LIB], [("table writer", H2 + ": gen_halo2_tables"), ("boundaries", RX + ": process_public_regex")], ["allstr.txt", "substr_i.txt", "circuit outputs"])
p("C12", "Unsupported or malformed definitions are refused with an error, never a crash",
  "For every malformed definition (bad JSON, missing fields or files, no parts, a part that is not a valid regex by itself, a part other than the last that ends in an unescaped $) or one the circuit cannot represent (a part or regex that matches nothing, several accepting states), every compiler entry point that produces a circuit or a transition table returns an error (the CLI prints it and exits non-zero) instead of panicking. A refused compilation leaves previously existing output files as they were and creates none.",
  ["inputs", "programs"], "all definition strings and all entry points",
  "The error paths of the compiler have no tests.",
  [RX, CC, LIB, CLI, H2], [("validation", RX + ": validate_end_anchor"), ("accept-node checks", CC + ": build_reverse_graph, generate_accept_logic"),
   ("error type", "packages/compiler/src/errors.rs")], ["return value, process exit status, stderr, output directory"])
p("C13", "Compilation is a pure function of its input",
  "Compiling the same definition gives byte-identical output in every run, process and thread, whatever was compiled before, concurrently, or stored at the output path, and regardless of the output location or template name (apart from the name itself). Compilations running in parallel do not affect each other.",
  ["inputs", "schedules", "histories"], "all definitions x histories of earlier compilations x thread schedules",
  "Tests compile each regex once, sequentially.",
  [RX, CC, H2, LIB], [("ordered collections", RX + ": BTreeMap/BTreeSet throughout"), ("file creation truncates", CC + ": gen_circom_template")], ["bytes of emitted files"])
p("C14", "All compiler front ends emit the same circuit",
  "For every supported definition the CLI, the Rust API and the wasm API (JSON string and JS object forms) emit the same circom text and the same automaton, for decomposed and raw input. Omitting an optional output or flag changes only what that option controls.",
  ["inputs", "configurations"], "all supported definitions x entry points x option combinations",
  "The CLI and the compiler's wasm API are compiled but not run by any test here.",
  [LIB, CLI, CW], [("CLI", CLI), ("wasm bindings", CW), ("file API", LIB + ": gen_from_decomposed, gen_from_raw, gen_circom_from_decomposed_regex")], ["emitted text from each entry point"])
p("C15", "Raw substring definitions reveal exactly the selected transitions",
  "When a raw regex is compiled with a list of state transitions per substring, reveal_i at position j equals the message byte if the scan step at j, within a run that completes a match, took one of the i-th list's transitions, and 0 otherwise. The transitions are ones of the exported table and state numbers are those of that table, and the order and repetition of transitions in the JSON do not matter.",
  ["inputs", "programs"], "all raw regexes with one accepting state x all transition subsets x all messages",
  "Only one raw definition is exercised, by a circom test that does not run here.",
  [LIB, RX, CC], [("definition loading", LIB + ": load_substring_definitions_json, gen_from_raw"), ("reveal gates", CC + ": write_substr_logic")], ["signals reveal0..K"])
p("C16", "The bundled circuits implement their bundled definitions",
  "Each circuit shipped in packages/circom/circuits/common behaves, for every message, exactly as its definition requires (acceptance and reveal), which is also how the circuit behaves that the compiler emits today for that definition. The definitions used by the extraction APIs and those shipped with the circuits describe the same fields.",
  ["inputs"], "all bundled circuits x all messages",
  "The circom tests need circom and sample a few e-mail headers.",
  ["packages/circom/circuits/common", "packages/apis/src/decomposed_defs", HELP], [("committed circuits and definitions", "packages/circom/circuits/common")], ["circuit outputs", "regenerated text"])
p("C17", "Padding and trailing capacity are inert",
  "For every generated circuit, a message's out and reveal outputs do not depend on how many zero bytes follow it: any msg_bytes large enough for the content gives the same out and the same revealed bytes at the same positions. A zero byte never advances, completes or continues a match.",
  ["inputs", "configurations"], "all supported regexes x contents x all capacities, including content that exactly fills msg_bytes",
  "Each circom test circuit is instantiated for one fixed size with padding.",
  [CC], [("zero byte excluded from all checks", CC + ": generate_state_transition_logic"), ("loop bounds", CC + ": write_consecutive_logic, generate_accept_logic")], ["circuit outputs at several sizes"])
p("C18", "Success means complete outputs",
  "When a compiler entry point (Rust file API, in-memory API, CLI) reports success, every requested output file (the circom file; allstr.txt and, when substrings are generated, one substr_<i>.txt per public part of a decomposed definition) exists with its complete content, whatever stood there before. When an output cannot be created or written in full (no such directory, a directory in the file's place, a full device, a write that fails or comes up short at any byte), the call returns a descriptive error (the CLI prints it and exits with status 1); it never reports success and never crashes.",
  ["crash_points", "inputs", "configurations"], "all definitions x all outputs x all points at which creating or writing a file can fail",
  "No test makes a write fail; all write into fresh temporary files.",
  [LIB, H2, CC, CLI], [("output generation", LIB + ": generate_outputs"), ("Halo2 files", H2 + ": gen_halo2_tables"), ("circom file", CC + ": gen_circom_template")],
  ["returned Result or exit status", "files on disk"])
p("C19", "The helper templates compute what circuits rely on",
  "In regex_helpers.circom, for every n >= 1, MultiOR(n) and MultiNOR(n) output the OR and the NOR of n bits; ORAnd outputs (a OR b) AND c for three bits; IsNotZeroAcc outputs acc plus 1 if its input is not zero and acc otherwise, and LastNotZero(idx) outputs idx if its input is not zero and acc otherwise, for all field elements. The constraints alone determine these outputs: no other assignment to hinted signals satisfies them with another output.",
  ["inputs", "configurations"], "all parameters x all inputs x all assignments of unconstrained signals",
  "No test evaluates the templates; the circom tests only use them inside circuits and do not run here.",
  [HELP], [("MultiOR, MultiNOR, ORAnd, IsNotZeroAcc, LastNotZero", HELP)], ["signal out of the instantiated template"])
p("A01", "Extraction returns the leftmost match, split exactly at part boundaries",
  "For every decomposed regex and input, extraction locates the leftmost match of the concatenated parts and returns, for each requested part in order, the byte range that this part matched; the ranges of consecutive parts are adjacent and together cover the match. Groups, escapes, classes and flags inside a part affect only that part's own matching, never which ranges are reported. (Numbered back-references, and a defect of the regex engine, are recorded exceptions.)",
  ["inputs", "programs"], "all decomposed regexes x all input strings",
  "The unit tests check about a dozen fixed (regex, input) pairs.",
  [EX], [("pattern assembly and capture lookup", EX + ": extract_substr_idxes")], ["returned ranges"])
p("A02", "Private parts are disclosed only on request, and visibility never moves a range",
  "With reveal_private = false the result has exactly one entry per public part, in order, and equals the sub-sequence at public positions of the reveal_private = true result, which has one entry per part. Changing a part's visibility flag never changes any range, and no string returned for a public-only request covers bytes of a private part.",
  ["inputs", "configurations"], "all decomposed regexes x visibility assignments x inputs",
  "Three fixed two-part examples.",
  [EX], [("visibility filter", EX + ": extract_substr_idxes")], ["returned ranges and strings"])
p("A03", "Extraction is total: valid ranges or a descriptive error, never a panic",
  "For every configuration and input string, extraction returns either ranges that are in bounds, ordered and on character boundaries (so the string form returns exactly those slices), or an error: the index and text of the first part that is not a valid regex by itself, the engine's own error when valid parts cannot be combined or the search is given up, and otherwise that no match was found exactly when there is none. It never panics.",
  ["inputs", "programs"], "all configurations (valid or not) x all UTF-8 inputs",
  "One invalid and one non-matching example.",
  [EX], [("per-part validation", EX + ": extract_substr_idxes"), ("slicing", EX + ": extract_substr")], ["Result value"])
p("A04", "Padding preserves the text and fills with zeros to the exact size",
  "For every string and every size at least its byte length, padding returns exactly that many bytes: the string's UTF-8 bytes unchanged, then only zeros.",
  ["inputs"], "all strings x all sizes >= byte length",
  "padding has no test.",
  [PD, AW], [("pad_string", PD)], ["returned bytes, natively and through wasm"])
p("A05", "The JavaScript API agrees with the native API",
  "For every input string and configuration, given as a JSON string or a JS object, in snake_case or camelCase, the wasm API returns the same ranges, strings and padded bytes as the Rust API (ranges count UTF-8 bytes), and throws exactly when the Rust API returns an error. A call that throws does not affect later calls.",
  ["inputs", "configurations", "histories"], "all inputs and configuration forms; all call sequences",
  "Ten fixed JS tests on one e-mail.",
  [AW], [("bindings", AW + ": extractSubstrIdxes, extractSubstr, padString, parse_js_regex_config")], ["JS return values and exceptions"])
p("A06", "Bundled field extractors return the intended header field",
  "For every well-formed canonicalized e-mail header block (lower-case field names, unfolded CRLF-terminated lines, one DKIM signature with its tags separated by \"; \", one mailbox per address field), each bundled extractor (from, to, subject, message-id, timestamp, body hash, address, domain) returns the range of its own field's value: the header that starts the block or a line, with that field name, regardless of other headers, their order and their contents; the address extractors return the address alone, with or without a display name or angle brackets.",
  ["inputs"], "all well-formed header blocks",
  "One or two fixed headers per extractor; to_all, to_addr and subject_all have none.",
  [EX, "packages/apis/src/decomposed_defs", AW], [("bundled definitions", "packages/apis/src/decomposed_defs")], ["returned ranges"])
p("A07", "Extraction and circuit agree on what is revealed",
  "For every supported definition and every text message with a single match (one substring, cut into parts in one way) that the scan reaches (no overlapping earlier attempt), the ranges that the extraction API reports for the public parts are exactly the positions at which the compiled circuit's reveal outputs expose the message bytes (in the same order), and extraction finds a match whenever the circuit accepts. This holds for multi-byte characters too. (Not covered: a begin alternative (X|^) in a public first part, whose X belongs to that part in extraction only, and an anchor beside a top-level alternation.)",
  ["inputs", "programs"], "all supported definitions x messages with one match",
  "The circom tests compare a few fixed messages; they do not run here.",
  [EX, RX, CC], [("shared decomposed definition semantics", EX + " and " + RX)], ["ranges vs reveal outputs"])

p("A08", "Extraction and padding are pure functions",
  "The result of an extraction, field-extractor or padding call depends only on its arguments: whatever calls came before it (with related definitions, the same definition under another visibility, invalid definitions, other inputs, calls that failed) and whatever calls run at the same time in other threads, it is the same as that of the same call made alone in a fresh process. The same holds for a sequence of calls in one JavaScript instance.",
  ["histories", "schedules", "inputs"], "all call histories and thread schedules",
  "Every unit test makes one call; none repeats calls, mixes definitions or uses threads.",
  [EX, PD, AW], [("extraction", EX + ": extract_substr_idxes, extract_substr"), ("padding", PD), ("bindings", AW)], ["returned ranges, strings, bytes and errors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
