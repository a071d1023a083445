#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the texts below, bounds.py, registry.py, known_findings.json and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from bounds import BOUNDS
from registry import PROPS
T = {}
T["C01"] = ("Tokenizer::tokenize on small dictionaries made of the public parts (double array, matrix, character definitions, unknown words); every token is compared with the slice of the text, its neighbours, its position.",
  "The tests tokenize a few fixed sentences; the harness covers every text of the stated size, every category setting and every cost.")
T["C02"] = ("Oracle: `harness/src/model.rs`, an independent statement of the candidates of a sentence; the cost of the returned path (cheapest reading where entries share a span) is compared with the cost of every other path, recursively, without dynamic programming. Costs are symbolic, so each comparison is a linear-integer query over all of them. The `large` entry compares with closed-form totals that exceed 32 bits.",
  "Ties and sign patterns of costs are exactly what sampled tests do not reach.")
T["C03"] = ("Each sentence is tokenized alone and the results, shifted, are compared with the tokens of the whole text; repeated with the same tokenizer, a clone and a fresh one, after other texts.", "State carried over between sentences (the lattice is reused) shows only for particular sequences of lengths.")
T["C04"] = ("The candidate list of model.rs (invoke, group, rank of the category, the stretch already taken) decides which tokens may come from unknown-word entries and what their extent is; details and marks of every token are checked against its origin. Where categories of one character offer stretches of different length the statement leaves the positions between their ends open in normal mode and the paths through them are excluded by assumption.", "Every combination of the flags with every text.")
T["C05"] = ("Direct enumeration of the word list against PrefixDict::prefix and find_surface: number, order, lengths, ids, costs, mark.", "Every subset of overlapping words with every text, every Unicode character after a word.")
T["C06"] = ("DictBuilder (and the five kinds' builders) run on CSV files in an in-memory file system that the engine models; the files they write are loaded and every row is looked up; rows to be skipped or to fail are computed from the row's text.", "Row order, homographs, skipped rows and quoting interact; numbers are symbolic digits.")
T["C07"] = ("UserDictBuilder and the five kinds on CSV text; rows by either format; saved and loaded by both ways; tokenized.", "As C06.")
T["C08"] = ("Matrix text written by the harness from symbolic digits, built by CostMatrixBuilder, loaded owned and static; every pair of contexts is looked up.", "Sizes beyond one byte, negative numbers, the sign bit of the sizes.")
T["C09"] = ("Definition files from lists of ranges and categories; the expected categories of a symbolic Unicode scalar value are computed range by range from the source text.", "Every code point instead of a sample; boundaries of merged ranges.")
T["C10"] = ("`offsets_point_back` in lib.rs: the harness splits the input into stretches by its own greedy matcher (or by the regex crate's matches, or by grapheme clusters), checks that the filter's output is their concatenation, and checks correct_offset at every output offset: boundaries map to boundaries, nothing leaves the input, nothing decreases.", "Accumulated differences go wrong only for particular sequences of shorter and longer replacements.")
T["C11"] = ("The stretches of every filter of the chain are composed into the set of original offsets each final offset may come from; the tokens are those of tokenizing the filtered text and passing through the token filters one after the other.", "Chains of filters, each with its own offset table.")
T["C12"] = ("The harness' own greedy longest-match replacement against both mapping filters.", "Every subset of overlapping keys with every text.")
T["C13"] = ("Reference expansion by counting the run of marks and taking characters before it; tables of the voiced rows written out in the harness.", "Every run length, mixed marks, every kana.")
T["C14"] = ("Reference: membership of the token's text, padded tag or length; retained tokens are compared in all fields.", "Every number of details, every bound, every subset of tags.")
T["C15"] = ("Reference merging of maximal runs over the list of tokens. Tokens left adjacent by earlier removals are merged as well, the byte range then covers the gap.", "Every pattern of matching and other tokens.")
T["C16"] = ("The harness builds numerals together with their value as decimal digits (no machine integers), and compares the converted text; other text around them is copied.", "The grammar of numerals is too large for examples; several defects were found here.")
T["C17"] = ("Per filter, the expected text from the token's details or characters; all other fields must stay. Case conversion is checked against the std library per character, the final-sigma rule of std is outside.", "Every number of details, every Unicode character.")
T["C18"] = ("Kind and mode names: every ASCII string up to 15 bytes must parse iff it is a listed name. JSON configurations are built member by member from well-formed and malformed values; the expectation says accept with these fields or reject.", "Parsing accepts or panics on shapes nobody wrote down.")
T["C19"] = ("Sources of every shape; the expectation is computed from the source text by a small independent parser: error, or a dictionary that holds exactly these numbers. A panic is a violation wherever it comes from.", "Malformed input in every position.")
T["C20"] = ("Symbolic bytes for ids, costs, settings, boundaries; serialize, deserialize (bincode, WordEntry's own format, files), compare.", "All values, not samples.")
T["C21"] = ("compress and decompress of lindera-compress and lindera-decompress with the real flate2/miniz code executed symbolically.", "Every byte string within the bounds.")
T["C22"] = ("The tool's main.rs is compiled into the harness (include!), its standard output captured; expected output is computed from Analyzer::analyze on the same parts. clap's parsing runs as shipped; clap's own error exit is outside.", "Combinations of options; panics on library errors.")
T["C23"] = ("Directories in the in-memory file system, written by the harness; what is loaded is recognised by the tokens and details it gives. The embedded dictionaries are the stand-ins that the build writes without network (DOCS_RS), the kinds compiled in are all five.", "Missing and half-written directories, extensions, kinds.")
T["C24"] = ("Each filter constructed directly with its arguments against the one loaded by name; chains in every order against an analyzer assembled from parts; malformed configurations must be errors. A filter entry without \"kind\" is skipped by from_config; the statement does not say otherwise and the harness does not test it.", "Order and arguments of every filter.")
FILTER_NOTES = """
## Assumptions and limits of the models

* `Edge::num_chars` counts bytes/3, so the decompose-mode entries use characters of three bytes (a character of another
  width is charged for a different length; the comment in the code, "TODO fix em", knows). Penalty assumes the kanji
  threshold is not above the other one.
* Where several categories of one character offer unknown-word stretches of different lengths the last one decides how far
  normal mode skips unknown processing; the statement leaves this open.
* Stored data is taken to be what the builders wrote: truncated or foreign files may panic in
  `ConnectionCostMatrix::load` or `Dictionary::word_details`.
* Byte offsets in the lattice are 32-bit: texts beyond 4 GB are outside.
* Without the `compress` feature the builders write raw data; C21 covers the algorithms themselves.
* A lexicon row of exactly four fields has one empty detail. matrix.def with further fields on a line is accepted.
* The command line tool trims every line, prints nothing for empty lines in wakati format, gives `-t` precedence over
  `-d` (unspecified, not checked) and wants filter flags as `kind:args`.
* The engine refuses (exit 2, never silently) integers wider than 128 bits - LLVM sometimes merges three-word structures
  into i192/i256 accesses; the pass pipeline in check.py avoids this on the present tree - threads, inline assembly and
  unknown external functions. More than 128 symbolic variables on a path are refused too.
* Large inputs (entries named `large`, `square`, `long`, `clusters`, `penalties`) are concrete for the most part, with a few
  symbolic or enumerated parts: they are there for widths (16-bit offsets, 5-bit counters, 32-bit sums), the small
  entries for structure.

## Reporting and time

`check.py` ends an entry 20 s after its first failure (120 s in the thorough tier) and skips the remaining entries once a
failure was replayed; solver effort is bounded by Z3's resource counter, not by time, so a verdict does not depend on the
load. Quick runs take 20 s to 6 min, build included; the budget is 800 s.
The thorough tier runs the same entries with a larger self-test and without the early end, under a longer budget.
"""
def main():
    o = [open(os.path.join(V, "tools/design_head.md")).read().rstrip(), "", "## The properties", ""]
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    for p in sorted(props, key=lambda p: p["id"]):
        i = p["id"]
        o += ["### %s %s" % (i, p["title"]), "", T[i][0], "", "Beyond the tests: " + T[i][1], "", "| entry | bounds |", "|---|---|"]
        o += ["| %s | %s |" % (e["name"][9:], BOUNDS[e["name"][9:]].replace("|", "\\|")) for e in PROPS[i]["entries"]]
        o += [""]
    o += [FILTER_NOTES.strip(), ""]
    k = json.load(open(os.path.join(V, "known_findings.json")))
    o += ["## Defects found", "", "Known findings (recorded, not repaired: the repair changes the format of stored dictionaries):", ""]
    o += ["* %s: %s." % (f["id"], f["what"]) for f in k["findings"]]
    o += ["", "Repaired by `fix:` commits in /repo:", ""]
    o += ["* " + f for f in k["fixed"]]
    o += ["", "Every one of them was first reported by a check on the tree as it was and replayed natively. Where the property as first written",
      "was too strong (unknown stretches of unequal length, the final sigma of lowercase, offsets next to removed stretches) the statement",
      "and the reference were corrected; none of that is listed as a finding.", "",
      "## Planted bugs", "", "Each in `seeded/<id>/`; confirmed to build, to pass the tests and to fail its demonstration. All are reported by the check of",
      "the property named (runs of `vcheck --bug`, or the check in a scratch copy).", "", "| bug | needs | breaks |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        o += ["| %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"))]
    o += ["", open(os.path.join(V, "tools/design_tail.md")).read().rstrip()] if os.path.exists(os.path.join(V, "tools/design_tail.md")) else []
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
if __name__ == "__main__": main()
