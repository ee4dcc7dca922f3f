#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties in CLAIMED get a check, every other one of properties.jsonl its reason in NA."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
TRUST = " Trusted: clang's IR, the executor and loop rule in gvc/, z3 and cvc5, the library models listed in the evidence; loop termination and exceptions are outside the proof."
CLAIMED = {
 "C01": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "All eight list functions (search, duplicate removal, intersection in both forms, candidate intersection and union, membership) proved for lists of every length below 2^31 and every key, memory accesses included; the multiset and appending variants are bounded (harness only)."),
 "C02": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "Every single-triple update case of the six index value lists, the degree counters, the getters and the insert/remove entry points proved against the list the index stands for, for lists of every length; batch updates, building and the trees below are bounded (harness histories)."),
 "C05": ("contracts on the C++ functions with thread-modular havoc at lock boundaries, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "Every GLatch operation and query, the reader/writer latch and the spin lock wrappers proved for every reader count, transaction identifier and interleaving (state re-chosen under the invariant whenever the spin lock is free); call sequences and real threads are bounded (harness)."),
 "C04": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "One version (add, remove, growth, merge) and one key's chain (read at each isolation level, write admission, commit, rollback, write) proved for every number of versions and recorded pairs and every stamp; whole histories and the array of chains are bounded (harness)."),
 "C07": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "The three-valued tables, the comparisons, arithmetic and promotion of filter values proved for all pairs of literal types and every value (floats as IEEE numbers), operands unchanged included, with the laws of the comparisons as lemmas; reading literals, time spans and whole filter expressions are bounded (harness)."),
 "C08": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "The byte comparison is proved to be a total order with prefixes first for strings of every length, the string operators and the six searches of a node to follow it, and the insert, remove and replace operations on a node's keys, values, children and counters to do exactly that for every index; splitting, merging and the tree over its file are bounded (harness histories)."),
 "C14": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "Every operation of the node heap and of the min-max heap (int instance) proved to keep the heap order, the places and the elements for every number of elements, with the lemma that heap order puts the extreme element where it is read; other element types are bounded (harness)."),
 "C17": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "The leaf lists, the merging list and the helpers by which lists advance each other are proved against the sequence each list stands for, with scores as mathematical numbers; reading out the answers, the entries of the duplicate filter and whole trees of lists are bounded (harness against all combinations)."),
 "C09": ("contracts on the C++ functions over lists of abstract names, obligations from LLVM IR discharged by z3/cvc5; pigeonhole lemma by induction step; sanitizer replay harness", "Every operation of Varset (construction, adding, finding, union, intersection, difference, equality, containment, common name, mapping, size) proved for lists of any length against the set of names its list holds: membership, no repetition, order of first occurrence, operands unchanged; an operand with itself included. A name is abstracted to its text; std::string and std::vector are modelled."),
 "C11": ("contracts on the C++ functions, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "All comparators proved equal to the lexicographic order of their components, with the order's laws as lemmas, for all identifiers (predicates and the int versions below 2^31); whole-array sorting is bounded (harness)."),
 "C03": ("contracts on the C++ functions over a ghost set of free runs and a ghost file, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "Handing out, releasing, writing and reading blocks of both block managers (identifier and string values) proved for every state of the two free-run indexes and every value length: no block in use is handed out, exactly the blocks of the value become used or free, the file grows only if no run is long enough, the bytes read are those written, no other block is touched. Saving the bookkeeping and reopening are bounded (harness)."),
 "C12": ("contracts on the C++ functions with thread-modular havoc at lock boundaries, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "The three allocators and the three release functions proved to keep the set of identifiers in use, for every state of limit and free list and with other threads acting whenever the lock is free, and to stay on their side of the boundary; inserting and removing one triple proved to keep both directions of the dictionary in step and to release an identifier exactly when its degree is zero. Batch updates, saving and reading the free lists and whole histories are bounded (harness on a real Database)."),
 "C13": ("contracts on the C++ functions over a ghost disk and a ghost order of cached entries, obligations from LLVM IR discharged by z3/cvc5; sanitizer replay harness", "Entries (setBstr, getBstr, release, fromMemory), swapping out, adding to the cache, search, insert, modify, remove, save and pinning of both keyed value files proved to change exactly what their own key holds, to keep the chain of cached entries in order, and to release only blocks of a stored value. Growth of the key table and opening a saved table are checked by histories in the harness."),
 "C10": ("contracts on the C++ functions with a ghost permutation of rows, obligations from LLVM IR discharged by z3/cvc5; total-preorder lemmas; sanitizer replay harness", "The comparison of rows, the sort of a table (a permutation of whole rows, in order, within the part asked for), both searches for the rows equal to a given one, the copies of rows and the table of given variables are proved for tables of any size; the operators above them (join, left join, minus, union, projection, distinct at table and set level) are compared with the SPARQL algebra by the harness, bounded."),
}
LATER = "The check of this property is not finished: no contract of it is discharged yet."
NA = {
 "C18": "The evaluation of a whole query runs through about 20,000 lines of mutually recursive C++ over std::function, antlr parse trees, regex and floating text conversion; the deductive back end here (LLVM IR, first-order SMT, no separation logic tool for C++ in the sandbox) cannot carry a contract of SPARQL semantics through it. The operators it is composed of are stated and decided separately (C01, C02, C07, C09, C10).",
 "C19": "Crash behaviour is a property of the sequence of file-system effects between calls of fwrite, rename, cp and system(); a contract on a function speaks about its return, not about the points where the machine stops inside it, and no verifier here has a crash semantics for C++ (crash Hoare logic). Not decidable with this family.",
 "C20": "Privileges are kept as triples in the system database and checked by building SPARQL text and running it through the query engine inside 4,000-line request handlers with threads and sockets; a contract of the check reduces to C18, for which this family has no reach.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(D + "/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "python3-vt selfcheck.py", "checks": [], "not_applicable": []}
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i][:2]; lv = CLAIMED[i][2] if len(CLAIMED[i]) > 2 else "proof"
            m["checks"].append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick", "thorough_cmd": f"python3-vt check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv, "level_note": n + TRUST})
        else: m["not_applicable"].append({"property": i, "reason": NA.get(i, LATER)})
    m["notes"] = "A check proves contracts on the functions of /repo (gvc/, contracts/) and replays/bounds with harness/. See DESIGN.md."
    json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
main()
