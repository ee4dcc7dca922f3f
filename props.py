#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **k):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(k); assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Sorted identifier lists: exact search and exact set operations",
  "Searching an ascending list of identifiers returns a position that holds the key, and reports a miss exactly when the key does not occur. Intersecting, uniting and de-duplicating ascending identifier lists gives the ascending list whose members are exactly those of the mathematical set operation, whatever the relative sizes of the operands. No operation reads or writes outside the lists it is given.",
  ["inputs"], "every pair of ascending lists of any length (empty ones included) and every 32-bit key",
  "The query tests join a few dozen small lists; the size-ratio switches, empty operands, keys below the first or above the last element and the extreme identifiers are never reached.",
  ["Util/Util.cpp", "Query/IDList.cpp"],
  [("binary search, duplicate removal, merge", "Util/Util.cpp: bsearch_int_uporder, bsearch_vec_uporder, removeDuplicate, intersect"), ("candidate-list algebra", "Query/IDList.cpp: intersectList, unionList, isExistID, IDListWithAppending::Intersect/Union")])
p("C02", "Every triple index answers from the same set of triples",
  "After any history of triple insertions and deletions, the subject-, object- and predicate-keyed indexes answer every lookup pattern with exactly the matching triples of the set of triples inserted and not since deleted. Each answer is ascending without repetition, every reported count equals the number of matching triples, and inserting a present triple or deleting an absent one changes nothing and says so.",
  ["histories", "inputs"], "every finite sequence of triple insertions and deletions over any identifiers, and every lookup pattern after each step",
  "Tests load fixed data sets and read them; the in-place list surgery (first/last predicate, list becoming empty, literal vs entity objects, value groups moving) depends on the history.",
  ["KVstore/KVstore.cpp", "KVstore/KVstore.h"],
  [("list surgery on update", "KVstore/KVstore.cpp: updateInsert_*/updateRemove_*"), ("lookups", "KVstore/KVstore.cpp: get*By*, *Degree"), ("layout of the lists", "KVstore/KVstore.cpp: build_*2values")])
p("C03", "Disk block bookkeeping never hands out a block twice",
  "A block of a value file that belongs to a stored value is never handed out to another value until it is released, a released block becomes available again, and a request is only refused for lack of blocks. What is read back for a stored value is byte for byte what was written, whatever was stored, enlarged, shrunk or released in between.",
  ["histories"], "every sequence of writes, rewrites and releases of values of any length over the value file, including saving and reopening the bookkeeping",
  "The tests build a database once; fragmentation, merging of neighbouring free runs and reuse across reopen need long histories.",
  ["KVstore/IVArray/IVBlockManager.cpp", "KVstore/ISArray/ISBlockManager.cpp"],
  [("free-run list", "IVBlockManager/ISBlockManager: getWhereToWrite, FreeBlocks, AllocBlock"), ("block chains", "ReadValue, WriteValue, SaveFreeBlockList, LoadFreeBlockList")])
p("C04", "A transaction sees exactly the versions committed in its snapshot",
  "A read at a given point in time of a versioned value list returns the base list with exactly those insertions and deletions applied that were committed no later than that point, plus the reader's own uncommitted ones, and never another transaction's uncommitted changes. Rolling a transaction back leaves what every other reader sees unchanged, and cleaning committed versions leaves what the latest reader sees unchanged.",
  ["histories", "schedules"], "every history of writes, commits and aborts by any number of transactions on a list, and every later reader",
  "The transaction tests run one fixed interleaving; visibility depends on the order of begin and commit stamps of all versions of the key.",
  ["KVstore/IVArray/IVEntry.cpp", "Util/Version.cpp", "KVstore/IVArray/IVArray.cpp"],
  [("version chain of a key", "KVstore/IVArray/IVEntry.cpp: ReadVersion, getProperVersion, getLatestVersion, checkVersion, GetExclusiveLatch, WriteVersion, UnLatch, InvalidExlusiveLatch, CleanAllVersion"), ("one version", "Util/Version.cpp: add, remove, batch_add, batch_remove, expand, get_version"), ("array of chains", "KVstore/IVArray/IVArray.cpp: search/insert/remove with a transaction, TryExclusiveLatch, ReleaseLatch, Rollback")])
p("C05", "Latches keep writers alone and never lose a holder",
  "At most one transaction holds the exclusive latch of an item and (in serializable mode, the only mode in which readers latch) no other transaction holds a shared latch meanwhile, whatever sequence of acquire, upgrade, downgrade and release calls is made. A request is granted whenever no conflicting holder exists, a refused request changes nothing, and a release by the holder makes the latch available again.",
  ["schedules", "histories"], "every sequence and interleaving of latch calls by any number of transactions with any transaction identifiers",
  "Tests that pass run a single thread over one graph; conflicts only show in particular interleavings and with particular identifiers and reader counts.",
  ["Util/GraphLock.cpp", "Util/GraphLock.h", "Util/Latch.cpp", "KVstore/IVArray/IVEntry.cpp"],
  [("latch state under a spin lock", "Util/GraphLock.cpp: trysharedlatch, tryexclusivelatch, tryupgradelatch, trydowngradelatch, unlatch, queries"), ("reader/writer latch", "Util/Latch.cpp"), ("latching of one key", "KVstore/IVArray/IVEntry.cpp: GetExclusiveLatch, InvalidExlusiveLatch, UnLatch, ReadVersion (decided with C04)")])
p("C06", "Transaction life cycle: unique stamps, one outcome, conflicts refused",
  "Every transaction gets an identifier never used before and a begin stamp not below any commit stamp already given, and ends in exactly one of committed or aborted. Operations on a transaction that is not running are refused without effect, and at the stricter isolation levels a transaction that read or wrote something changed since its snapshot is not allowed to commit.",
  ["histories"], "every sequence of begin, query, commit, rollback and checkpoint calls by any number of transactions at each isolation level",
  "Few passing tests touch transactions; the outcome depends on the order of calls across transactions.",
  ["Database/Txn_manager.cpp", "Util/Transaction.cpp"],
  [("transaction table and stamps", "Txn_manager: Begin, Commit, Rollback, get_begin_time, get_commit_time"), ("transaction object", "Util/Transaction.cpp")])
p("C07", "FILTER values: three-valued logic and typed comparison",
  "Logical connectives on filter values follow the SPARQL three-valued tables: false decides a conjunction and true decides a disjunction even when the other operand is an error. Comparing and calculating with numeric literals gives the mathematical result in the promoted type, is consistent (equality is symmetric, exactly one of less, equal and greater holds for comparable values), and leaves the operands unchanged.",
  ["inputs"], "every pair of filter operands of every literal type, error operands included",
  "The filter tests evaluate a handful of comparisons on one data set; error operands and mixed types are not among them.",
  ["Util/EvalMultitypeValue.cpp", "Util/EvalMultitypeValue.h"],
  [("operators", "EvalMultitypeValue: operator!,||,&&,==,!=,<,<=,>,>=,+,-,*,/ and getSameNumericType")])
p("C08", "String dictionary: total byte order and faithful map behaviour",
  "Strings are compared by one total order on their bytes, in which a proper prefix comes first and every byte counts as unsigned. A dictionary lookup returns exactly the identifier last stored for that exact string, or a miss if it was never stored or was removed, for every history of insertions, updates and removals, and an ordered search finds exactly the position of the key in that order.",
  ["inputs", "histories"], "every byte string (zero and high bytes included) and every history of dictionary operations",
  "Test data is short printable text and is loaded once; node splits, merges and borrowing, removal, and high bytes are not exercised together.",
  ["Util/Bstr.cpp", "Util/Util.cpp", "KVstore/SITree/SITree.cpp", "KVstore/SITree/node/SINode.cpp", "KVstore/SITree/node/SILeafNode.cpp", "KVstore/SITree/node/SIIntlNode.cpp"],
  [("byte order", "Util/Util.cpp: compare; Util/Bstr.cpp: operators"), ("tree nodes", "KVstore/SITree/node: searchKey_*, split, coalesce"), ("tree", "KVstore/SITree/SITree.cpp: search, insert, modify, remove")])
p("C09", "Variable sets behave as sets",
  "Union, intersection, difference, containment and equality of variable sets agree with the same operations on mathematical sets of names, list no name twice, and keep the order of first occurrence. The mapping from one variable list to another gives for every variable the position of the same name in the other list, or none exactly when it does not occur there.",
  ["inputs"], "every pair of variable lists of any length, empty and overlapping ones included",
  "The queries in the tests use at most a few variables, always the same way round.",
  ["Query/Varset.cpp"], [("variable-set algebra", "Query/Varset.cpp")])
p("C10", "Solution tables: join, optional, minus, union follow SPARQL algebra",
  "Joining, left-joining, subtracting and uniting tables of solutions gives exactly the multiset of solutions of the SPARQL algebra operators, with unbound variables compatible with everything. Duplicate elimination keeps each distinct solution exactly once, projection keeps each solution's values for the chosen variables, and no operator invents, drops or mixes up a value.",
  ["inputs"], "every pair of solution tables over any variables, with unbound positions and locally created strings",
  "The tests compare a handful of final answers on one data set; sorted-range joins depend on which columns are bound and on equal runs of rows.",
  ["Query/TempResult.cpp", "Query/TempResult.h"],
  [("row order and range search", "Query/TempResult.cpp: compareRow, findLeftBounder, findRightBounder, sort"), ("operators", "TempResult::doJoin/doUnion/doOptional/doMinus/doDistinct and TempResultSet counterparts")])
p("C11", "Triple orderings are strict weak orders that agree with equality",
  "Each ordering used to sort and merge triples is irreflexive, transitive, and for two different triples puts exactly one before the other; it looks first at the component it is named after. Two triples compare equal exactly when all their components are equal.",
  ["inputs"], "every pair of identifier triples (predicate identifiers are non-negative ints), in all three sort orders",
  "Sorting happens to work on data where the tie-breaking components are distinct; a wrong tie rule only shows for particular ties.",
  ["Util/IDTriple.cpp", "Util/Util.cpp"],
  [("comparators", "Util/IDTriple.cpp: operators; Util/Util.cpp: spo_cmp_idtuple, ops_cmp_idtuple, pso_cmp_idtuple, ...")])
p("C12", "Identifiers: entities, literals and predicates never share a number",
  "An identifier handed out for a new entity, literal or predicate is not in use by any other, entity and literal identifiers lie on the two sides of one fixed boundary, and a released identifier may be handed out again only after its release. When the identifiers are exhausted the request is refused instead of returning one in use.",
  ["histories"], "every sequence of allocating and releasing identifiers, including saving and reloading the free list",
  "Tests never release identifiers and then allocate beyond the free list, nor reach the limit.",
  ["Database/Database.cpp", "Util/Util.cpp", "KVstore/KVstore.cpp"],
  [("allocation", "Database/Database.cpp: allocEntityID, allocLiteralID, allocPredicateID, freeEntityID, ..."), ("boundary", "Util/Util.cpp: is_literal_ele, is_entity_ele")])
p("C13", "Keyed value files return exactly what was last stored",
  "After any history of insertions, modifications and removals, with values of any length and any order of keys, a lookup returns exactly the bytes last stored for that key, and reports a miss exactly when the key is not present. This also holds after the file is saved and opened again and whichever values the cache has dropped in between.",
  ["histories"], "every sequence of insert, modify, remove, search, save and reopen over any keys and value lengths",
  "Tests only build and read; cache eviction, growth of the key table, and modification of large values need long histories.",
  ["KVstore/IVArray/IVArray.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/ISArray/ISEntry.cpp"],
  [("key table and cache", "IVArray/ISArray: insert, modify, remove, search, save, open"), ("value blocks", "IVBlockManager/ISBlockManager")])
p("C14", "Priority structures always yield the extreme element",
  "The smallest (or, where offered, largest) element reported by a priority structure is the extreme of the elements inserted and not yet removed, after any history of insertions, removals and key changes. No element is lost or duplicated, and the structure reports empty exactly when everything was removed.",
  ["histories"], "every sequence of insert, remove-minimum, remove-maximum and key-change operations, ties included",
  "Only small heaps in one usage pattern occur in tests.",
  ["KVstore/SITree/heap/SIHeap.cpp", "Query/topk/MinMaxHeap.hpp"],
  [("binary heap of buffered nodes", "KVstore/SITree/heap/SIHeap.cpp"), ("min-max heap of top-k queries", "Query/topk/MinMaxHeap.hpp")])
p("C15", "String encodings are inverted exactly by their decodings",
  "Compressing a string with the prefix dictionary and expanding it again gives the original string, for dictionaries built from any data. Percent-encoding and decoding, and escaping for output, are inverse on every byte string, and decoding malformed input neither fails nor reads outside it.",
  ["inputs"], "every byte string and every dictionary content", "The tests only round-trip plain IRIs.",
  ["Trie/Trie.cpp", "Trie/TrieNode.cpp", "Util/WebUrl.cpp", "Util/Util.cpp"],
  [("prefix compression", "Trie/Trie.cpp: Compress, Uncompress"), ("url coding", "Util/WebUrl.cpp; Util/Util.cpp: urlEncode/urlDecode helpers")])
p("C16", "Network access lists admit exactly the listed addresses",
  "An address is admitted by the allow list exactly when it equals a listed address or lies in a listed range, and is refused by the deny list exactly under the same rule. Range ends are included, and malformed lines admit or refuse nothing else.",
  ["inputs", "configurations"], "every IPv4 address and every list file of addresses and ranges",
  "No test reads a list with ranges.", ["Util/IPWhiteList.cpp", "Util/IPBlackList.cpp"],
  [("rule matching", "Util/IPWhiteList.cpp, Util/IPBlackList.cpp: Load, match")])
p("C17", "Top-k enumeration yields answers in score order without loss",
  "The ordered lists behind top-k queries give, for every k, the k-th best combination of their inputs: scores come out in the requested order, no combination is skipped and none is given twice. The score reported with an answer is the sum of the scores of the parts it is composed of.",
  ["inputs", "histories"], "every tree of input lists with any scores, ties included, and every k", "The top-k tests are not among those that run; k is tiny in the examples.",
  ["Query/topk/DPB/OrderedList.cpp", "Query/topk/DPB/DynamicTrie.cpp", "Query/topk/DPBTopKUtil.cpp"],
  [("ordered lists", "Query/topk/DPB/OrderedList.cpp: FRIterator, OWIterator, FQIterator"), ("duplicate suppression", "Query/topk/DPB/DynamicTrie.cpp")])
p("C18", "Query answers equal the SPARQL semantics of the stored triples",
  "The answer to a query is the multiset of solutions that the SPARQL algebra defines on the set of triples in the database, independently of the evaluation plan chosen, the order of the patterns and caching.",
  ["inputs", "programs", "configurations"], "every supported query on every data set under every plan", "The tests compare some dozens of queries on three data sets.",
  ["Query/GeneralEvaluation.cpp", "Database/Executor.cpp", "Database/PlanGenerator.cpp", "Database/Optimizer.cpp"],
  [("plan execution", "Database/Executor.cpp"), ("algebra evaluation", "Query/GeneralEvaluation.cpp")])
p("C19", "Committed updates survive a crash, uncommitted ones do not",
  "After a crash at any point, reopening the database gives the state made by exactly the acknowledged updates, and a checkpoint or restore never leaves a mixture of two states.",
  ["crash_points", "histories"], "every crash point of every update history", "No test stops the process in the middle of an update.",
  ["Database/Database.cpp", "Main/rollback.cpp", "Main/gbackup.cpp"], [("update log and checkpoint", "Database/Database.cpp: save, backup, restore, write_update_log")])
p("C20", "Only authorised users can read, update or administer a database",
  "A request is carried out only if the user's credentials match and the user holds the privilege it needs on that database; failing requests have no effect.",
  ["histories", "inputs"], "every request with every account and privilege state", "No test covers refused requests.",
  ["Main/ghttp.cpp", "Server/Server.cpp"], [("privilege checks", "Main/ghttp.cpp: check_param, checkPrivilege handlers")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
