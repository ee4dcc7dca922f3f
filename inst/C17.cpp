// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "Query/topk/DPB/OrderedList.h"
extern const unsigned long gvc_off_pool = offsetof(OrderedList, pool_), gvc_off_frq = offsetof(FRIterator, queue_), gvc_off_frmap = offsetof(FRIterator, fqs_map_),
	gvc_off_score = offsetof(FQIterator, node_score_), gvc_off_fqq = offsetof(FQIterator, queue_), gvc_off_kids = offsetof(FQIterator, fr_ow_iterators_), gvc_off_epool = offsetof(FQIterator, e_pool_), gvc_off_trie = offsetof(FQIterator, dynamic_trie_),
	gvc_off_node = offsetof(DPB::element, node), gvc_off_index = offsetof(DPB::element, index), gvc_off_cost = offsetof(DPB::element, cost), gvc_off_seq = offsetof(DPB::FqElement, seq), gvc_off_fcost = offsetof(DPB::FqElement, cost), gvc_off_count = offsetof(DPB::TrieEntry, count);
