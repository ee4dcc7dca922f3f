// object layout facts for the contracts (values the compiler computes) and an explicit instantiation of the repository's template; contains no code of its own
#include <cstddef>
#include "KVstore/SITree/heap/SIHeap.h"
#include "Query/topk/MinMaxHeap.hpp"
extern const unsigned long gvc_off_flag = offsetof(SINode, node_flag_), gvc_off_id = offsetof(SINode, heapId), gvc_off_heap = offsetof(SIHeap, heap), gvc_off_length = offsetof(SIHeap, length), gvc_off_size = offsetof(SIHeap, size);
template class minmax::MinMaxHeap<int>;
