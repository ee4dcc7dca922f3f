// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "KVstore/IVArray/IVArray.h"
#include "KVstore/ISArray/ISArray.h"
#define X(k, T, E) extern const unsigned long gvc_off_##k##_array = offsetof(T, array), gvc_off_##k##_head = offsetof(T, cache_head), gvc_off_##k##_tail = offsetof(T, cache_tail_id), gvc_off_##k##_bm = offsetof(T, BM), gvc_off_##k##_n = offsetof(T, CurEntryNum), \
 gvc_off_##k##_nchange = offsetof(T, CurEntryNumChange), gvc_off_##k##_size = offsetof(T, CurCacheSize), gvc_off_##k##_max = offsetof(T, MAX_CACHE_SIZE), gvc_off_##k##_used = offsetof(E, usedFlag), gvc_off_##k##_dirty = offsetof(E, dirtyFlag), gvc_off_##k##_cache = offsetof(E, cacheFlag), \
 gvc_off_##k##_store = offsetof(E, store), gvc_off_##k##_prev = offsetof(E, prevID), gvc_off_##k##_next = offsetof(E, nextID), gvc_off_##k##_value = offsetof(E, value), gvc_off_##k##_entry = sizeof(E);
X(IV, IVArray, IVEntry) X(IS, ISArray, ISEntry)
extern const unsigned long gvc_off_IV_file = offsetof(IVArray, IVfile), gvc_off_IS_file = offsetof(ISArray, ISfile), gvc_off_IV_pin = offsetof(IVEntry, CachePinFlag), gvc_off_bstr_len = offsetof(Bstr, length), gvc_off_bstr_str = offsetof(Bstr, str), gvc_off_bstr = sizeof(Bstr);
