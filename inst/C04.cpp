// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "KVstore/IVArray/IVEntry.h"
extern const unsigned long gvc_off_value = offsetof(IVEntry, value), gvc_off_glatch = offsetof(IVEntry, glatch), gvc_off_flag = offsetof(IVEntry, is_versioned), gvc_off_vlist = offsetof(IVEntry, vList), gvc_off_rw = offsetof(IVEntry, rwLatch), gvc_size_entry = sizeof(IVEntry);
extern const unsigned long gvc_off_data = offsetof(Version, data), gvc_off_begin = offsetof(Version, begin_ts), gvc_off_end = offsetof(Version, end_ts);
extern const unsigned long gvc_off_tid = offsetof(Transaction, TID), gvc_off_cid = offsetof(Transaction, CommitID), gvc_off_iso = offsetof(Transaction, isolation);
