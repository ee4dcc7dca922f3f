// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "Database/Txn_manager.h"
#define O(n, T, f) extern const unsigned long gvc_off_##n = offsetof(T, f);
O(tm_db, Txn_manager, db) O(tm_table, Txn_manager, txn_table) O(tm_cnt, Txn_manager, cnt) O(tm_ck, Txn_manager, checkpoint_lock) O(tm_tl, Txn_manager, table_lock) O(tm_done, Txn_manager, committed_num) O(tm_dirty, Txn_manager, DirtyKeys)
O(t_tid, Transaction, TID) O(t_cid, Transaction, CommitID) O(t_state, Transaction, state) O(t_start, Transaction, start_time) O(t_end, Transaction, end_time) O(t_iso, Transaction, isolation) O(t_upd, Transaction, update_num) O(t_write, Transaction, WriteSet)
O(t_read, Transaction, ReadSet) O(kv_sub, KVstore, subID2values) O(kv_pre, KVstore, preID2values) O(kv_obj, KVstore, objID2values) O(db_kv, Database, kvstore)
extern const unsigned long gvc_off_idset = sizeof(IDSet), gvc_off_subject = (unsigned long)Transaction::IDType::SUBJECT, gvc_off_predicate = (unsigned long)Transaction::IDType::PREDICATE, gvc_off_object = (unsigned long)Transaction::IDType::OBJECT;
O(tr_subject, IDTriple, subject) O(tr_predicate, IDTriple, predicate) O(tr_object, IDTriple, object)
