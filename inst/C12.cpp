// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "Database/Database.h"
typedef Database D;
extern const unsigned long gvc_off_limit_e = offsetof(D, limitID_entity), gvc_off_free_e = offsetof(D, freelist_entity), gvc_off_lock_e = offsetof(D, allocEntityID_lock), gvc_off_num_e = offsetof(D, entity_num),
	gvc_off_limit_l = offsetof(D, limitID_literal), gvc_off_free_l = offsetof(D, freelist_literal), gvc_off_lock_l = offsetof(D, allocLiteralID_lock), gvc_off_num_l = offsetof(D, literal_num),
	gvc_off_limit_p = offsetof(D, limitID_predicate), gvc_off_free_p = offsetof(D, freelist_predicate), gvc_off_lock_p = offsetof(D, allocPredicateID_lock), gvc_off_num_p = offsetof(D, pre_num),
	gvc_off_store = offsetof(D, kvstore), gvc_off_subs = offsetof(D, sub_num), gvc_off_triples = offsetof(D, triples_num), gvc_off_b_num = offsetof(BlockInfo, num), gvc_off_b_next = offsetof(BlockInfo, next),
	gvc_off_t_s = offsetof(TripleWithObjType, subject), gvc_off_t_p = offsetof(TripleWithObjType, predicate), gvc_off_t_o = offsetof(TripleWithObjType, object);
