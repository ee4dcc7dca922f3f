// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "KVstore/KVstore.h"
extern const unsigned long gvc_off_sub = offsetof(KVstore, subID2values), gvc_off_obj = offsetof(KVstore, objID2values), gvc_off_lit = offsetof(KVstore, objID2values_literal), gvc_off_pre = offsetof(KVstore, preID2values);
