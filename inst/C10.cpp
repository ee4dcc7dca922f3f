// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "Query/TempResult.h"
extern const unsigned long gvc_off_tr_id = offsetof(TempResult, id_varset), gvc_off_tr_str = offsetof(TempResult, str_varset), gvc_off_tr_result = offsetof(TempResult, result), gvc_off_tr_size = sizeof(TempResult),
 gvc_off_row_id = offsetof(TempResult::ResultPair, id), gvc_off_row_sz = offsetof(TempResult::ResultPair, sz), gvc_off_row_str = offsetof(TempResult::ResultPair, str), gvc_off_row_size = sizeof(TempResult::ResultPair), gvc_off_set_results = offsetof(TempResultSet, results);
