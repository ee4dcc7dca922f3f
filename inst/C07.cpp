// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "Util/EvalMultitypeValue.h"
typedef EvalMultitypeValue E;
extern const unsigned long gvc_off_datatype = offsetof(E, datatype), gvc_off_term = offsetof(E, term_value), gvc_off_str = offsetof(E, str_value), gvc_off_bool = offsetof(E, bool_value),
	gvc_off_int = offsetof(E, int_value), gvc_off_flt = offsetof(E, flt_value), gvc_off_dbl = offsetof(E, dbl_value), gvc_off_long = offsetof(E, long_value), gvc_off_date = offsetof(E, dt_value);
