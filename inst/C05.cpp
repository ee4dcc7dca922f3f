// makes the compiler emit the members that GraphLock.h defines inline; contains no code of its own
#include "Util/GraphLock.h"
auto gvc_i1 = &GLatch::is_exclusive_latched; auto gvc_i2 = &GLatch::is_shared_latched; auto gvc_i3 = &GLatch::is_latched; auto gvc_i4 = &GLatch::get_readers; auto gvc_i5 = &GLatch::get_TID;
auto gvc_i6 = &spinlock::lock; auto gvc_i7 = &spinlock::try_lock; auto gvc_i8 = &spinlock::unlock;
