// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "KVstore/SITree/SITree.h"
extern const unsigned long gvc_off_flag = offsetof(SINode, node_flag_), gvc_off_keys = offsetof(SINode, keys), gvc_off_store = offsetof(SINode, store), gvc_off_values = offsetof(SILeafNode, values), gvc_off_childs = offsetof(SIIntlNode, childs), gvc_off_str = offsetof(Bstr, str), gvc_off_len = offsetof(Bstr, length);
extern const unsigned long gvc_size_leaf = sizeof(SILeafNode), gvc_size_intl = sizeof(SIIntlNode), gvc_max_keys = SINode::MAX_KEY_NUM, gvc_max_childs = SINode::MAX_CHILD_NUM;
