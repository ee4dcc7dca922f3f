// object layout facts for the contracts (values the compiler computes); contains no code of its own
#include <cstddef>
#include "KVstore/IVArray/IVBlockManager.h"
#include "KVstore/ISArray/ISBlockManager.h"
typedef IVBlockManager V; typedef ISBlockManager S;
extern const unsigned long gvc_off_IV_map = offsetof(V, index_len_map), gvc_off_IV_set = offsetof(V, len_index_map), gvc_off_IV_list = offsetof(V, BlockToWrite), gvc_off_IV_cur = offsetof(V, cur_block_num), gvc_off_IV_file = offsetof(V, ValueFile), gvc_off_IV_block = V::BLOCK_SIZE, gvc_off_IV_data = V::BLOCK_DATA_SIZE,
	gvc_off_IS_map = offsetof(S, index_len_map), gvc_off_IS_set = offsetof(S, len_index_map), gvc_off_IS_list = offsetof(S, BlockToWrite), gvc_off_IS_cur = offsetof(S, cur_block_num), gvc_off_IS_file = offsetof(S, ValueFile), gvc_off_IS_block = S::BLOCK_SIZE, gvc_off_IS_data = S::BLOCK_DATA_SIZE,
	gvc_off_b_num = offsetof(BlockInfo, num), gvc_off_b_next = offsetof(BlockInfo, next), gvc_off_b_size = sizeof(BlockInfo);
