/* Prints where koopa.h puts things: the harness reads and writes raw programs by this table only. */
#include "koopa.h"
#include <stddef.h>
#include <stdio.h>
#define O(t, f) printf(#t "." #f " %zu\n", offsetof(koopa_raw_##t##_t, f))
#define S(t) printf("size." #t " %zu\n", sizeof(koopa_raw_##t##_t))
#define E(e) printf(#e " %d\n", (int)KOOPA_##e)
#define W(t, f) printf("width." #t "." #f " %zu\n", sizeof(((koopa_raw_##t##_t *)0)->f))
typedef koopa_raw_value_kind_t koopa_raw_kind_t;
typedef koopa_raw_type_kind_t koopa_raw_tk_t;
typedef koopa_raw_basic_block_data_t koopa_raw_bb_t;
typedef koopa_raw_function_data_t koopa_raw_fn_t;
typedef koopa_raw_value_data_t koopa_raw_val_t;
int main() {
  S(slice); S(tk); S(program); S(fn); S(bb); S(val);
  O(slice, buffer); O(slice, len); O(slice, kind); W(slice, len); W(slice, kind);
  O(tk, tag); O(tk, data.array.base); O(tk, data.array.len); O(tk, data.pointer.base); W(tk, tag); W(tk, data.array.len);
  O(tk, data.function.params); O(tk, data.function.ret);
  O(program, values); O(program, funcs);
  O(fn, ty); O(fn, name); O(fn, params); O(fn, bbs);
  O(bb, name); O(bb, params); O(bb, used_by); O(bb, insts);
  O(val, ty); O(val, name); O(val, used_by);
  O(val, kind.tag); W(val, kind.tag);
  O(val, kind.data.integer.value); O(val, kind.data.aggregate.elems); O(val, kind.data.func_arg_ref.index);
  O(val, kind.data.block_arg_ref.index); O(val, kind.data.global_alloc.init); O(val, kind.data.load.src);
  O(val, kind.data.store.value); O(val, kind.data.store.dest); O(val, kind.data.get_ptr.src);
  O(val, kind.data.get_ptr.index); O(val, kind.data.get_elem_ptr.src); O(val, kind.data.get_elem_ptr.index);
  O(val, kind.data.binary.op); O(val, kind.data.binary.lhs); O(val, kind.data.binary.rhs);
  O(val, kind.data.branch.cond); O(val, kind.data.branch.true_bb); O(val, kind.data.branch.false_bb);
  O(val, kind.data.branch.true_args); O(val, kind.data.branch.false_args); O(val, kind.data.jump.target);
  O(val, kind.data.jump.args); O(val, kind.data.call.callee); O(val, kind.data.call.args); O(val, kind.data.ret.value);
  E(RSIK_UNKNOWN); E(RSIK_TYPE); E(RSIK_FUNCTION); E(RSIK_BASIC_BLOCK); E(RSIK_VALUE);
  E(RTT_INT32); E(RTT_UNIT); E(RTT_ARRAY); E(RTT_POINTER); E(RTT_FUNCTION);
  E(RVT_INTEGER); E(RVT_ZERO_INIT); E(RVT_UNDEF); E(RVT_AGGREGATE); E(RVT_FUNC_ARG_REF); E(RVT_BLOCK_ARG_REF);
  E(RVT_ALLOC); E(RVT_GLOBAL_ALLOC); E(RVT_LOAD); E(RVT_STORE); E(RVT_GET_PTR); E(RVT_GET_ELEM_PTR);
  E(RVT_BINARY); E(RVT_BRANCH); E(RVT_JUMP); E(RVT_CALL); E(RVT_RETURN);
  E(RBO_NOT_EQ); E(RBO_EQ); E(RBO_GT); E(RBO_LT); E(RBO_GE); E(RBO_LE); E(RBO_ADD); E(RBO_SUB); E(RBO_MUL);
  E(RBO_DIV); E(RBO_MOD); E(RBO_AND); E(RBO_OR); E(RBO_XOR); E(RBO_SHL); E(RBO_SHR); E(RBO_SAR);
  E(EC_SUCCESS); E(EC_INVALID_UTF8_STRING); E(EC_INVALID_FILE); E(EC_INVALID_KOOPA_PROGRAM); E(EC_IO_ERROR);
  E(EC_NULL_BYTE_ERROR); E(EC_INSUFFICIENT_BUFFER_LENGTH); E(EC_RAW_SLICE_ITEM_KIND_MISMATCH);
  E(EC_NULL_POINTER_ERROR); E(EC_TYPE_MISMATCH); E(EC_FUNC_PARAM_NUM_MISMATCH);
  return 0;
}
