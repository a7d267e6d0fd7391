// what a C user sees of the headers, to be compared with what a C++ user sees
#pragma once
#include <dnmx/basic_domain.h>
#include <dnmx/basic_object.h>
#include <dnmx/basic_type.h>
#include <dnmx/domain.h>
#include <dnmx/domain_settings.h>
#include <dnmx/error_return.h>
#include <dnmx/feature_for_mixin.h>
#include <dnmx/feature_info.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mixin_common_funcs.h>
#include <dnmx/mixin_index.h>
#include <dnmx/mixin_info.h>
#include <dnmx/mutate.h>
#include <dnmx/mutation_rule_info.h>
#include <dnmx/object.h>
#include <dnmx/object_mixin_data.h>
#include <dnmx/size.h>
#include <dnmx/type.h>
#include <dnmx/type_class.h>
#include <dnmx/type_mutation.h>
#include <stddef.h>

typedef struct abi_entry { const char* what; size_t offset, size; } abi_entry;
#define ABI_S(s) {#s, 0, sizeof(s)},
#define ABI_F(s, f) {#s "::" #f, offsetof(s, f), sizeof(((s*)0)->f)},
#define ABI_LIST \
    ABI_S(dnmx_sv) ABI_F(dnmx_sv, begin) ABI_F(dnmx_sv, end) \
    ABI_S(dnmx_mixin_id) ABI_F(dnmx_mixin_id, i) ABI_S(dnmx_feature_id) ABI_F(dnmx_feature_id, i) \
    ABI_S(dnmx_domain_settings) ABI_F(dnmx_domain_settings, canonicalize_types) ABI_F(dnmx_domain_settings, allow_duplicate_feature_names) \
    ABI_F(dnmx_domain_settings, allow_duplicate_mixin_names) \
    ABI_S(struct dnmx_basic_domain) ABI_F(struct dnmx_basic_domain, m_name) ABI_F(struct dnmx_basic_domain, m_settings) \
    ABI_F(struct dnmx_basic_domain, user_data) ABI_F(struct dnmx_basic_domain, context) \
    ABI_S(struct dnmx_basic_object) ABI_F(struct dnmx_basic_object, m_type) ABI_F(struct dnmx_basic_object, m_mixin_data) \
    ABI_S(struct dnmx_basic_type) ABI_F(struct dnmx_basic_type, ftable) ABI_F(struct dnmx_basic_type, ftable_length) \
    ABI_S(dnmx_ftable_payload) ABI_F(dnmx_ftable_payload, mixin_index) ABI_F(dnmx_ftable_payload, payload) ABI_F(dnmx_ftable_payload, data) \
    ABI_S(dnmx_ftable_entry) ABI_F(dnmx_ftable_entry, begin) ABI_F(dnmx_ftable_entry, top_bid_back) ABI_F(dnmx_ftable_entry, end) \
    ABI_S(dnmx_object_mixin_data) ABI_F(dnmx_object_mixin_data, buf) ABI_F(dnmx_object_mixin_data, mixin) \
    ABI_S(dnmx_feature_info) ABI_F(dnmx_feature_info, id) ABI_F(dnmx_feature_info, name) ABI_F(dnmx_feature_info, allow_clashes) \
    ABI_F(dnmx_feature_info, default_payload) ABI_F(dnmx_feature_info, feature_class) \
    ABI_S(dnmx_feature_for_mixin) ABI_F(dnmx_feature_for_mixin, info) ABI_F(dnmx_feature_for_mixin, payload) \
    ABI_F(dnmx_feature_for_mixin, bid) ABI_F(dnmx_feature_for_mixin, priority) \
    ABI_S(dnmx_mixin_info) ABI_F(dnmx_mixin_info, id) ABI_F(dnmx_mixin_info, dom) ABI_F(dnmx_mixin_info, name) ABI_F(dnmx_mixin_info, size) \
    ABI_F(dnmx_mixin_info, alignment) ABI_F(dnmx_mixin_info, obj_buf_size) ABI_F(dnmx_mixin_info, obj_buf_alignment_and_mixin_offset) \
    ABI_F(dnmx_mixin_info, init) ABI_F(dnmx_mixin_info, copy_init) ABI_F(dnmx_mixin_info, move_init) ABI_F(dnmx_mixin_info, copy_asgn) \
    ABI_F(dnmx_mixin_info, move_asgn) ABI_F(dnmx_mixin_info, destroy) ABI_F(dnmx_mixin_info, equals) ABI_F(dnmx_mixin_info, compare) \
    ABI_F(dnmx_mixin_info, allocator) ABI_F(dnmx_mixin_info, mixin_class) ABI_F(dnmx_mixin_info, type_info_class) ABI_F(dnmx_mixin_info, user_data) \
    ABI_F(dnmx_mixin_info, features) ABI_F(dnmx_mixin_info, num_features) ABI_F(dnmx_mixin_info, order_priority) ABI_F(dnmx_mixin_info, force_external) \
    ABI_F(dnmx_mixin_info, dependency) \
    ABI_S(dnmx_mutation_rule_info) ABI_F(dnmx_mutation_rule_info, name) ABI_F(dnmx_mutation_rule_info, apply) ABI_F(dnmx_mutation_rule_info, user_data) \
    ABI_F(dnmx_mutation_rule_info, order_priority) \
    ABI_S(dnmx_type_class) ABI_F(dnmx_type_class, name) ABI_F(dnmx_type_class, matches) \
    ABI_S(dnmx_mutate_func_args) ABI_F(dnmx_mutate_func_args, info) ABI_F(dnmx_mutate_func_args, mixin_buf) ABI_F(dnmx_mutate_func_args, target_type) \
    ABI_F(dnmx_mutate_func_args, source_type) ABI_F(dnmx_mutate_func_args, target_index) ABI_F(dnmx_mutate_func_args, source_index) \
    ABI_F(dnmx_mutate_func_args, user_data) \
    ABI_S(dnmx_mutate_to_override) ABI_F(dnmx_mutate_to_override, mixin) ABI_F(dnmx_mutate_to_override, mixin_name) \
    ABI_F(dnmx_mutate_to_override, init_new) ABI_F(dnmx_mutate_to_override, update_common) ABI_F(dnmx_mutate_to_override, user_data) \
    ABI_S(dnmx_mutate_op) ABI_F(dnmx_mutate_op, op_type) ABI_F(dnmx_mutate_op, mixin) ABI_F(dnmx_mutate_op, mixin_name) \
    ABI_F(dnmx_mutate_op, init_override) ABI_F(dnmx_mutate_op, user_data) \
    ABI_S(dnmx_int_result) ABI_F(dnmx_int_result, result) ABI_F(dnmx_int_result, error) \
    ABI_S(dnmx_id_int_t) ABI_S(dnmx_byte_size_t) ABI_S(dnmx_byte_t) ABI_S(dnmx_mixin_index_t) ABI_S(dnmx_error_return_t) ABI_S(dnmx_feature_payload) \
    ABI_S(dnmx_domain_handle) ABI_S(dnmx_object_handle) ABI_S(dnmx_const_object_handle) ABI_S(dnmx_type_handle) ABI_S(dnmx_type_mutation_handle) \
    ABI_S(dnmx_mixin_allocator_handle)
#define ABI_CONST \
    {"dnmx_invalid_id", dnmx_invalid_id, sizeof(dnmx_invalid_id)}, \
    {"dnmx_invalid_mixin_index", dnmx_invalid_mixin_index, sizeof(dnmx_invalid_mixin_index)}, \
    {"dnmx_result_success", dnmx_result_success, 0}, \
    {"dnmx_sizeof_ptr", dnmx_sizeof_ptr, sizeof(dnmx_sizeof_ptr)}, \
    {"dnmx_mutate_op_add", dnmx_mutate_op_add, 0}, \
    {"dnmx_mutate_op_remove", dnmx_mutate_op_remove, 0}, \
    {"dnmx_mutate_op_to_back", dnmx_mutate_op_to_back, 0},

// the inline functions and the classes of a C user
typedef struct bits_api {
    dnmx_mixin_info (*make_mixin_info)(void);
    dnmx_feature_info (*make_feature_info)(void);
    void (*set_size_alignment)(dnmx_mixin_info*, dnmx_byte_size_t, dnmx_byte_size_t);
    bool (*canonical_order)(const dnmx_mixin_info*, const dnmx_mixin_info*);
    dnmx_sv (*domain_name)(dnmx_domain_handle);
    dnmx_domain_settings (*domain_settings)(dnmx_domain_handle);
    uintptr_t (*domain_user_data)(dnmx_domain_handle);
    void* (*domain_context)(dnmx_domain_handle);
    void* (*get_mut_at)(struct dnmx_basic_object*, dnmx_mixin_index_t);
    const void* (*get_at)(const struct dnmx_basic_object*, dnmx_mixin_index_t);
    dnmx_ftable_entry (*ftable_at)(const struct dnmx_basic_type*, dnmx_feature_id);
    bool (*is_copyable)(dnmx_type_handle);
    dnmx_mixin_move_func move_copy;
    dnmx_mixin_init_func noop_init;
    dnmx_mixin_copy_func noop_copy;
    dnmx_mixin_move_func noop_move;
    dnmx_mixin_cmp_func noop_cmp;
} bits_api;

#define NUM_C_CLASSES 8
#if defined(__cplusplus)
extern "C" {
#endif
extern const bits_api bits_c;
extern const abi_entry abi_c[];
extern const size_t abi_c_size;
// info of C class i, its size, alignment and name; of an empty mixin for i < 0
dnmx_mixin_info c_class_info(int i, size_t* size, size_t* align, const char** name);
int c_pp(void);
#if defined(__cplusplus)
}
#endif
