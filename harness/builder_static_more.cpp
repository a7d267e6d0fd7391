// Definitions in a translation unit of their own: the order of initialisation is that of the link
#include "builder.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>

namespace builder {
dm::mutation_rule_info static_rule = {dnmx_make_sv_lit("static rule"), [](dnmx_type_mutation_handle, uintptr_t) -> dm::error_return_t { return dm::result_success; }, 5, 3};

class sm_d {
public:
    int y = 9;
    std::string d_const() const { return std::to_string(y); }
};

template <typename M> struct my_builder : public dm::util::mixin_info_data_builder<M> {
    using base = dm::util::mixin_info_data_builder<M>;
    using base::base;
    base& mine(int32_t prio) { this->get_data().info.order_priority = prio; return *this; }
};
DYNAMIX_DEFINE_MIXIN_EX(static_domain, sm_c, my_builder)
    .mine(-5)
    .adds_mutation_rule(static_rule)
    .dependency(false)
    .implements_by<multi_msg>([](sm_c*, std::string& s) { s += "c"; });

DYNAMIX_DEFINE_MIXIN(other_domain, sm_d)
    .implements_by<const_msg>([](const sm_d* d) { return d->d_const(); });

DYNAMIX_DEFINE_TYPE_CLASS_WITH(static_domain, tc_has_b, [](dnmx_type_handle t) noexcept { return dm::type::from_c_handle(t)->has<sm_b>(); });
DYNAMIX_DEFINE_TYPE_CLASS_WITH(static_domain, tc_small, [](dnmx_type_handle t) noexcept { return dm::type::from_c_handle(t)->num_mixins() < 3; });
}
