// Definitions in a translation unit of their own: the order of initialisation is that of the link
#include "builder.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>

namespace builder {
dm::feature_info* the_feature() {
    static dm::common_feature_info f(dnmx_make_sv_lit("static feature"), true);
    return &f;
}
int payload = 3;

DYNAMIX_DEFINE_MIXIN(static_domain, sm_a)
    .user_data(12)
    .implements_by<uni_msg>([](sm_a* a, int x) { return a->x * x; }, feature_bid(2), 7_prio)
    .implements_by(*the_feature(), payload, -3_bid, -(4_prio));

DYNAMIX_DEFINE_MIXIN(static_domain, sm_b)
    .store_name(std::string("renamed ") + "sm_b")
    .on_mutation(attaches_to<sm_a>{}, 2_prio, 21)
    .implements_by<multi_msg>([](sm_b* b, std::string& s) { s += b->s; });
}
