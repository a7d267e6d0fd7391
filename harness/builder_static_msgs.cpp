// Definitions in a translation unit of their own: the order of initialisation is that of the link
#include "builder.hpp"
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>

namespace builder {
static int default_uni(dm::object&, int x) { return -x; }
DYNAMIX_DEFINE_SIMPLE_MSG_EX(uni_msg, unicast, false, default_uni);
DYNAMIX_DEFINE_SIMPLE_MSG(multi_msg, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG(const_msg, unicast);
}
