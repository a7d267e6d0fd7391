#include "plug_host.hpp"
#include <dynamix/define_domain.hpp>
#include <dynamix/type_mutation.hpp>

namespace ph {
DYNAMIX_DEFINE_DOMAIN(plug_domain, "plugins");

object::object() noexcept : dm::object(dm::g::get_domain<plug_domain>()) {}
plug_error::plug_error(const std::string& s, int v) : std::runtime_error(s), value(v) {}
plug_error::~plug_error() = default;

static std::string work_default(const object&, int a) { return "default " + std::to_string(a); }

DYNAMIX_DEFINE_MSG(dump_msg, multicast, dump, void, (const object&, strings&));
DYNAMIX_DEFINE_MSG_EX(work_msg, unicast, true, work_default, work, std::string, (const object&, int));
DYNAMIX_DEFINE_MSG(need_msg, unicast, need, int, (object&, const std::string&));
DYNAMIX_DEFINE_SIMPLE_MSG(fail_msg, unicast);

struct person : base {
    void dump(strings& s) const { s.push_back("person " + std::to_string(value) + (ok() ? "" : " broken")); }
};
struct teacher : base {
    void dump(strings& s) const { s.push_back("teacher"); }
    std::string work(int a) const { return "teacher " + std::to_string(a); }
};
struct worker : base {
    void dump(strings& s) const { s.push_back("worker"); }
    std::string work(int a) const { return "worker " + std::to_string(a); }
};

void person_init::do_init(dm::init_new_args args) { (new (args.mixin_buf) person)->set(value); }

DYNAMIX_DEFINE_MIXIN(plug_domain, person).implements<dump_msg>();
DYNAMIX_DEFINE_MIXIN(plug_domain, teacher).implements<dump_msg>().implements<work_msg>();
DYNAMIX_DEFINE_MIXIN(plug_domain, worker).implements<dump_msg>().implements<work_msg>(3_prio);

static dm::error_return_t apply_no_teacher(dnmx_type_mutation_handle h, uintptr_t) {
    auto m = dm::type_mutation::from_c_handle(h);
    if (m->has("p3-a") || m->has("p3-b")) m->remove("teacher");
    return dm::result_success;
}
const dm::mutation_rule_info no_teacher = {dnmx_make_sv_lit("no teacher"), apply_no_teacher, 0, 0};

std::atomic<int>& living() noexcept { static std::atomic<int> n; return n; }
std::atomic<int>& buffers() noexcept { static std::atomic<int> n; return n; }
}
