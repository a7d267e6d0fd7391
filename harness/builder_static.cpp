// What the definition macros define, before main
#include "builder.hpp"
#include <array>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/msg/define_msg.hpp>

namespace builder {
int static_user_data;

DYNAMIX_DEFINE_DOMAIN(static_domain, "static domain", dm::domain_settings{true, true, true}, 77, &static_user_data);
DYNAMIX_DEFINE_DOMAIN(other_domain, std::string_view("other"));

void check_static() {
    auto& d = dm::g::get_domain<static_domain>();
    auto& o = dm::g::get_domain<other_domain>();
#define MC(...) VP_CHECK("macros", __VA_ARGS__)
    MC(&d == &dm::g::get_domain<static_domain>() && &d != &o && d.name() == "static domain" && o.name() == "other", "domains are not the defined ones");
    MC(d.settings().canonicalize_types && d.settings().allow_duplicate_mixin_names && d.settings().allow_duplicate_feature_names && d.user_data == 77 && d.context == &static_user_data, "the domain has other settings");
    MC(!o.settings().canonicalize_types && !o.settings().allow_duplicate_mixin_names && o.user_data == 0 && !o.context, "the domain has other settings");
    auto& a = dm::g::get_mixin_info<sm_a>();
    auto& b = dm::g::get_mixin_info<sm_b>();
    auto& c = dm::g::get_mixin_info<sm_c>();
    auto& e = dm::g::get_mixin_info<sm_d>();
    MC(a.name.to_std() == "sm_a" && b.name.to_std() == "renamed sm_b" && c.name.to_std() == "sm_c" && e.name.to_std() == "sm_d", "mixins have other names");
    MC(a.dom == d.to_c_hanlde() && b.dom == d.to_c_hanlde() && c.dom == d.to_c_hanlde() && e.dom == o.to_c_hanlde(), "mixins are in other domains");
    MC(d.get_mixin_info("sm_a") == &a && d.get_mixin_info("renamed sm_b") == &b && d.get_mixin_info("sm_c") == &c && o.get_mixin_info("sm_d") == &e && !d.get_mixin_info("sm_d") && !d.get_mixin_info("sm_b"), "mixins are not found by name");
    MC(a.user_data == 12 && !a.dependency && b.dependency && !c.dependency && c.order_priority == -5 && a.size == sizeof(sm_a) && b.size == sizeof(sm_b), "mixins have other values");
    MC(a.num_features == 2 && a.features[0].info == &uni_msg::info && a.features[0].bid == 2 && a.features[0].priority == 7 && a.features[1].info == the_feature() && a.features[1].payload == &payload && a.features[1].bid == -3 && a.features[1].priority == -4, "mixin implements other features");
    MC(b.num_features == 1 && b.features[0].info == &multi_msg::info && b.features[0].bid == 0 && b.features[0].priority == 0, "mixin implements other features");
    MC(&uni_msg::get_info_safe() == &uni_msg::info && uni_msg::info.name.to_std() == "uni_msg" && !uni_msg::info.allow_clashes && uni_msg::info.default_payload && multi_msg::info.allow_clashes && !multi_msg::info.default_payload, "features have other values");
    MC(d.num_mutation_rules() == 3 && o.num_mutation_rules() == 0, "%zu rules in the domain", d.num_mutation_rules()); // canonicalize, attaches_to, static_rule
    size_t n = 0;
    dm::domain_traverse(d).traverse_mutation_rules([&](const dm::mutation_rule_info& r, uint32_t k) {
        MC(k == 1, "rule is counted %u times", k);
        if (&r == &static_rule) n += 1;
        else if (r.name.to_std() == "renamed sm_b attaches_to<0>" && r.user_data == 21 && r.order_priority == 2) n += 10;
    });
    MC(n == 11, "rules in the domain are others than the defined");
    auto& t = d.get_type(std::array<const dm::mixin_info*, 2>{&c, &a});
    MC(t.num_mixins() == 3 && t.mixins[0] == &c && t.mixins[1] == &b && t.mixins[2] == &a, "mixins of the domain form another type"); // canonical: c (-5), "renamed sm_b", "sm_a"
    MC(t.is_of<tc_has_b>() && t.is_of("tc_has_b") && !t.is_of<tc_small>() && !t.is_of("tc_small"), "type classes");
    MC(d.get_type_class("tc_has_b") == &tc_has_b::m_dynamix_type_class && d.get_type_class("tc_small") == &tc_small::m_dynamix_type_class && !o.get_type_class("tc_small"), "type classes are not found");
    dm::object obj(d);
    mutate(obj, dm::add<sm_a>(), dm::add<sm_c>());
    MC(&obj.get_type() == &t && uni_msg::call(obj, 4) == 20, "message calls the wrong function");
    std::string s;
    multi_msg::call(obj, s);
    MC(s == "csb" || s == "sbc", "multicast gave %s", s.c_str());
    dm::object obj2(o);
    mutate(obj2, dm::add<sm_d>());
    MC(d.get_feature_info("uni_msg") == &uni_msg::info && o.get_feature_info("const_msg") == &const_msg::info && !d.get_feature_info("const_msg") && const_msg::call(obj2) == "9", "features of another domain");
    dm::object none(d);
    MC(uni_msg::call(none, 4) == -4, "default implementation is not called");
    count("static definitions");
}
}
