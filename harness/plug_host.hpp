// What the libraries of the plugin harness share: a domain, messages, mixins, a rule - all exported by the host library
#pragma once
#include <splat/symbol_export.h>
#if BUILDING_PLUG_HOST
#   define PLUG_API SYMBOL_EXPORT
#else
#   define PLUG_API SYMBOL_IMPORT
#endif
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/common_mixin_init.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/func_traits.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/domain.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/exception.hpp>
#include <atomic>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace ph {
namespace dm = dynamix;

DYNAMIX_DECLARE_EXPORTED_DOMAIN(PLUG_API, plug_domain);

class PLUG_API object : public dm::object {
public:
    object() noexcept;
};

struct PLUG_API plug_error : public std::runtime_error {
    int value;
    plug_error(const std::string& s, int v);
    ~plug_error() override;
};

using strings = std::vector<std::string>;

DYNAMIX_DECLARE_EXPORTED_MSG(PLUG_API, dump_msg, dump, void, (const object&, strings&));           // multicast
DYNAMIX_DECLARE_EXPORTED_MSG(PLUG_API, work_msg, work, std::string, (const object&, int));          // unicast with a default implementation
DYNAMIX_DECLARE_EXPORTED_MSG(PLUG_API, need_msg, need, int, (object&, const std::string&));         // unicast without
DYNAMIX_DECLARE_EXPORTED_SIMPLE_MSG(PLUG_API, fail_msg, void(object&, int));                        // throws

DYNAMIX_DECLARE_EXPORTED_MIXIN(PLUG_API, struct person);
DYNAMIX_DECLARE_EXPORTED_MIXIN(PLUG_API, struct teacher);
DYNAMIX_DECLARE_EXPORTED_MIXIN(PLUG_API, struct worker);

struct PLUG_API person_init : public dm::common_mixin_init<person> {
    int value;
    person_init(int v) : value(v) {}
    void do_init(dm::init_new_args args) override;
};

// a rule of the host which mixins of plugins bring: no teacher with p3-a or p3-b
PLUG_API extern const dm::mutation_rule_info no_teacher;

// living mixins of all libraries
PLUG_API std::atomic<int>& living() noexcept;
PLUG_API std::atomic<int>& buffers() noexcept;

// state of all mixins; not exported: each library has its own
struct base {
    std::string text = "initial state of a mixin, long enough to be on the heap";
    int value = 0;
    base() { ++living(); }
    explicit base(int v) { ++living(); set(v); }
    base(const base& b) : text(b.text), value(b.value) { ++living(); }
    base(base&& b) noexcept : text(std::move(b.text)), value(b.value) { ++living(); }
    base& operator=(const base&) = default;
    base& operator=(base&&) = default;
    ~base() { --living(); }
    void set(int v) { value = v; text = "state of a mixin, long enough to be on the heap: " + std::to_string(v); }
    bool ok() const { return value == 0 ? text[0] == 'i' : text == "state of a mixin, long enough to be on the heap: " + std::to_string(value); }
};

// what a plugin gives to the program
struct plugin_api {
    int plugin;
    int num_mixins;
    void (*add)(dm::object& obj, int mixin);                        // mutate with add<Mixin>
    void (*remove)(dm::object& obj, int mixin);
    base* (*get)(dm::object& obj, int mixin);                       // obj.get<Mixin>()
    bool (*has)(const dm::object& obj, int mixin);
    const dm::mixin_info& (*info)(int mixin);
    std::unique_ptr<object> (*make)(int mixin);                     // an object made by the library
    std::string (*call)(object& obj, int what, int arg);            // calls in the library; errors as text
    int (*own)(object& obj, int arg);                               // the library's own message; -1: there's none
    bool (*is_of)(const dm::type& t);                               // the library's own type class
    const dm::type& (*type)(bool reversed);                         // a type which the library requested
};

// the same call from the program and from libraries: the error is caught where it's called
inline std::string call_here(object& obj, int what, int arg);
}

namespace ph {
DYNAMIX_MAKE_FUNC_TRAITS(dump);
DYNAMIX_MAKE_FUNC_TRAITS(work);
DYNAMIX_MAKE_FUNC_TRAITS(need);

inline std::string call_here(object& obj, int what, int arg) {
    try {
        switch (what) {
        case 0: {
            strings s;
            dump(obj, s);
            std::string r;
            for (auto& x : s) r += x + ";";
            return r;
        }
        case 1: return work(obj, arg);
        case 2: return std::to_string(need(obj, "needed " + std::to_string(arg)));
        case 3: fail_msg::call(obj, arg); return "no error";
        // errors of the library itself
        case 4: mutate(obj, dm::add("no such mixin")); return "no error";
        case 5: {
            auto m = obj.get_domain().get_mixin_info("person");
            const dm::mixin_info* twice[] = {m, m};
            obj.get_domain().get_type(twice);
            return "no error";
        }
        }
    }
    catch (plug_error& e) { return "plug_error " + std::string(e.what()) + " " + std::to_string(e.value); }
    catch (dm::feature_error&) { return "feature_error"; }
    catch (dm::type_error&) { return "type_error"; }
    catch (dm::domain_error&) { return "domain_error"; }
    catch (dm::exception&) { return "exception"; }
    catch (std::exception& e) { return std::string("std ") + e.what(); }
    return "?";
}
}
