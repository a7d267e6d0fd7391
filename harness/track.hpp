// Monitors: tracking memory resources, mixin allocators and the mixin lifetime registry
#pragma once
#include "vp.hpp"
#include <dynamix/allocator.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_of.hpp>
#include <dnmx/mixin_allocator.h>
#include <dynamix/compat/pmr/memory_resource.hpp>
#include <new>

namespace vp {

struct block {
    uintptr_t addr;
    size_t size, align;
    int owner; // id of resource / mixin allocator
    const dynamix::mixin_info* info; // for mixin allocators
};

struct mixin_desc;

struct inst {
    uint64_t token; // logical mixin: kept by moves
    uint64_t content;
    const mixin_desc* d;
    bool moved_from;
    int custom; // id of custom init (0: none)
};

struct event {
    char kind; // i c m d a(copy asgn) v(move asgn)
    const mixin_desc* d;
    uint64_t token;
    uintptr_t addr;
};

struct monitor {
    std::map<uintptr_t, block> blocks;
    std::map<uintptr_t, inst> insts;
    uint64_t next_token = 1;
    std::vector<event> events;
    const void* cur_obj = nullptr; // if set, all mixins touched by callbacks must belong to it
    uint64_t allocs = 0;
    std::map<int, uint64_t> owner_allocs;

    void reset() {
        blocks.clear();
        insts.clear();
        events.clear();
        owner_allocs.clear();
        next_token = 1;
        cur_obj = nullptr;
    }
    const block* find_block(uintptr_t a) const {
        auto i = blocks.upper_bound(a);
        if (i == blocks.begin()) return nullptr;
        --i;
        if (a > i->second.addr + i->second.size) return nullptr;
        return &i->second;
    }
    size_t outstanding(int owner) const {
        size_t n = 0;
        for (auto& b : blocks) n += b.second.owner == owner;
        return n;
    }
};
inline monitor& mon() { static monitor m; return m; }

enum owner_id { own_default = 0, own_domain = 1, own_obj0 = 10, own_obj1 = 11, own_obj2 = 12, own_data = 30, own_ma0 = 20, own_ma1 = 21, own_mac = 22 };

inline void* tracked_alloc(size_t size, size_t align, int owner, const dynamix::mixin_info* info) {
    VP_CHECK("alloc-align", align && (align & (align - 1)) == 0, "allocation with bad alignment %zu (owner %d)", align, owner);
    fault::pause p;
    // a bit more than requested so that a zero-sized block has its own address
    void* ptr = nullptr;
    size_t a = align < sizeof(void*) ? sizeof(void*) : align;
    if (posix_memalign(&ptr, a, size ? size : 1)) abort();
    memset(ptr, 0xCD, size ? size : 1);
    auto& m = mon();
    ++m.allocs;
    ++m.owner_allocs[owner];
    m.blocks[uintptr_t(ptr)] = {uintptr_t(ptr), size, align, owner, info};
    return ptr;
}
void check_no_live_in(uintptr_t addr, size_t size);

inline void tracked_free(void* ptr, size_t size, size_t align, int owner, const dynamix::mixin_info* info) {
    auto& m = mon();
    auto f = m.blocks.find(uintptr_t(ptr));
    VP_CHECK("dealloc-unknown", f != m.blocks.end(), "deallocation of %p which is not an allocated block (owner %d)", ptr, owner);
    auto& b = f->second;
    VP_CHECK("dealloc-owner", b.owner == owner, "block of owner %d deallocated by %d", b.owner, owner);
    VP_CHECK("dealloc-size", b.size == size && b.align == align, "block of size %zu align %zu deallocated with size %zu align %zu (owner %d)", b.size, b.align, size, align, owner);
    VP_CHECK("dealloc-info", b.info == info, "mixin buffer deallocated for another mixin");
    check_no_live_in(b.addr, b.size);
    m.blocks.erase(f);
    free(ptr);
}

// the library's own memory resources may be in use instead of the standard ones
using base_resource = dynamix::compat::pmr::memory_resource;
#if DYNAMIX_HAS_PMR
inline base_resource* set_default_resource(base_resource* r) { return std::pmr::set_default_resource(r); }
#else
// calls of the library's function are redirected to this one by the linker
inline base_resource* g_default_resource = nullptr;
extern "C" base_resource* real_default_resource() noexcept __asm__("__real__ZN7dynamix6compat3pmr20get_default_resourceEv");
extern "C" inline __attribute__((used)) base_resource* wrap_default_resource() noexcept __asm__("__wrap__ZN7dynamix6compat3pmr20get_default_resourceEv");
extern "C" inline __attribute__((used)) base_resource* wrap_default_resource() noexcept { return g_default_resource ? g_default_resource : real_default_resource(); }
inline base_resource* set_default_resource(base_resource* r) { return std::exchange(g_default_resource, r); }
#endif

struct resource final : base_resource {
    int id;
    bool faulty = true;
    explicit resource(int id) : id(id) {}
    void* do_allocate(size_t n, size_t a) override {
        if (faulty && fault::hit(fault::alloc)) throw std::bad_alloc();
        return tracked_alloc(n, a, id, nullptr);
    }
    void do_deallocate(void* p, size_t n, size_t a) override { tracked_free(p, n, a, id, nullptr); }
    bool do_is_equal(const base_resource& o) const noexcept override { return this == &o; }
};

struct cpp_mixin_allocator final : dynamix::mixin_allocator {
    int id;
    explicit cpp_mixin_allocator(int id) : id(id) {}
    dynamix::byte_t* alloc_mixin_buf(const dynamix::mixin_info& info) override {
        if (fault::hit(fault::alloc)) throw std::bad_alloc();
        return static_cast<dynamix::byte_t*>(tracked_alloc(info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, id, &info));
    }
    void dealloc_mixin_buf(dynamix::byte_t* ptr, const dynamix::mixin_info& info) noexcept override {
        tracked_free(ptr, info.obj_buf_size, info.obj_buf_alignment_and_mixin_offset, id, &info);
    }
};

inline void* c_alloc_mixin(const dnmx_mixin_info* info) {
    if (fault::hit(fault::alloc)) return nullptr;
    return tracked_alloc(info->obj_buf_size, info->obj_buf_alignment_and_mixin_offset, own_mac, info);
}
inline void c_dealloc_mixin(void* ptr, const dnmx_mixin_info* info) {
    tracked_free(ptr, info->obj_buf_size, info->obj_buf_alignment_and_mixin_offset, own_mac, info);
}

// ------------------------------------------------------------------------------------------------
// generated mixins: all have the same functions which find their description through user_data

struct feat_use {
    struct feat_desc* f;
    int32_t bid, prio;
};

struct mixin_desc {
    std::string name;
    uint32_t size = 0, align = 0;
    dynamix::mixin_info info;
    std::shared_ptr<std::vector<dnmx_feature_for_mixin>> features; // may be shared by mixins
    std::vector<feat_use> uses;
    int alloc = -1; // owner id of mixin allocator
    int dom = -1; // model: index of domain where registered
    uint32_t id = 0; // model: expected id
    int index = 0;
    bool has_destroy = true;
    std::shared_ptr<char[]> payloads;
};
inline const mixin_desc* desc_of(const dnmx_mixin_info* i) { return reinterpret_cast<const mixin_desc*>(i->user_data); }

inline uint8_t pattern(uint64_t content, uint32_t i, const mixin_desc* d) {
    return uint8_t(hash_mix(content * 31 + uint64_t(d->index), i));
}
inline void write_pattern(void* p, const inst& in) {
    auto b = static_cast<uint8_t*>(p);
    for (uint32_t i = 0; i < in.d->size; ++i) b[i] = pattern(in.content, i, in.d);
}
inline void check_pattern(const void* p, const inst& in, const char* where) {
    auto b = static_cast<const uint8_t*>(p);
    for (uint32_t i = 0; i < in.d->size; ++i) {
        VP_CHECK("state-corrupt", b[i] == pattern(in.content, i, in.d), "%s: byte %u of mixin '%s' (size %u) changed behind its back", where, i, in.d->name.c_str(), in.d->size);
    }
}
inline void check_no_live_in(uintptr_t addr, size_t size) {
    auto& is = mon().insts;
    for (auto i = is.lower_bound(addr); i != is.end() && i->first <= addr + size;) {
        VP_CHECK("free-live", !i->second.d->has_destroy, "memory freed while mixin '%s' in it is alive (never destroyed)", i->second.d->name.c_str());
        i = is.erase(i);
    }
}
inline void check_place(const dnmx_mixin_info* info, const void* p, const char* what) {
    auto d = desc_of(info);
    VP_CHECK("bad-info", d && &d->info == info, "%s called with a wrong info", what);
    VP_CHECK("null-mixin", p, "%s of '%s' with null", what, d->name.c_str());
    if (d->align) VP_CHECK("mixin-align", uintptr_t(p) % d->align == 0, "%s: mixin '%s' (align %u) at %p", what, d->name.c_str(), d->align, p);
    auto b = mon().find_block(uintptr_t(p));
    VP_CHECK("mixin-bounds", b && b->addr + sizeof(void*) <= uintptr_t(p) && uintptr_t(p) + d->size <= b->addr + b->size,
        "%s: mixin '%s' (size %u) at %p is not inside allocated memory", what, d->name.c_str(), d->size, p);
    if (mon().cur_obj) {
        VP_CHECK("object-of", dynamix::object_of(p) == mon().cur_obj, "%s: object_of(mixin '%s') is %p, not the object %p", what, d->name.c_str(), (const void*)dynamix::object_of(p), mon().cur_obj);
    }
}
inline inst& new_inst(const dnmx_mixin_info* info, void* p, const char* what) {
    check_place(info, p, what);
    auto& m = mon();
    auto d = desc_of(info);
    auto f = m.insts.find(uintptr_t(p));
    if (f != m.insts.end()) {
        VP_CHECK("double-init", !f->second.d->has_destroy, "%s of '%s' over a living mixin '%s'", what, d->name.c_str(), f->second.d->name.c_str());
    }
    auto& i = m.insts[uintptr_t(p)];
    i = inst{};
    i.d = d;
    return i;
}
inline inst& live_inst(const dnmx_mixin_info* info, const void* p, const char* what) {
    check_place(info, p, what);
    auto f = mon().insts.find(uintptr_t(p));
    VP_CHECK("not-alive", f != mon().insts.end(), "%s: mixin '%s' at %p is not alive", what, desc_of(info)->name.c_str(), p);
    VP_CHECK("wrong-mixin", f->second.d == desc_of(info), "%s: mixin at %p is '%s' and not '%s'", what, p, f->second.d->name.c_str(), desc_of(info)->name.c_str());
    if (!f->second.moved_from) check_pattern(p, f->second, what);
    return f->second;
}
// errors: throw or return
inline dynamix::error_return_t fail_func(fault::kind, uint64_t salt) {
    if (salt & 1) throw fault::injected();
    return 0x77;
}
inline void do_construct(const dnmx_mixin_info* info, void* p, uint64_t content, int custom, const char* what) {
    auto& i = new_inst(info, p, what);
    i.token = mon().next_token++;
    i.content = content;
    i.custom = custom;
    write_pattern(p, i);
    mon().events.push_back({'i', i.d, i.token, uintptr_t(p)});
}
inline dynamix::error_return_t f_init(const dnmx_mixin_info* info, void* p) {
    check_place(info, p, "init");
    if (fault::hit(fault::init)) return fail_func(fault::init, uintptr_t(info->user_data) >> 4 ^ mon().next_token);
    do_construct(info, p, mon().next_token % 4, 0, "init");
    return 0;
}
inline dynamix::error_return_t f_copy_init(const dnmx_mixin_info* info, void* p, const void* src) {
    check_place(info, p, "copy_init");
    if (fault::hit(fault::copy)) return fail_func(fault::copy, mon().next_token);
    uint64_t content;
    {
        auto c = mon().cur_obj;
        mon().cur_obj = nullptr;
        content = live_inst(info, src, "copy_init source").content;
        mon().cur_obj = c;
    }
    auto& i = new_inst(info, p, "copy_init");
    i.token = mon().next_token++;
    i.content = content;
    write_pattern(p, i);
    mon().events.push_back({'c', i.d, i.token, uintptr_t(p)});
    return 0;
}
inline void f_move_init(const dnmx_mixin_info* info, void* p, void* src) noexcept {
    inst s;
    {
        auto c = mon().cur_obj;
        mon().cur_obj = nullptr;
        auto& l = live_inst(info, src, "move_init source");
        VP_CHECK("move-from-moved", !l.moved_from, "move_init from an already moved-out mixin '%s'", l.d->name.c_str());
        s = l;
        l.moved_from = true;
        memset(src, 0xDD, s.d->size);
        mon().cur_obj = c;
    }
    auto& i = new_inst(info, p, "move_init");
    i = s;
    write_pattern(p, i);
    mon().events.push_back({'m', i.d, i.token, uintptr_t(p)});
}
inline dynamix::error_return_t f_copy_asgn(const dnmx_mixin_info* info, void* p, const void* src) {
    check_place(info, p, "copy_asgn");
    if (fault::hit(fault::copy)) return fail_func(fault::copy, mon().next_token + mon().events.size());
    uint64_t content;
    {
        auto c = mon().cur_obj;
        mon().cur_obj = nullptr;
        content = live_inst(info, src, "copy_asgn source").content;
        mon().cur_obj = c;
    }
    auto& i = live_inst(info, p, "copy_asgn");
    i.content = content;
    i.moved_from = false;
    write_pattern(p, i);
    mon().events.push_back({'a', i.d, i.token, uintptr_t(p)});
    return 0;
}
// content of moved-out mixins after move assignment
constexpr uint64_t moved_content = 77;
inline void f_move_asgn(const dnmx_mixin_info* info, void* p, void* src) noexcept {
    auto c = mon().cur_obj;
    mon().cur_obj = nullptr;
    auto& s = live_inst(info, src, "move_asgn source");
    mon().cur_obj = c;
    auto& i = live_inst(info, p, "move_asgn");
    if (&s != &i) {
        i.content = s.content;
        write_pattern(p, i);
        s.content = moved_content;
        write_pattern(src, s);
    }
    mon().events.push_back({'v', i.d, i.token, uintptr_t(p)});
}
inline void f_destroy(const dnmx_mixin_info* info, void* p) noexcept {
    auto& i = live_inst(info, p, "destroy");
    mon().events.push_back({i.moved_from ? 'x' : 'd', i.d, i.token, uintptr_t(p)});
    mon().insts.erase(uintptr_t(p));
    memset(p, 0xEE, desc_of(info)->size);
}
inline bool f_equals(const dnmx_mixin_info* info, const void* a, const void* b) noexcept {
    auto c = mon().cur_obj;
    mon().cur_obj = nullptr;
    bool r = live_inst(info, a, "equals").content == live_inst(info, b, "equals").content;
    mon().cur_obj = c;
    mon().events.push_back({'q', desc_of(info), 0, uintptr_t(a)});
    return r;
}
inline int f_compare(const dnmx_mixin_info* info, const void* a, const void* b) noexcept {
    auto c = mon().cur_obj;
    mon().cur_obj = nullptr;
    auto x = live_inst(info, a, "compare").content, y = live_inst(info, b, "compare").content;
    mon().cur_obj = c;
    mon().events.push_back({'k', desc_of(info), 0, uintptr_t(a)});
    return x < y ? -3 : x > y ? 5 : 0;
}

}
