"""Generated parts of harnesses: C++ programs which can't be made at run time. Always the same for the same generator."""
import os
import random

NM = 10          # mixins tmx<0>..tmx<9>
NO_DEFAULT = 3   # tmx<3> has no default constructor

# kinds of initialisers: name, arguments in C++, number of kind (edsl.hpp: how)
def ctor(r, i):
    """(kind, declarations, arguments, check after, expected text)"""
    v = r.randrange(1000)
    k = r.randrange(8)
    u = 'x%d' % r.randrange(1 << 30)
    if k == 0:
        return '', str(v), '', 'int %d' % v
    if k == 1:
        return 'int %s = %d;' % (u, v), '%s, std::string("s%d")' % (u, v), 'c.after_ref(%s, %d);' % (u, v), 'ref %d s%d' % (v, v)
    if k == 2:
        return 'arg %s(%d);' % (u, v), 'std::move(%s)' % u, '', 'rarg %d' % v
    if k == 3:
        return 'arg %s(%d);' % (u, v), u, 'c.after_arg(%s, %d);' % (u, v), 'carg %d' % v
    if k == 4:
        return '', 'std::make_unique<int>(%d), %d' % (v, v), '', 'mo %d %d' % (v, v)
    if k == 5:
        return '', 'std::initializer_list<int>{%d, 2, 3}' % v, '', 'list %d' % v
    if k == 6:
        return '', '"text %d"' % v, '', 'cstr text %d' % v
    return 'const arg %s(%d);' % (u, v), '%s, arg(%d), c.same' % (u, v + 1), 'c.after_arg(%s, %d);' % (u, v), 'mix %d %d' % (v, v + 1)


def func_op(r, where):
    """initialiser as a function: (declarations, expression, check after, text)"""
    v = r.randrange(1000)
    k = r.randrange(3)
    u = 'f%d' % r.randrange(1 << 30)
    if k == 0:
        return '', '[&c](init_new_args a) { c.func(a, %d); }' % v, '', 'func %d' % v
    if k == 1:  # an lvalue is referenced, not copied
        return 'fobj %s(c, %d);' % (u, v), u, 'c.after_func(%s);' % u, 'func %d' % v
    return '', '[&c, p = std::make_unique<int>(%d)](init_new_args a) mutable { c.func(a, *p); p.reset(); }' % v, '', 'func %d' % v


def gen_exprs(r, n, to):
    """mutate(obj, ops...) or mutate_to(obj, type, ops...)"""
    res = []
    for e in range(n):
        num = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
        decl, ops, after, desc = [], [], [], []
        start = r.randrange(NM)
        for _ in range(num):
            # a few mixins, so that duplicates and interplay happen
            i = (start + r.randrange(6)) % NM if r.random() < 0.9 else r.randrange(NM)
            if not to and r.random() < 0.4:
                kind = r.choice(['remove', 'remove', 'to_back'])
                form = r.randrange(3)
                a = ['<tmx<%d>>()' % i, '(c.info(%d))' % i, '(c.name(%d))' % i][form]
                ops.append(kind + a)
                desc.append((1 if kind == 'remove' else 2, i, form == 2, ''))
                continue
            k = r.randrange(12)
            if k < 2:
                if to:
                    continue
                form = r.randrange(3)
                ops.append('add' + ['<tmx<%d>>()' % i, '(c.info(%d))' % i, '(c.name(%d))' % i][form])
                desc.append((0, i, form == 2, ''))
            elif k < 7:
                d, a, af, t = ctor(r, i)
                decl.append(d), after.append(af)
                ops.append(('construct' if to else 'add') + '<tmx<%d>>(%s)' % (i, a))
                desc.append((0, i, False, t))
            elif k < 10:
                d, a, af, t = func_op(r, i)
                decl.append(d), after.append(af)
                form = r.randrange(2)
                ops.append(('construct' if to else 'add') + '(%s, %s)' % (['c.info(%d)' % i, 'c.name(%d)' % i][form], a))
                desc.append((0, i, form == 1, t))
            else:
                v = r.randrange(1000)
                ov = r.random() < 0.7
                u = 'i%d' % r.randrange(1 << 30)
                if r.random() < 0.5:
                    ops.append('ci<%d>(c, %d, %d)' % (i, v, ov))
                else:
                    decl.append('ci<%d> %s(c, %d, %d);' % (i, u, v, ov))
                    ops.append(u)
                desc.append((0, i, False, 'func %d' % v if ov else ''))
        if not ops:
            if to:
                ops, desc = ['construct<tmx<1>>(7)'], [(0, 1, False, 'int 7')]
            else:
                ops, desc = ['add<tmx<1>>()'], [(0, 1, False, '')]
        res.append((decl, ops, after, desc))
    return res


def edsl(gdir, repo):
    r = random.Random(20240117)
    files = []
    tables = {}
    for to, n, parts in ((False, 300, 6), (True, 130, 3)):
        ex = gen_exprs(r, n, to)
        name = 'to' if to else 'mut'
        tables[name] = []
        for part in range(parts):
            out = ['// generated by tools/generate.py', '#include "edsl.hpp"', 'using namespace dynamix;', 'using namespace edsl;']
            for k in range(part, n, parts):
                decl, ops, after, desc = ex[k]
                body = ' '.join(d for d in decl if d)
                call = ('mutate_to(c.obj, *c.target, ' if to else 'mutate(c.obj, ') + ', '.join(ops) + ');'
                post = ' '.join(a for a in after if a)
                out.append('void e_%s_%d(ctx& c) { using namespace dynamix::mutate_ops; %s struct post_t { std::function<void()> f; ~post_t() { f(); } } post{[&] { %s }}; %s }' % (name, k, body, post, call))
                tables[name].append((k, ops, desc))
            f = os.path.join(gdir, 'gen_edsl_%s_%d.cpp' % (name, part))
            open(f, 'w').write('\n'.join(out) + '\n')
            files.append(f)
    out = ['// generated by tools/generate.py', '#include "edsl.hpp"', 'namespace edsl {']
    q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
    for name in ('mut', 'to'):
        tables[name].sort()
        out = out[:2] + ['void e_%s_%d(edsl::ctx&);' % (name, t[0]) for t in tables[name]] + out[2:]
        out.append('const std::vector<expr> exprs_%s = {' % name)
        for k, ops, desc in tables[name]:
            out.append('    {&::e_%s_%d, %s, {%s}},' % (name, k, q(', '.join(ops)), ', '.join('{%d, %d, %s, %s}' % (a, b, 'true' if c else 'false', q(d)) for a, b, c, d in desc)))
        out.append('};')
    out.append('}')
    f = os.path.join(gdir, 'gen_edsl_table.cpp')
    open(f, 'w').write('\n'.join(out) + '\n')
    files.append(f)
    return files, []




# ------------------------------------------------------------------------------------------------
# classes with all kinds of special members

CLASS_FILES, CLASSES_PER_FILE = 4, 30


def special(r, i):
    """a class; every operation it defines itself leaves a note"""
    name = 'k%d' % i
    pad = r.choice([0, 1, 3, 4, 7, 40])
    align = r.choice([0, 0, 0, 16, 32, 64, 128])
    member = r.choice(['', '', '', 'std::string s;', 'std::unique_ptr<int> u;'])
    init_v = r.random() < .5
    dflt = r.choice(['default', 'default', 'user', 'throw', 'delete'])
    copy = r.choice(['default', 'default', 'user', 'throw', 'delete', 'nonconst' if r.random() < .3 else 'default'])
    move = r.choice(['default', 'default', 'user', 'throw', 'delete', 'none'])
    casgn = r.choice(['default', 'default', 'user', 'throw', 'delete'])
    masgn = r.choice(['default', 'default', 'user', 'throw', 'delete', 'none'])
    dtor = r.choice(['none', 'default', 'default', 'user'])
    own_new = r.random() < .12
    o = ['struct %s%s {' % ('alignas(%d) ' % align if align else '', name), '    static constexpr int cls = %d;' % i]
    # members of which no one takes care in functions of the class
    o.append('    int v%s;' % (' = 7' if init_v else ''))
    if pad:
        o.append('    unsigned char pad[%d]%s;' % (pad, '{}' if init_v else ''))
    if member:
        o.append('    ' + member)
    zero = 'memset(pad, 5, sizeof(pad)); ' if pad else ''
    cp = 'memcpy(pad, o.pad, sizeof(pad)); ' if pad else ''
    def others(move):
        if 's;' in member:
            return 's = %s; ' % ('std::move(o.s)' if move else 'o.s')
        if 'u;' in member:
            return 'u = std::move(o.u); ' if move else 'u.reset(o.u ? new int(*o.u) : nullptr); '
        return ''
    mk = 's = "string of the class number " + std::to_string(x); ' if 's;' in member else 'u.reset(new int(x)); ' if 'u;' in member else ''
    o.append('    static constexpr bool inits = %s;' % ('true' if init_v or dflt in ('user', 'throw') else 'false'))
    o.append('    %s(tag, int x) : v(x) { %s%snote("tag"); }' % (name, 'memset(pad, x & 255, sizeof(pad)); ' if pad else '', mk))
    def user(decl, op, body, kind, ret=''):
        if kind in ('default', 'delete'):
            o.append('    %s = %s;' % (decl, kind))
        elif kind in ('user', 'nonconst'):
            o.append('    %s noexcept { note("%s"); %s%s}' % (decl, op, body, ret))
        elif kind == 'throw':
            o.append('    %s { may_throw(); note("%s"); %s%s}' % (decl, op, body, ret))
    if not (dflt == 'none'):
        user('%s()' % name, 'default', 'v = 42; ' + zero, dflt)
    if copy == 'nonconst':
        user('%s(%s& o)' % (name, name), 'copy', 'v = o.v; ' + cp + others(False), copy)
    else:
        user('%s(const %s& o)' % (name, name) if copy not in ('default', 'delete') else '%s(const %s&)' % (name, name), 'copy', 'v = o.v; ' + cp + others(False), copy)
    if move != 'none':
        user('%s(%s&& o)' % (name, name) if move not in ('default', 'delete') else '%s(%s&&)' % (name, name), 'move', 'v = o.v; o.v = -1; ' + cp + others(True), move)
    user('%s& operator=(const %s& o)' % (name, name) if casgn not in ('default', 'delete') else '%s& operator=(const %s&)' % (name, name),
         'copy asgn', 'v = o.v; ' + cp + others(False), casgn, 'return *this; ')
    if masgn != 'none':
        user('%s& operator=(%s&& o)' % (name, name) if masgn not in ('default', 'delete') else '%s& operator=(%s&&)' % (name, name),
             'move asgn', 'v = o.v; o.v = -1; ' + cp + others(True), masgn, 'return *this; ')
    if dtor != 'none':
        user('~%s()' % name, 'destroy', 'v = -2; ', dtor)
    if own_new:
        o.append('    static void* operator new(size_t n) { note("own new"); return ::operator new(n, std::align_val_t(128)); }')
        o.append('    static void operator delete(void* p) { note("own delete"); ::operator delete(p, std::align_val_t(128)); }')
    o.append('};')
    return name, '\n'.join(o)


def write(gdir, name, text):
    f = os.path.join(gdir, name)
    open(f, 'w').write(text + '\n')
    return f


def builder(gdir, repo):
    r = random.Random(20241119)
    files = []
    names = []
    i = 0
    for n in range(CLASS_FILES):
        text = ['#include "builder.hpp"', 'namespace builder {']
        mine = []
        for _ in range(CLASSES_PER_FILE):
            name, cls = special(r, i)
            i += 1
            text.append(cls)
            mine.append(name)
        text.append('extern const std::vector<class_test> classes_%d;' % n)
        text.append('const std::vector<class_test> classes_%d = {' % n)
        text += ['    {"%s", &test_class<%s>},' % (c, c) for c in mine]
        text += ['};', '}']
        files.append(write(gdir, 'gen_classes_%d.cpp' % n, '\n'.join(text)))
    return files, []


if __name__ == '__main__':
    import sys
    os.makedirs(sys.argv[2], exist_ok=True)
    print(globals()[sys.argv[1]](sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else '/repo'))


def v1_macros(gdir, repo, arity=5):
    """What v1compat/gen/gen_message_macros.rb makes (there is no ruby here)"""
    import re
    src = os.path.join(repo, 'v1compat', 'gen')
    out = os.path.join(gdir, 'inc', 'dynamix', 'v1compat', 'gen')
    os.makedirs(out, exist_ok=True)

    def params(n):
        if n == 0:
            p = dict.fromkeys(['args', 'arg_types', 'args_coma', 'args_signature', 'coma_args_signature', 'coma_args', 'coma_arg_types', 'fwd_args', 'coma_fwd_args'], '')
            p['arity'] = '0'
            return p
        a = ['a%d' % i for i in range(n)]
        t = ['arg%d_type' % i for i in range(n)]
        sig = ', '.join('%s %s' % x for x in zip(t, a))
        fwd = ', '.join('std::forward<%s>(%s)' % x for x in zip(t, a))
        return {'arity': str(n), 'args': ', '.join(a), 'arg_types': ', '.join(t),
                'args_coma': ', ' + ', '.join('%s, %s' % x for x in zip(t, a)),
                'args_signature': sig, 'coma_args_signature': ', ' + sig,
                'coma_args': ', ' + ', '.join(a), 'coma_arg_types': ', ' + ', '.join(t),
                'fwd_args': fwd, 'coma_fwd_args': ', ' + fwd}

    def expand(template, head=''):
        text = open(os.path.join(src, template)).read()
        return head + ''.join(re.sub(r'%\{(\w+)\}', lambda m, p=params(n): p[m.group(1)], text) for n in range(arity + 1))
    write(out, 'template_message_macros.ipp', expand('message_macros_template'))
    write(out, 'arity_message_macros.ipp', expand('arity_message_macros_template', '#include <limits>\n#include <type_traits>\n'))
    write(out, 'create_combinator_call.ipp', expand('create_combinator_call_template'))


V1_NM = 14


def v1(gdir, repo):
    """Messages and mixins with the macros of v1compat"""
    import shutil
    inc = os.path.join(gdir, 'inc')
    shutil.copytree(os.path.join(repo, 'v1compat', 'code'), inc, dirs_exist_ok=True)
    v1_macros(gdir, repo)
    r = random.Random(42)

    types = {'int': 'int', 'cstr': 'const std::string&', 'str': 'std::string', 'ref': 'int&', 'probe': 'vp1::probe',
             'rv': 'std::unique_ptr<int>&&', 'mo': 'std::unique_ptr<int>'}
    msgs = []  # name, method, macro parts, ret, const, multi, kinds, default, exported

    def msg(name, multi, const, kinds, ret='int', method=None, default=False, exported=False):
        msgs.append({'name': name, 'method': method or name, 'multi': multi, 'const': const, 'kinds': kinds, 'ret': ret,
                     'default': default, 'exported': exported, 'impls': []})
    basic = ['int', 'cstr', 'str', 'ref', 'probe']
    for n in range(6):
        for multi in (False, True):
            for const in (False, True):
                kinds = [r.choice(basic + ([] if multi else ['rv', 'mo'])) for _ in range(n)]
                msg('%s%s%d' % ('c' if const else '', 'm' if multi else 'u', n), multi, const, kinds,
                    r.choice(['int', 'int', 'double', 'bool']) if multi else r.choice(['int', 'double', 'void']),
                    default=r.random() < .4, exported=r.random() < .4)
    msg('vm', True, True, ['ref', 'str'], 'void')
    msg('ovl', False, False, ['int'])
    msg('ovl_s', False, False, ['cstr'], 'double', 'ovl', default=True)
    msg('ovl_si', False, True, ['str', 'int'], 'int', 'ovl', exported=True)
    msg('movl', True, False, ['int'])
    msg('movl_s', True, False, ['cstr'], 'double', 'movl', exported=True)
    msg('movl_sc', True, True, ['ref', 'probe'], 'int', 'movl', default=True)

    def sig(m):
        return ', '.join('%s a%d' % (types[k], i) for i, k in enumerate(m['kinds']))

    def margs(m):
        return ''.join(', %s, a%d' % (types[k], i) for i, k in enumerate(m['kinds']))

    mixins = []
    names = ['zz first', 'aa', 'v1g::mx5b', 'Z', 'mid', 'v1g', 'v1g::mx1 ', 'q']
    for i in range(V1_NM):
        mixins.append({'i': i, 'name': names.pop(0) if i % 3 == 1 else None, 'dep': i in (6, 11), 'user': 1000 + i if r.random() < .4 else 0,
                       'copyable': i not in (4, 9), 'movable': r.random() < .6, 'align': r.choice([0, 0, 0, 32, 64]), 'features': [], 'code': [], 'after': [], 'parent': []})
    for mi, m in enumerate(msgs):
        used = set()
        for x in r.sample(mixins, r.randint(2, 7)):
            how = r.random()
            bid = r.choice([0, 0, 0, 1, 1, 2, -1])
            prio = r.choice([0, 0, 0, 1, 2, -1])
            if how < .15:
                bid = prio = 0
            if not m['multi'] and r.random() < .93:
                for _ in range(30):
                    if (bid, prio) not in used:
                        break
                    bid = r.choice([0, 0, 1, 2, -1])
                    prio = r.choice([0, 1, 2, 3, -1, -2])
            used.add((bid, prio))
            bound = how < .15 and bid == 0 and prio == 0
            parent = not bound and how > .85
            m['impls'].append((x['i'], bid, prio, bound, parent))
            tag = m['name'] + '_msg'
            if bound:
                x['features'].append('bind(%s, mx%d_%s)' % (tag, x['i'], m['name']))
            elif not bid and not prio:
                x['features'].append(r.choice([tag, tag, 'bid(0, %s)' % tag]))
            elif not bid:
                x['features'].append(r.choice(['upriority(%d, %s)'] + (['priority(%d, %s)'] if m['multi'] else [])) % (prio, tag))
            elif not prio:
                x['features'].append('bid(%d, %s)' % (bid, tag))
            else:
                up = r.choice(['upriority', 'priority']) if m['multi'] else 'upriority'
                x['features'].append(r.choice(['bid({b}, {u}({p}, {t}))', '{u}({p}, bid({b}, {t}))', 'bid({b}, {u}({p}, bid(77, {t})))']).format(b=bid, p=prio, u=up, t=tag))
            body = ['vp1::rec r(%s, %d, %d);' % ('self' if bound else 'static_cast<%smx%d*>(this)' % ('const ' if m['const'] else '', x['i']) if parent else 'this', x['i'], mi)]
            if not bound and not parent:
                body.append('r.owner(dm_v1_this);')
            for i, k in enumerate(m['kinds']):
                body.append('r.arg_%s(%d, a%d);' % (k, i, i))
            ret = m['ret']
            if not bound and not parent:
                nargs = ''.join(', ' + ('std::move(a%d)' if k in ('rv', 'mo') else 'a%d') % i for i, k in enumerate(m['kinds']))
                call = 'DYNAMIX_V1_CALL_NEXT_BIDDER(%s%s)' % (tag, nargs)
                body.append('if (r.next(DYNAMIX_V1_HAS_NEXT_BIDDER(%s))) { %s }' % (tag, '%s; r.returned(0);' % call if ret == 'void' else 'r.returned(double(%s));' % call))
            if ret != 'void':
                body.append('return %s(r.ret<%s>());' % (ret, ret))
            else:
                body.append('r.ret<int>();')
            body = ' '.join(body)
            c = ' const' if m['const'] else ''
            if bound:
                x['after'].append('static %s mx%d_%s(%svoid* self%s) { %s }' % (ret, x['i'], m['name'], 'const ' if m['const'] else '', ''.join(', %s a%d' % (types[k], i) for i, k in enumerate(m['kinds'])), body))
            else:
                x['parent' if parent else 'code'].append('    %s %s(%s)%s { %s }' % (ret, m['method'], sig(m), c, body))

    # overloads in a parent and in the class: the class hides the ones of the parent
    for x in mixins:
        for meth in ('ovl', 'movl'):
            if any(' %s(' % meth in l for l in x['parent']) and any(' %s(' % meth in l for l in x['code']):
                x['code'].append('    using mx%d_parent::%s;' % (x['i'], meth))

    h = ['#pragma once', '#include "v1.hpp"', 'namespace v1g {']
    for x in mixins:
        h.append('DYNAMIX_V1_DECLARE_MIXIN(mx%d);' % x['i'])
    for m in msgs:
        parts = [p for p in ('EXPORTED' if m['exported'] else '', 'CONST' if m['const'] else '', 'MULTICAST' if m['multi'] else '', 'MESSAGE', str(len(m['kinds']))) if p]
        macro = 'DYNAMIX_V1_' + '_'.join(parts)
        ex = '__attribute__((visibility("default"))), ' if m['exported'] else ''
        if m['name'] != m['method']:
            h.append('%s_OVERLOAD(%s%s, %s, %s%s);' % (macro, ex, m['name'], m['ret'], m['method'], margs(m)))
        else:
            h.append('%s(%s%s, %s%s);' % (macro, ex, m['ret'], m['name'], margs(m)))
        if m['multi'] and m['ret'] != 'void':
            if m['name'] != m['method']:
                h.append('DYNAMIX_V1_CREATE_COMBINATOR_CALL_%d_OVERLOAD(%s, %s, %s%s)' % (len(m['kinds']), m['name'], m['ret'], m['method'], margs(m)))
            else:
                h.append('DYNAMIX_V1_CREATE_COMBINATOR_CALL_%d(%s, %s%s)' % (len(m['kinds']), m['ret'], m['name'], margs(m)))
    h.append('}')
    write(gdir, 'v1_gen.hpp', '\n'.join(h))

    files = []
    half = len(msgs) // 2
    for part in (0, 1):
        c = ['#include "v1_gen.hpp"', 'namespace v1g {', 'using namespace dynamix::v1compat;']
        for x in mixins[part::2]:
            i = x['i']
            c.append('struct mx%d;' % i)
            base = 'vp1::base<%d, %s, %s>' % (i, str(x['copyable']).lower(), str(x['movable']).lower())
            bases = 'public ' + base
            if x['parent']:
                c += ['template <typename mx%d> struct mx%d_parent_t {' % (i, i), '    int pad%d = 12;' % i] + x['parent'] + ['};', 'using mx%d_parent = mx%d_parent_t<mx%d>;' % (i, i, i)]
                bases += ', public mx%d_parent' % i
            c += ['class %s mx%d : %s {' % ('alignas(%d)' % x['align'] if x['align'] else '', i, bases), 'public:'] + x['code'] + ['};']
            c += x['after']
            feats = list(x['features'])
            r.shuffle(feats)
            if x['name']:
                feats.insert(r.randrange(len(feats) + 1), 'mixin_name("%s")' % x['name'])
            if x['dep']:
                feats.insert(r.randrange(len(feats) + 1), 'dependency_mixin(true)')
            if x['user']:
                feats.insert(r.randrange(len(feats) + 1), 'user_data(%d)' % x['user'])
            if not feats or r.random() < .2:
                feats.append('none')
            c.append('DYNAMIX_V1_DEFINE_MIXIN(mx%d, %s);' % (i, ' & '.join(feats)))
        for x in mixins[part::2]:
            i = x['i']
            c += ['extern const vp1::mixin_desc desc_mx%d;' % i, 'const vp1::mixin_desc desc_mx%d = vp1::make_desc<mx%d>(%d, "%s", %s, %d, %s, %d);' % (
                i, i, i, x['name'] or 'v1g::mx%d' % i, str(x['dep']).lower(), x['user'], str(x['copyable']).lower(), x['align'])]
        c.append('}')
        files.append(write(gdir, 'v1_mixins%d.cpp' % part, '\n'.join(c)))
        c = ['#include "v1_gen.hpp"', 'namespace v1g {']
        for m in (msgs[half:] if part == 0 else msgs[:half]):
            if m['default']:
                rec = 'vp1::drec r(dm_self, %d); ' % msgs.index(m) + ''.join('r.arg_%s(%d, a%d); ' % (k, i, i) for i, k in enumerate(m['kinds']))
                c.append('DYNAMIX_V1_DEFINE_MESSAGE_%d_WITH_DEFAULT_IMPL(%s, %s%s) { %s%s }' % (
                    len(m['kinds']), m['ret'], m['name'], margs(m), rec, 'r.ret<int>();' if m['ret'] == 'void' else 'return %s(r.ret<%s>());' % (m['ret'], m['ret'])))
            else:
                c.append('DYNAMIX_V1_DEFINE_MESSAGE(%s);' % m['name'])
        c.append('}')
        files.append(write(gdir, 'v1_msgs%d.cpp' % part, '\n'.join(c)))

    # tables
    c = ['#include "v1_gen.hpp"', '#include <dynamix/v1compat/combinators.hpp>', '#include <dynamix/v1compat/common_mutation_rules.hpp>', 'namespace v1g {',
         'using namespace dynamix::v1compat;']
    for x in mixins:
        c.append('extern const vp1::mixin_desc desc_mx%d;' % x['i'])
    for m in msgs:
        decls, call, after = [], [], []
        for i, k in enumerate(m['kinds']):
            decls.append('auto a%d = vp1::make_%s(%d);' % (i, k, i))
            move = k in ('rv', 'mo') or (k in ('str', 'probe') and r.random() < .4)
            call.append(', ' + ('std::move(a%d)' if move else 'a%d') % i)
            if not move:
                after.append('vp1::after_%s(%d, a%d);' % (k, i, i))
        o = 'std::as_const(o)' if m['const'] else 'o'
        cs = ''.join(call)
        c.append('static double call_%s(object& o) { %s double ret = 0; %s; %s return ret; }' % (
            m['name'], ' '.join(decls), ('%s(%s%s)' if m['ret'] == 'void' else 'ret = double(%s(%s%s))') % (m['method'], o, cs), ' '.join(after)))
        if m['multi'] and m['ret'] != 'void':
            ls = ''.join(', std::move(a%d)' % i if k in ('rv', 'mo') else ', a%d' % i for i, k in enumerate(m['kinds']))
            cc = ['static double comb_%s(object& o, int kind, vp1::collect& c) { %s double ret = 0; switch (kind) {' % (m['name'], ' '.join(decls))]
            for n, comb in enumerate(['combinators::sum', 'combinators::mean', 'combinators::boolean_and', 'combinators::boolean_or', 'vp1::last']):
                cc.append('case %d: ret = double(%s<%s>(%s%s)); break;' % (n, m['method'], comb, o, ls))
            cc.append('case 5: %s(%s%s, c); break;' % (m['method'], o, ls))
            for n, comb in enumerate(['sum', 'mean', 'boolean_and', 'boolean_or']):
                cc.append('case %d: { combinators::%s<%s> b; vp1::dirty(b); b.reset(); %s(%s%s, b); ret = double(b.result()); } break;' % (n + 6, comb, m['ret'], m['method'], o, ls))
            cc.append('} %s return ret; }' % ' '.join(after))
            c.append('\n'.join(cc))
    c.append('const std::vector<vp1::mixin_desc>& get_mixins() { static const std::vector<vp1::mixin_desc> t = {%s}; return t; }' % ', '.join('desc_mx%d' % x['i'] for x in mixins))
    c.append('const std::vector<vp1::msg_desc>& get_msgs() { static const std::vector<vp1::msg_desc> t = {')
    for m in msgs:
        c.append('{"%s", %s, %s, %s, "%s", vp1::kinds{%s}, {%s}, %s_msg_t::info, [](const object& o) { return o.implements(%s_msg); }, call_%s, %s},' % (
            m['name'], str(m['multi']).lower(), str(m['const']).lower(), str(m['default']).lower(), m['ret'], ', '.join('"%s"' % k for k in m['kinds']),
            ', '.join('{%d, %d, %d, %s}' % (a, b, p, 'false' if bound or par else 'true') for a, b, p, bound, par in m['impls']), m['name'], m['name'],
            m['name'], 'comb_' + m['name'] if m['multi'] and m['ret'] != 'void' else 'nullptr'))
    c.append('}; return t; }')
    c.append('vp1::rule_factory rules[] = {')
    for _ in range(24):
        k = r.choice(['deprecated_mixin', 'mandatory_mixin', 'substitute_mixin'])
        a, b = r.sample(range(V1_NM), 2)
        arg = 'mx%d' % a if k != 'substitute_mixin' else 'mx%d, mx%d' % (a, b)
        c.append('{vp1::%s, %d, %d, []() -> mutation_rule* { return new vp1::counted<%s<%s>>; }},' % (k, a, b, k, arg))
    c.append('};')
    c.append('const int num_rules = %d;' % 24)
    for k, cls in (('dep', 'dependent_mixins_dep'), ('oneshot', 'dependent_mixins_oneshot')):
        c.append('void set_master(%s& r, int i) { switch (i) { %s } }' % (cls, ' '.join('case %d: r.set_master<mx%d>(); break;' % (i, i) for i in range(V1_NM))))
    c.append('void add_to(impl::mixin_list& l, int i) { switch (i) { %s } }' % ' '.join('case %d: l.add<mx%d>(); break;' % (i, i) for i in range(V1_NM)))
    c.append('}')
    files.append(write(gdir, 'v1_tables.cpp', '\n'.join(c)))
    code = os.path.join(repo, 'v1compat', 'code', 'dynamix', 'v1compat')
    lib = [os.path.join(inc, 'dynamix', 'v1compat', f) for f in sorted(os.listdir(code)) if f.endswith('.cpp')]
    return files + lib, [inc, gdir]
