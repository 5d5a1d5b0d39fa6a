"""C++ wrappers for the classes of the library and for the generated messages."""
from .zoo import SC, FT, cpp, elem_cpp, enum_cpp, enums_of

PRE = r'''
#include <cstring>
#include <algorithm>
#include <array>
#include <limits>
#include <new>
#include <cstdint>
%(inc)s
#include <WireFormatter.h>
#include <Fields.h>
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>
#include <MessageInterface.h>
#include <MessageSizeCalculator.h>
#include <ReadBufferSection.h>
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>
#include "%(src)s/Fields.cpp"
#include "%(src)s/MessageInterface.cpp"
#include "%(src)s/ReadBufferSection.cpp"
namespace EP = ::EmbeddedProto;
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
#define VFX_ extern "C" __attribute__((used))
extern "C" {
  bool g_r_pop(void*, u8*); bool g_r_peek(const void*, u8*); bool g_r_adv1(void*); bool g_r_adv(void*, u32);
  u32 g_r_size(const void*); u32 g_r_max(const void*);
  bool g_w_push(void*, u8); bool g_w_pushn(void*, const u8*, u32); void g_w_clear(void*);
  u32 g_w_size(const void*); u32 g_w_max(const void*); u32 g_w_avail(const void*);
}
struct GhostRead final : EP::ReadBufferInterface {
  const u8* d = nullptr; u32 pos = 0, lim = 0, mode = 0;
  ~GhostRead() override = default;
  u32 get_size() const override { return g_r_size(this); }
  u32 get_max_size() const override { return g_r_max(this); }
  bool peek(u8& b) const override { return g_r_peek(this, &b); }
  bool advance() override { return g_r_adv1(this); }
  bool advance(const u32 n) override { return g_r_adv(this, n); }
  bool pop(u8& b) override { return g_r_pop(this, &b); }
};
struct GhostWrite final : EP::WriteBufferInterface {
  u8* d = nullptr; u32 len = 0, cap = 0;
  ~GhostWrite() override = default;
  void clear() override { g_w_clear(this); }
  u32 get_size() const override { return g_w_size(this); }
  u32 get_max_size() const override { return g_w_max(this); }
  u32 get_available_size() const override { return g_w_avail(this); }
  bool push(const u8 b) override { return g_w_push(this, b); }
  bool push(const u8* p, const u32 n) override { return g_w_pushn(this, p, n); }
};
VFX_ u64 gr_sizeof() { return sizeof(GhostRead); }
VFX_ u64 gw_sizeof() { return sizeof(GhostWrite); }
VFX_ void gr_ctor(void* p) { new(p) GhostRead(); }
VFX_ void gw_ctor(void* p) { new(p) GhostWrite(); }
VFX_ u64 sec_sizeof() { return sizeof(EP::ReadBufferSection); }
VFX_ void sec_ctor(void* p, void* b, u32 n) { new(p) EP::ReadBufferSection(*(EP::ReadBufferInterface*)b, n); }
VFX_ u32 sec_size(const void* p) { return ((const EP::ReadBufferInterface*)p)->get_size(); }
VFX_ u32 sec_max(const void* p) { return ((const EP::ReadBufferInterface*)p)->get_max_size(); }
VFX_ bool sec_peek(const void* p, u8* b) { return ((const EP::ReadBufferInterface*)p)->peek(*b); }
VFX_ bool sec_pop(void* p, u8* b) { return ((EP::ReadBufferInterface*)p)->pop(*b); }
VFX_ bool sec_adv1(void* p) { return ((EP::ReadBufferInterface*)p)->advance(); }
VFX_ bool sec_adv(void* p, u32 n) { return ((EP::ReadBufferInterface*)p)->advance(n); }
VFX_ u64 calc_sizeof() { return sizeof(EP::MessageSizeCalculator); }
VFX_ void calc_ctor(void* p) { new(p) EP::MessageSizeCalculator(); }
VFX_ u32 calc_size(const void* p) { return ((const EP::WriteBufferInterface*)p)->get_size(); }
VFX_ u32 calc_max(const void* p) { return ((const EP::WriteBufferInterface*)p)->get_max_size(); }
VFX_ u32 calc_avail(const void* p) { return ((const EP::WriteBufferInterface*)p)->get_available_size(); }
VFX_ bool calc_push(void* p, u8 b) { return ((EP::WriteBufferInterface*)p)->push(b); }
VFX_ bool calc_pushn(void* p, const u8* b, u32 n) { return ((EP::WriteBufferInterface*)p)->push(b, n); }
VFX_ void calc_clear(void* p) { ((EP::WriteBufferInterface*)p)->clear(); }
VFX_ u32 w_svarint32(u32 v, void* b) { return (u32)EP::WireFormatter::SerializeVarint(v, *(EP::WriteBufferInterface*)b); }
VFX_ u32 w_svarint64(u64 v, void* b) { return (u32)EP::WireFormatter::SerializeVarint(v, *(EP::WriteBufferInterface*)b); }
VFX_ u32 w_rvarint32(u32* v, void* b) { return (u32)EP::WireFormatter::DeserializeVarint(*(EP::ReadBufferInterface*)b, *v); }
VFX_ u32 w_rvarint64(u64* v, void* b) { return (u32)EP::WireFormatter::DeserializeVarint(*(EP::ReadBufferInterface*)b, *v); }
template<class T> struct B_ { typedef T t; };
static inline u32 bits(float v) { u32 r; memcpy(&r, &v, 4); return r; }
static inline u64 bits(double v) { u64 r; memcpy(&r, &v, 8); return r; }
static inline u8 bits(bool v) { return v ? 1 : 0; }
static inline u32 bits(int32_t v) { return (u32)v; }
static inline u32 bits(u32 v) { return v; }
static inline u64 bits(int64_t v) { return (u64)v; }
static inline u64 bits(u64 v) { return v; }
template<class V, class U> static inline V val(U u) { return (V)u; }
template<> inline float val<float, u32>(u32 u) { float r; memcpy(&r, &u, 4); return r; }
template<> inline double val<double, u64>(u64 u) { double r; memcpy(&r, &u, 8); return r; }
template<> inline bool val<bool, u8>(u8 u) { return (u & 1) != 0; }
#ifdef NATIVE
static u32 g_allocs = 0;
VFX_ u32 n_allocs() { return g_allocs; }
#define WRAP_(R, N, A, C) extern "C" R __real_##N A; extern "C" R __wrap_##N A { ++g_allocs; return __real_##N C; }
WRAP_(void*, malloc, (size_t n), (n))
WRAP_(void*, calloc, (size_t n, size_t m), (n, m))
WRAP_(void*, realloc, (void* p, size_t n), (p, n))
WRAP_(void, free, (void* p), (p))
WRAP_(void*, _Znwm, (size_t n), (n))
WRAP_(void*, _Znam, (size_t n), (n))
WRAP_(void, _ZdlPv, (void* p), (p))
WRAP_(void, _ZdlPvm, (void* p, size_t n), (p, n))
WRAP_(void, _ZdaPv, (void* p), (p))
VFX_ bool g_r_pop(void* p, u8* b) { auto* g = (GhostRead*)p; if(g->pos >= g->lim) return false; *b = g->d[g->pos++]; return true; }
VFX_ bool g_r_peek(const void* p, u8* b) { auto* g = (const GhostRead*)p; if(g->pos >= g->lim) return false; *b = g->d[g->pos]; return true; }
VFX_ bool g_r_adv1(void* p) { auto* g = (GhostRead*)p; if(g->pos >= g->lim) return false; ++g->pos; return true; }
VFX_ bool g_r_adv(void* p, u32 n) { auto* g = (GhostRead*)p; u32 l = g->lim - g->pos; bool r = n <= l; g->pos += r ? n : l; return r; }
VFX_ u32 g_r_size(const void* p) { auto* g = (const GhostRead*)p; return g->mode ? g->lim - g->pos : g->lim; }
VFX_ u32 g_r_max(const void* p) { return ((const GhostRead*)p)->lim; }
VFX_ bool g_w_push(void* p, u8 b) { auto* g = (GhostWrite*)p; if(g->len >= g->cap) return false; g->d[g->len++] = b; return true; }
VFX_ bool g_w_pushn(void* p, const u8* b, u32 n) { auto* g = (GhostWrite*)p; if(n > g->cap - g->len) return false; memcpy(g->d + g->len, b, n); g->len += n; return true; }
VFX_ void g_w_clear(void* p) { ((GhostWrite*)p)->len = 0; }
VFX_ u32 g_w_size(const void* p) { return ((const GhostWrite*)p)->len; }
VFX_ u32 g_w_max(const void* p) { return ((const GhostWrite*)p)->cap; }
VFX_ u32 g_w_avail(const void* p) { auto* g = (const GhostWrite*)p; return g->cap - g->len; }
VFX_ void n_gr_init(void* p, const u8* d, u32 pos, u32 lim, u32 mode) { auto* g = new(p) GhostRead(); g->d = d; g->pos = pos; g->lim = lim; g->mode = mode; }
VFX_ u32 n_gr_pos(void* p) { return ((GhostRead*)p)->pos; }
VFX_ void n_gw_init(void* p, u8* d, u32 len, u32 cap) { auto* g = new(p) GhostWrite(); g->d = d; g->len = len; g->cap = cap; }
VFX_ u32 n_gw_len(void* p) { return ((GhostWrite*)p)->len; }
#endif
'''


def uty(w):
    return {8: 'u8', 32: 'u32', 64: 'u64'}[w]


def pre(src, includes=()):
    return PRE % {'src': src, 'inc': '\n'.join(f'#include "{i}"' for i in includes)}


def scalar_lib():
    """wrappers of the wire formatter and of the scalar field classes"""
    o = ['enum class XE : u32 { Z = 0 };']
    for k, (w, wt, cv) in SC.items():
        cls = 'EP::enumeration<XE>' if k == 'enum' else 'EP::' + FT.get(k, k)
        U = uty(w)
        V = 'XE' if k == 'enum' else cv
        g = 'bits((u32)f.get())' if k == 'enum' else 'bits(f.get())'
        o.append(f'''
VFX_ u32 s_{k}_ser({U} v, void* b) {{ {cls} f(val<{V},{U}>(v)); return (u32)f.serialize(*(GhostWrite*)b); }}
VFX_ u32 s_{k}_serid({U} v, u32 id, void* b, bool opt) {{ {cls} f(val<{V},{U}>(v)); return (u32)f.serialize_with_id(id, *(GhostWrite*)b, opt); }}
VFX_ u32 s_{k}_size({U} v) {{ {cls} f(val<{V},{U}>(v)); return f.serialized_size(); }}
VFX_ u32 s_{k}_des({U}* v, void* b) {{ {cls} f(val<{V},{U}>(*v)); EP::Error e = f.deserialize(*(GhostRead*)b); *v = {g}; return (u32)e; }}
VFX_ u32 s_{k}_deschk({U}* v, void* b, u32 wt) {{ {cls} f(val<{V},{U}>(*v)); EP::WireFormatter::WireType t = (EP::WireFormatter::WireType)wt; EP::Error e = f.deserialize_check_type(*(GhostRead*)b, t); *v = {g}; return (u32)e; }}
VFX_ {U} s_{k}_clear({U} v) {{ {cls} f(val<{V},{U}>(v)); f.clear(); return {g}; }}
VFX_ {U} s_{k}_set({U} v, {U} v2) {{ {cls} f(val<{V},{U}>(v)); const {V} x = val<{V},{U}>(v2); f.set(x); return {g}; }}
VFX_ {U} s_{k}_setr({U} v, {U} v2) {{ {cls} f(val<{V},{U}>(v)); f.set(val<{V},{U}>(v2)); return {g}; }}
VFX_ {U} s_{k}_asg({U} v, {U} v2) {{ {cls} f(val<{V},{U}>(v)); {cls} g2(val<{V},{U}>(v2)); f = g2; return {g}; }}
VFX_ {U} s_{k}_asgv({U} v, {U} v2) {{ {cls} f(val<{V},{U}>(v)); const {V} x = val<{V},{U}>(v2); f = x; return {g}; }}
VFX_ {U} s_{k}_copy({U} v) {{ {cls} g2(val<{V},{U}>(v)); {cls} f(g2); return {g}; }}
VFX_ u32 s_{k}_cmp({U} v, {U} v2) {{ {cls} f(val<{V},{U}>(v)); const {V} x = val<{V},{U}>(v2); return (u32)(f == x) | (u32)(f != x) << 1 | (u32)(f < x) << 2 | (u32)(f > x) << 3 | (u32)(f <= x) << 4 | (u32)(f >= x) << 5; }}
VFX_ u32 s_{k}_cmpf({U} v, {U} v2) {{ {cls} f(val<{V},{U}>(v)); {cls} x(val<{V},{U}>(v2)); return (u32)(f == x) | (u32)(f != x) << 1 | (u32)(f < x) << 2 | (u32)(f > x) << 3 | (u32)(f <= x) << 4 | (u32)(f >= x) << 5; }}''')
    o.append('''
#define VFW_ EP::WireFormatter
VFX_ u32 w_varint32(u32 v, void* b) { return (u32)VFW_::SerializeVarint(v, *(GhostWrite*)b); }
VFX_ u32 w_varint64(u64 v, void* b) { return (u32)VFW_::SerializeVarint(v, *(GhostWrite*)b); }
VFX_ u32 w_dvarint32(u32* v, void* b) { return (u32)VFW_::DeserializeVarint(*(GhostRead*)b, *v); }
VFX_ u32 w_dvarint64(u64* v, void* b) { return (u32)VFW_::DeserializeVarint(*(GhostRead*)b, *v); }
VFX_ u32 w_tag(u32* wt, u32* id, void* b) { VFW_::WireType t = (VFW_::WireType)*wt; EP::Error e = VFW_::DeserializeTag(*(GhostRead*)b, t, *id); *wt = (u32)t; return (u32)e; }
VFX_ u32 w_mktag(u32 id, u32 wt) { return VFW_::MakeTag(id, (VFW_::WireType)wt); }
VFX_ u32 w_zz32(u32 v) { return VFW_::ZigZagEncode((int32_t)v); }
VFX_ u64 w_zz64(u64 v) { return VFW_::ZigZagEncode((int64_t)v); }
VFX_ u32 w_uzz32(u32 v) { return (u32)VFW_::ZigZagDecode(v); }
VFX_ u64 w_uzz64(u64 v) { return (u64)VFW_::ZigZagDecode(v); }
VFX_ u32 w_int32(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeInt(id, (int32_t)v, *(GhostWrite*)b); }
VFX_ u32 w_int64(u32 id, u64 v, void* b) { return (u32)VFW_::SerializeInt(id, (int64_t)v, *(GhostWrite*)b); }
VFX_ u32 w_uint32(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeUInt(id, v, *(GhostWrite*)b); }
VFX_ u32 w_uint64(u32 id, u64 v, void* b) { return (u32)VFW_::SerializeUInt(id, v, *(GhostWrite*)b); }
VFX_ u32 w_sint32(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeSInt(id, (int32_t)v, *(GhostWrite*)b); }
VFX_ u32 w_sint64(u32 id, u64 v, void* b) { return (u32)VFW_::SerializeSInt(id, (int64_t)v, *(GhostWrite*)b); }
VFX_ u32 w_fixed32(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeFixed(id, v, *(GhostWrite*)b); }
VFX_ u32 w_fixed64(u32 id, u64 v, void* b) { return (u32)VFW_::SerializeFixed(id, v, *(GhostWrite*)b); }
VFX_ u32 w_sfixed32(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeSFixed(id, (int32_t)v, *(GhostWrite*)b); }
VFX_ u32 w_sfixed64(u32 id, u64 v, void* b) { return (u32)VFW_::SerializeSFixed(id, (int64_t)v, *(GhostWrite*)b); }
VFX_ u32 w_float(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeFloat(id, val<float,u32>(v), *(GhostWrite*)b); }
VFX_ u32 w_double(u32 id, u64 v, void* b) { return (u32)VFW_::SerializeDouble(id, val<double,u64>(v), *(GhostWrite*)b); }
VFX_ u32 w_bool(u32 id, u8 v, void* b) { return (u32)VFW_::SerializeBool(id, val<bool,u8>(v), *(GhostWrite*)b); }
VFX_ u32 w_enum(u32 id, u32 v, void* b) { return (u32)VFW_::SerializeEnum(id, v, *(GhostWrite*)b); }
VFX_ u32 w_denum(u32* v, void* b) { XE x = (XE)*v; EP::Error e = VFW_::DeserializeEnum(*(GhostRead*)b, x); *v = (u32)x; return (u32)e; }
#undef VFW_
''')
    return '\n'.join(o)


def enum_lib(s):
    return '\n'.join(f'VFX_ u32 ENUM_{i}() {{ return (u32){c}; }}' for i, c, _ in enums_of(s))


def msg_lib(m):
    """wrappers of one generated message"""
    T, I = cpp(m), m.id
    o = [f'''
typedef {T} T_{I};
VFX_ u64 {I}__sizeof() {{ return sizeof(T_{I}); }}
VFX_ void {I}__ctor(void* p) {{ new(p) T_{I}(); }}
VFX_ void {I}__dtor(void* p) {{ ((T_{I}*)p)->~{m.name}(); }}
VFX_ void {I}__copy(void* d, const void* s) {{ new(d) T_{I}(*(const T_{I}*)s); }}
VFX_ void {I}__move(void* d, const void* s) {{ new(d) T_{I}(static_cast<const T_{I}&&>(*(const T_{I}*)s)); }}
VFX_ void {I}__asg(void* d, const void* s) {{ *(T_{I}*)d = *(const T_{I}*)s; }}
VFX_ void {I}__masg(void* d, const void* s) {{ *(T_{I}*)d = static_cast<const T_{I}&&>(*(const T_{I}*)s); }}
VFX_ void {I}__clear(void* p) {{ ((T_{I}*)p)->clear(); }}
VFX_ u32 {I}__ser(const void* p, void* b) {{ return (u32)((const T_{I}*)p)->serialize(*(EP::WriteBufferInterface*)b); }}
VFX_ u32 {I}__serid(const void* p, u32 id, void* b, bool opt) {{ return (u32)((const T_{I}*)p)->serialize_with_id(id, *(EP::WriteBufferInterface*)b, opt); }}
VFX_ u32 {I}__size(const void* p) {{ return ((const T_{I}*)p)->serialized_size(); }}
VFX_ u32 {I}__des(void* p, void* b) {{ return (u32)((T_{I}*)p)->deserialize(*(EP::ReadBufferInterface*)b); }}
VFX_ u32 {I}__deschk(void* p, void* b, u32 wt) {{ EP::WireFormatter::WireType t = (EP::WireFormatter::WireType)wt; return (u32)((T_{I}*)p)->deserialize_check_type(*(EP::ReadBufferInterface*)b, t); }}
VFX_ const char* {I}__name(u32 n) {{ return T_{I}::field_number_to_name((T_{I}::FieldNumber)n); }}
#ifdef MSG_TO_STRING
VFX_ void {I}__tostr(const void* p, void* v, u32 indent, const char* name, bool first, void* out) {{ *(EP::string_view*)out = ((const T_{I}*)p)->to_string(*(EP::string_view*)v, indent, name, first); }}
VFX_ void {I}__tostr1(const void* p, void* v, void* out) {{ *(EP::string_view*)out = ((const T_{I}*)p)->to_string(*(EP::string_view*)v); }}
#endif
''']
    for on in m.oneofs:
        o.append(f'VFX_ u32 {I}__which_{on}(const void* p) {{ return (u32)((const T_{I}*)p)->get_which_{on}(); }}')
    for f in m.fields:
        o.append(field_lib(m, f))
    return '\n'.join(o)


def field_lib(m, f):
    I, n = m.id, f.name
    P = f'{I}_{n}_'
    c, q = f'((const T_{I}*)p)', f'((T_{I}*)p)'
    o = [f'VFX_ void {P}clear(void* p) {{ {q}->clear_{n}(); }}',
         f'VFX_ u32 {P}num() {{ return (u32)T_{I}::FieldNumber::{n.upper()}; }}']
    if f.presence:
        o.append(f'VFX_ bool {P}has(const void* p) {{ return {c}->has_{n}(); }}')
    if f.rep:
        e = elem_cpp(f, m)
        R = f'::EmbeddedProto::RepeatedFieldFixedSize<{e}, {f.N}>'
        o.append(f'''VFX_ u32 {P}len(const void* p) {{ return {c}->get_{n}().get_length(); }}
VFX_ u32 {P}max(const void* p) {{ return {c}->get_{n}().get_max_length(); }}
VFX_ void {P}rset(void* p, const void* s) {{ {q}->set_{n}(((const T_{I}*)s)->get_{n}()); }}
VFX_ void {P}mclear(void* p) {{ {q}->mutable_{n}().clear(); }}
VFX_ const void* {P}fld(const void* p) {{ return &{c}->get_{n}(); }}
VFX_ const void* {P}fld2(const void* p) {{ return &{c}->{n}(); }}''')
        if f.scalar:
            w, _, cv = SC[f.kind]
            U = uty(w)
            V = enum_cpp(f, m) if f.kind == 'enum' else cv
            g = (lambda x: f'bits((u32)({x}))') if f.kind == 'enum' else (lambda x: f'bits({x})')
            o.append(f'''VFX_ {U} {P}at(const void* p, u32 i) {{ return {g(f"{c}->get_{n}().get_const(i).get()")}; }}
VFX_ {U} {P}at2(const void* p, u32 i) {{ return {g(f"{c}->{n}(i).get()")}; }}
VFX_ u32 {P}atc(const void* p, u32 i, {U}* v) {{ {e} x(val<{V},{U}>(*v)); EP::Error r = {c}->get_{n}().get_const(i, x); *v = {g("x.get()")}; return (u32)r; }}
VFX_ void {P}eset(void* p, u32 i, {U} v) {{ const {e} x(val<{V},{U}>(v)); {q}->set_{n}(i, x); }}
VFX_ void {P}eset2(void* p, u32 i, {U} v) {{ {q}->set_{n}(i, {e}(val<{V},{U}>(v))); }}
VFX_ void {P}mset(void* p, u32 i, {U} v) {{ {q}->mutable_{n}(i) = val<{V},{U}>(v); }}
VFX_ void {P}add(void* p, {U} v) {{ {q}->add_{n}({e}(val<{V},{U}>(v))); }}
VFX_ u32 {P}addr(void* p, {U} v) {{ return (u32){q}->mutable_{n}().add({e}(val<{V},{U}>(v))); }}
VFX_ u32 {P}setd(void* p, const {U}* v, u32 len) {{ {e} a[{f.N + 2}]; for(u32 i = 0; i < {f.N + 2}; ++i) a[i] = val<{V},{U}>(v[i]); return (u32){q}->mutable_{n}().set_data(a, len); }}''')
        elif f.kind == 'msg':
            o.append(f'''VFX_ const void* {P}ptr(const void* p, u32 i) {{ return &{c}->get_{n}().get_const(i); }}
VFX_ void* {P}mut(void* p, u32 i) {{ return &{q}->mutable_{n}(i); }}
VFX_ void {P}eset(void* p, u32 i, const void* v) {{ {q}->set_{n}(i, *(const {e}*)v); }}
VFX_ void {P}add(void* p, const void* v) {{ {q}->add_{n}(*(const {e}*)v); }}
VFX_ u32 {P}addr(void* p, const void* v) {{ return (u32){q}->mutable_{n}().add(*(const {e}*)v); }}''')
        else:
            D = 'char' if f.kind == 'string' else 'uint8_t'
            o.append(f'''VFX_ u32 {P}elen(const void* p, u32 i) {{ return {c}->get_{n}().get_const(i).get_length(); }}
VFX_ const void* {P}ecptr(const void* p, u32 i) {{ return {c}->get_{n}().get_const(i).get_const(); }}
VFX_ u8 {P}eat(const void* p, u32 i, u32 j) {{ return (u8){c}->get_{n}().get_const(i).get_const(j); }}
VFX_ void {P}eset(void* p, u32 i, const void* v, u32 len) {{ {e} x; x.set((const {D}*)v, len); {q}->set_{n}(i, x); }}
VFX_ void {P}add(void* p, const void* v, u32 len) {{ {e} x; x.set((const {D}*)v, len); {q}->add_{n}(x); }}
VFX_ u32 {P}addr(void* p, const void* v, u32 len) {{ {e} x; x.set((const {D}*)v, len); return (u32){q}->mutable_{n}().add(x); }}''')
    elif f.scalar:
        w, _, cv = SC[f.kind]
        U = uty(w)
        V = enum_cpp(f, m) if f.kind == 'enum' else cv
        g = (lambda x: f'bits((u32)({x}))') if f.kind == 'enum' else (lambda x: f'bits({x})')
        o.append(f'''VFX_ {U} {P}get(const void* p) {{ return {g(f"{c}->get_{n}()")}; }}
VFX_ {U} {P}get2(const void* p) {{ return {g(f"{c}->{n}()")}; }}
VFX_ void {P}set(void* p, {U} v) {{ const {V} x = val<{V},{U}>(v); {q}->set_{n}(x); }}
VFX_ void {P}set2(void* p, {U} v) {{ {q}->set_{n}(val<{V},{U}>(v)); }}''')
        if f.label != 'oneof' and f.kind != 'enum':
            o.append(f'VFX_ void {P}mset(void* p, {U} v) {{ {q}->mutable_{n}() = val<{V},{U}>(v); }}')
            o.append(f'VFX_ {U} {P}mut(void* p) {{ return {g(f"{q}->mutable_{n}()")}; }}')
    elif f.kind == 'msg':
        e = elem_cpp(f, m)
        o.append(f'''VFX_ const void* {P}ptr(const void* p) {{ return &{c}->get_{n}(); }}
VFX_ const void* {P}ptr2(const void* p) {{ return &{c}->{n}(); }}
VFX_ void* {P}mut(void* p) {{ return &{q}->mutable_{n}(); }}
VFX_ void {P}set(void* p, const void* v) {{ {q}->set_{n}(*(const {e}*)v); }}
VFX_ void {P}set2(void* p, const void* v) {{ {q}->set_{n}(static_cast<const {e}&&>(*(const {e}*)v)); }}''')
    else:
        e = elem_cpp(f, m)
        D = 'char' if f.kind == 'string' else 'uint8_t'
        o.append(f'''VFX_ u32 {P}len(const void* p) {{ return {c}->{fget(f)}.get_length(); }}
VFX_ u32 {P}max(const void* p) {{ return {c}->{fget(f)}.get_max_length(); }}
VFX_ u8 {P}at(const void* p, u32 j) {{ return (u8){c}->{fget(f)}.get_const(j); }}
VFX_ const void* {P}cptr(const void* p) {{ return {c}->{fget(f)}.get_const(); }}
VFX_ u8 {P}at2(const void* p, u32 j) {{ return (u8){c}->{fget(f)}[j]; }}
VFX_ u8 {P}raw(const void* p, u32 j) {{ return (u8){c}->{n}()[j]; }}
VFX_ u32 {P}atc(const void* p, u32 j, u8* v) {{ {D} x = ({D})*v; EP::Error r = {c}->{fget(f)}.get_const(j, x); *v = (u8)x; return (u32)r; }}
VFX_ u32 {P}mset(void* p, const void* v, u32 len) {{ return (u32){q}->mutable_{n}().set((const {D}*)v, len); }}
VFX_ void {P}mat(void* p, u32 j, u8 v) {{ {q}->mutable_{n}()[j] = ({D})v; }}
VFX_ void {P}mclear(void* p) {{ {q}->mutable_{n}().clear(); }}
VFX_ void {P}fset(void* p, const void* s) {{ {q}->set_{n}(((const T_{I}*)s)->{fget(f)}); }}
VFX_ u32 {P}set(void* p, const void* v, u32 len) {{ {e} x; EP::Error r = x.set((const {D}*)v, len); {q}->set_{n}(x); return (u32)r; }}''')
        if f.kind == 'string':
            o.append(f'VFX_ void {P}cset(void* p, const char* v) {{ {q}->mutable_{n}() = v; }}')
    return '\n'.join(o)


def fget(f):
    return f'get_{f.name}()'


WB_N = (1, 5, 64, 300, 70000)
RB_N = (1, 5, 64, 300, 70000)


def buffer_lib():
    """wrappers of the fixed size buffers"""
    o = []
    for n in WB_N:
        T = f'EP::WriteBufferFixedSize<{n}>'
        W = f'((EP::WriteBufferInterface*)p)'
        o.append(f'''
VFX_ u64 wb{n}_sizeof() {{ return sizeof({T}); }}
VFX_ void wb{n}_ctor(void* p) {{ new(p) {T}(); }}
VFX_ void wb{n}_clear(void* p) {{ {W}->clear(); }}
VFX_ u32 wb{n}_size(void* p) {{ return {W}->get_size(); }}
VFX_ u32 wb{n}_max(void* p) {{ return {W}->get_max_size(); }}
VFX_ u32 wb{n}_avail(void* p) {{ return {W}->get_available_size(); }}
VFX_ bool wb{n}_push(void* p, u8 b) {{ return {W}->push(b); }}
VFX_ bool wb{n}_pushn(void* p, const u8* b, u32 l) {{ return {W}->push(b, l); }}
VFX_ u8* wb{n}_data(void* p) {{ return (({T}*)p)->get_data(); }}''')
    for n in RB_N:
        T = f'EP::ReadBufferFixedSize<{n}>'
        W = f'((EP::ReadBufferInterface*)p)'
        o.append(f'''
VFX_ u64 rb{n}_sizeof() {{ return sizeof({T}); }}
VFX_ void rb{n}_ctor(void* p) {{ new(p) {T}(); }}
VFX_ void rb{n}_clear(void* p) {{ (({T}*)p)->clear(); }}
VFX_ u32 rb{n}_size(void* p) {{ return {W}->get_size(); }}
VFX_ u32 rb{n}_max(void* p) {{ return {W}->get_max_size(); }}
VFX_ bool rb{n}_peek(void* p, u8* b) {{ return {W}->peek(*b); }}
VFX_ bool rb{n}_pop(void* p, u8* b) {{ return {W}->pop(*b); }}
VFX_ bool rb{n}_adv1(void* p) {{ return {W}->advance(); }}
VFX_ bool rb{n}_adv(void* p, u32 m) {{ return {W}->advance(m); }}
VFX_ bool rb{n}_push(void* p, u8 b) {{ return (({T}*)p)->push(b); }}
VFX_ void rb{n}_setn(void* p, u32 m) {{ (({T}*)p)->set_bytes_written(m); }}
VFX_ u8* rb{n}_data(void* p) {{ return (({T}*)p)->get_data(); }}''')
    return '\n'.join(o)
