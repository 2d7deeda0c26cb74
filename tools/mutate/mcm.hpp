#ifndef MCM_HPP
#define MCM_HPP
#include <cstdlib>
#include <type_traits>
#include <utility>
extern "C" { extern int mcm_active; extern unsigned char* mcm_reached; }
namespace mcm
{
inline bool on(int k) { mcm_reached[k] = 1; return mcm_active == k; }
template <class T> bool cond(int k, T&& c) { bool b = static_cast<bool>(c); mcm_reached[k] |= b ? 2 : 1; mcm_reached[k + 1] |= b ? 1 : 2; if (mcm_active == k) { return true; } if (mcm_active == k + 1) { return false; } return b; }
template <class T> T lit(int k, T v) { mcm_reached[k] = mcm_reached[k + 1] = 1; return mcm_active == k ? T(v + 1) : mcm_active == k + 1 ? T(v - 1) : v; }
inline bool blit(int k, bool v) { mcm_reached[k] = 1; return mcm_active == k ? !v : v; }
template <class T> std::decay_t<T> neg(int k, T&& v) { mcm_reached[k] = 1; return mcm_active == k ? std::decay_t<T>(-v) : std::decay_t<T>(v); }
#define MCM_OP(N, OP, O1, O2) \
template <class A, class B, class = void> struct N##_1 : std::false_type {}; template <class A, class B> struct N##_1<A, B, std::void_t<decltype(std::declval<A>() O1 std::declval<B>())>> : std::is_convertible<decltype(std::declval<A>() O1 std::declval<B>()), decltype(std::declval<A>() OP std::declval<B>())> {}; \
template <class A, class B, class = void> struct N##_2 : std::false_type {}; template <class A, class B> struct N##_2<A, B, std::void_t<decltype(std::declval<A>() O2 std::declval<B>())>> : std::is_convertible<decltype(std::declval<A>() O2 std::declval<B>()), decltype(std::declval<A>() OP std::declval<B>())> {}; \
template <class A, class B> auto N(int k, A&& a, B&& b) -> decltype(std::forward<A>(a) OP std::forward<B>(b)) { \
    mcm_reached[k] = mcm_reached[k + 1] = 1; \
    if constexpr (N##_1<A, B>::value) { if (mcm_active == k) { return std::forward<A>(a) O1 std::forward<B>(b); } } \
    if constexpr (N##_2<A, B>::value) { if (mcm_active == k + 1) { return std::forward<A>(a) O2 std::forward<B>(b); } } \
    return std::forward<A>(a) OP std::forward<B>(b); }
MCM_OP(lt, <, <=, >=) MCM_OP(le, <=, <, >) MCM_OP(gt, >, >=, <=) MCM_OP(ge, >=, >, <) MCM_OP(eq, ==, !=, <=) MCM_OP(ne, !=, ==, <)
MCM_OP(add, +, -, *) MCM_OP(sub, -, +, *) MCM_OP(mul, *, +, /) MCM_OP(div, /, *, -) MCM_OP(rem, %, /, +)
MCM_OP(adda, +=, -=, =) MCM_OP(suba, -=, +=, =) MCM_OP(mula, *=, /=, =) MCM_OP(diva, /=, *=, =)
}
#endif
