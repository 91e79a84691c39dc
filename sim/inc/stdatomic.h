/* Simulator seam for C11 atomics: every atomic operation is a scheduling
 * point. Found before the compiler's own <stdatomic.h>. */
#ifndef SIM_STDATOMIC_H
#define SIM_STDATOMIC_H
#include_next <stdatomic.h>
void sim_atomic_point(int kind, const volatile void *addr);
#undef atomic_init
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_exchange
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub
#undef atomic_fetch_sub_explicit
#undef atomic_fetch_or
#undef atomic_fetch_or_explicit
#undef atomic_fetch_xor
#undef atomic_fetch_xor_explicit
#undef atomic_fetch_and
#undef atomic_fetch_and_explicit
#define SIM_AP(k, p) sim_atomic_point(k, (const volatile void *)(p))
#define atomic_init(p, v) (SIM_AP(2, p), __c11_atomic_init(p, v))
#define atomic_store_explicit(p, v, o) (SIM_AP(2, p), __c11_atomic_store(p, v, o))
#define atomic_store(p, v) atomic_store_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_load_explicit(p, o) (SIM_AP(1, p), __c11_atomic_load(p, o))
#define atomic_load(p) atomic_load_explicit(p, __ATOMIC_SEQ_CST)
#define atomic_exchange_explicit(p, v, o) (SIM_AP(3, p), __c11_atomic_exchange(p, v, o))
#define atomic_exchange(p, v) atomic_exchange_explicit(p, v, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_strong_explicit(p, e, v, a, b) \
    (SIM_AP(3, p), __c11_atomic_compare_exchange_strong(p, e, v, a, b))
#define atomic_compare_exchange_strong(p, e, v) \
    atomic_compare_exchange_strong_explicit(p, e, v, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b) \
    (SIM_AP(3, p), __c11_atomic_compare_exchange_weak(p, e, v, a, b))
#define atomic_compare_exchange_weak(p, e, v) \
    atomic_compare_exchange_weak_explicit(p, e, v, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define SIM_RMW(op, p, v, o) (SIM_AP(3, p), __c11_atomic_fetch_##op(p, v, o))
#define atomic_fetch_add_explicit(p, v, o) SIM_RMW(add, p, v, o)
#define atomic_fetch_add(p, v) SIM_RMW(add, p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_sub_explicit(p, v, o) SIM_RMW(sub, p, v, o)
#define atomic_fetch_sub(p, v) SIM_RMW(sub, p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_or_explicit(p, v, o) SIM_RMW(or, p, v, o)
#define atomic_fetch_or(p, v) SIM_RMW(or, p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_xor_explicit(p, v, o) SIM_RMW(xor, p, v, o)
#define atomic_fetch_xor(p, v) SIM_RMW(xor, p, v, __ATOMIC_SEQ_CST)
#define atomic_fetch_and_explicit(p, v, o) SIM_RMW(and, p, v, o)
#define atomic_fetch_and(p, v) SIM_RMW(and, p, v, __ATOMIC_SEQ_CST)
#endif
