#pragma once
#ifdef __cplusplus
extern "C" {
#else
#include <stdbool.h>
#endif
enum { SP_LOCK = 1, SP_TRY, SP_UN, MU_LOCK, MU_TRY, MU_UN, RD, RD_TRY, RD_LP, RD_NR, RD_UN, WR, WR_TRY, WR_NR, WR_HP, WR_TRYHP, WR_NRHP, WR_UN, WR_DOWN };
void *wl_new(int kind);
bool wl_do(void *p, int op);
void *wq_create(void);
void wq_destroy(void *q);
unsigned wq_refsize(void);
bool wq_register(void *q, void *r);
void wq_unregister(void *q, void *r);
void wq_update(void *r, unsigned long v);
void wq_park(void *r);
void wq_resume(void *r);
void wq_wait(void *q, unsigned long v);
unsigned wq_hash(void *p);
void *ws_create(unsigned long o, unsigned long b);
bool ws_reserve(void *s, unsigned long n);
void *ws_alloc(void *s, bool safe);
void ws_free(void *s, void *p, bool safe);
void ws_free_all(void *s);
unsigned long ws_nalloc(void *s);
void ws_destroy(void *s);
#ifdef __cplusplus
}
#endif
