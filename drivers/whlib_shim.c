// Wormhole's lib.h seen from C++.
#include "wormhole/lib.h"
#include "whlib.h"
union Lk { spinlock s; rwlock r; mutex m; };
void *wl_new(int kind) {
  union Lk *l = malloc(sizeof *l);
  memset(l, 0, sizeof *l);
  if (kind == 0) spinlock_init(&l->s); else if (kind == 1) mutex_init(&l->m); else rwlock_init(&l->r);
  return l;
}
bool wl_do(void *p, int op) {
  union Lk *l = p;
  switch (op) {
    case SP_LOCK: spinlock_lock(&l->s); return true;
    case SP_TRY: return spinlock_trylock(&l->s);
    case SP_UN: spinlock_unlock(&l->s); return true;
    case MU_LOCK: mutex_lock(&l->m); return true;
    case MU_TRY: return mutex_trylock(&l->m);
    case MU_UN: mutex_unlock(&l->m); return true;
    case RD: rwlock_lock_read(&l->r); return true;
    case RD_TRY: return rwlock_trylock_read(&l->r);
    case RD_LP: return rwlock_trylock_read_lp(&l->r);
    case RD_NR: return rwlock_trylock_read_nr(&l->r, 1);
    case RD_UN: rwlock_unlock_read(&l->r); return true;
    case WR: rwlock_lock_write(&l->r); return true;
    case WR_TRY: return rwlock_trylock_write(&l->r);
    case WR_NR: return rwlock_trylock_write_nr(&l->r, 1);
    case WR_HP: rwlock_lock_write_hp(&l->r); return true;
    case WR_TRYHP: return rwlock_trylock_write_hp(&l->r);
    case WR_NRHP: return rwlock_trylock_write_hp_nr(&l->r, 1);
    case WR_UN: rwlock_unlock_write(&l->r); return true;
    case WR_DOWN: rwlock_write_to_read(&l->r); return true;
  }
  return false;
}
void *wq_create(void) { return qsbr_create(); }
void wq_destroy(void *q) { qsbr_destroy(q); }
unsigned wq_refsize(void) { return sizeof(struct qsbr_ref); }
bool wq_register(void *q, void *r) { return qsbr_register(q, r); }
void wq_unregister(void *q, void *r) { qsbr_unregister(q, r); }
void wq_update(void *r, unsigned long v) { qsbr_update(r, v); }
void wq_park(void *r) { qsbr_park(r); }
void wq_resume(void *r) { qsbr_resume(r); }
void wq_wait(void *q, unsigned long v) { qsbr_wait(q, v); }
unsigned wq_hash(void *p) { return crc32c_u64(0, (u64)p); }
void *ws_create(unsigned long o, unsigned long b) { return slab_create(o, b); }
bool ws_reserve(void *s, unsigned long n) { return slab_reserve_unsafe(s, n); }
void *ws_alloc(void *s, bool safe) { return safe ? slab_alloc_safe(s) : slab_alloc_unsafe(s); }
void ws_free(void *s, void *p, bool safe) { if (safe) slab_free_safe(s, p); else slab_free_unsafe(s, p); }
void ws_free_all(void *s) { slab_free_all(s); }
unsigned long ws_nalloc(void *s) { return slab_get_nalloc(s); }
void ws_destroy(void *s) { slab_destroy(s); }
