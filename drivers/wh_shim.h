// One copy of wormhole (wh.c is included with the configuration of the including file).
#include "wormhole/wh.c"
#include "wh_ops.h"
#define VAL(v) (8 + (u32)((v) % 5))
static void whx_fill(u8 *p, long v) { memcpy(p, &v, 8); for (u32 i = 8; i < VAL(v); i++) p[i] = (u8)(v + i); }
static long whx_val(const u8 *p, u32 n) {
  long v; memcpy(&v, p, 8);
  if (n != VAL(v)) wh_fail("stored value has a wrong length");
  for (u32 i = 8; i < n; i++) if (p[i] != (u8)(v + i)) wh_fail("stored value has wrong bytes");
  return v;
}
static const struct kvmap_api *whx_api(int a) { return a == 0 ? &kvmap_api_wormhole : a == 1 ? &kvmap_api_whsafe : &kvmap_api_whunsafe; }
static void *whx_create(int a) { return a == 2 ? whunsafe_create(NULL) : wormhole_create(NULL); }
static void *whx_ref(void *map, int a) { return a == 2 ? map : whx_api(a)->ref(map); }
static void whx_unref(void *r, int a) { if (a != 2) whx_api(a)->unref(r); }
static struct kref whx_key(const char *k, u32 n) { struct kref r; kref_ref_hash32(&r, (const u8 *)k, n); return r; }
static long whx_kvval(const struct kv *kv, const char *k, u32 n) {
  if (kv->klen != n || memcmp(kv->kv, k, n)) wh_fail("an operation was given the wrong key");
  return whx_val(kv->kv + n, kv->vlen);
}
static void whx_mk(struct kv *kv, const char *k, u32 n, long v) { u8 b[16]; whx_fill(b, v); kv_refill(kv, k, n, b, VAL(v)); }
static int whx_put(int a, void *r, const char *k, unsigned n, long v) {
  u64 buf[64]; struct kv *kv = (struct kv *)buf;
  whx_mk(kv, k, n, v);
  return whx_api(a)->put(r, kv);
}
static long whx_get(int a, void *r, const char *k, unsigned n, int own) {
  u64 buf[64];
  struct kref key = whx_key(k, n);
  struct kv *kv = whx_api(a)->get(r, &key, own ? (struct kv *)buf : NULL);
  if (!kv) return 0;
  long v = whx_kvval(kv, k, n);
  if (!own) free(kv);
  return v;
}
static int whx_probe(int a, void *r, const char *k, unsigned n) { struct kref key = whx_key(k, n); return whx_api(a)->probe(r, &key); }
static int whx_del(int a, void *r, const char *k, unsigned n) { struct kref key = whx_key(k, n); return whx_api(a)->del(r, &key); }
struct whx_arg { const char *k; u32 n; long v, old; int mode, calls; u64 buf[64]; };
static void whx_inpf(struct kv *const kv, void *const p) {
  struct whx_arg *x = p;
  x->calls++;
  if (!kv) return;
  x->old = whx_kvval(kv, x->k, x->n);
  if (x->mode) {                                             // the value keeps its length
    long v = x->v - x->v % 5 + x->old % 5;
    whx_fill(kv->kv + x->n, v);
  }
}
static long whx_inp(int a, void *r, const char *k, unsigned n, long v, int write, int *found) {
  struct kref key = whx_key(k, n);
  struct whx_arg x = {.k = k, .n = n, .v = v, .mode = write};
  *found = write ? whx_api(a)->inpw(r, &key, whx_inpf, &x) : whx_api(a)->inpr(r, &key, whx_inpf, &x);
  if (x.calls != 1) wh_fail("the in-place function was not called exactly once");
  return x.old;
}
static struct kv *whx_mergef(struct kv *const kv0, void *const p) {
  struct whx_arg *x = p;
  x->calls++;
  x->old = kv0 ? whx_kvval(kv0, x->k, x->n) : 0;
  struct kv *kv = (struct kv *)x->buf;
  switch (x->mode) {
    case 1: if (kv0) return kv0; break;
    case 2: return NULL;
    case 3: if (kv0) { long v = x->v - x->v % 5 + x->old % 5; whx_fill(kv0->kv + x->n, v); return kv0; } return NULL;
  }
  whx_mk(kv, x->k, x->n, x->v);
  return kv;
}
static long whx_merge(int a, void *r, const char *k, unsigned n, long v, int mode) {
  struct kref key = whx_key(k, n);
  struct whx_arg x = {.k = k, .n = n, .v = v, .mode = mode};
  bool ok = whx_api(a)->merge(r, &key, whx_mergef, &x);
  if (mode == 4) return ok;                                 // an allocation may fail
  if (!ok) wh_fail("merge reports an error");
  if (x.calls != 1) wh_fail("the merge function was not called exactly once");
  return x.old;
}
static long whx_delr(int a, void *r, const char *s, unsigned sn, const char *e, unsigned en) {
  struct kref ka = whx_key(s, sn), kb;
  if (e) kb = whx_key(e, en);
  return (long)whx_api(a)->delr(r, &ka, e ? &kb : NULL);
}
static void whx_iterf(struct kv *const kv, void *const p) { *(struct kv **)p = kv; }
static long whx_scan(int a, void *r, const char *k, unsigned n, long skip, long max, int mode, void (*f)(void *, const char *, unsigned, long), void *arg) {
  const struct kvmap_api *api = whx_api(a);
  struct kref key = whx_key(k, n);
  void *it = api->iter_create(r);
  api->iter_seek(it, &key);
  if (skip) api->iter_skip(it, (u32)skip);
  long c = 0;
  u64 buf[64]; struct kv *out = (struct kv *)buf;
  while (c < max) {
    if (mode == 1) {                                          // next copies into a new block
      struct kv *kv = api->iter_next(it, NULL);
      if (!kv) break;
      f(arg, (char *)kv->kv, kv->klen, whx_val(kv->kv + kv->klen, kv->vlen)); c++;
      free(kv);
      continue;
    }
    if (!api->iter_valid(it)) { if (api->iter_peek(it, out)) wh_fail("an invalid iterator gives an entry"); break; }
    struct kv *kv = api->iter_peek(it, out), *in = NULL;
    struct kref kr; struct kvref kvr;
    if (!api->iter_kref(it, &kr) || !api->iter_kvref(it, &kvr) || !api->iter_inp(it, whx_iterf, &in)) wh_fail("a valid iterator has no entry");
    if (kr.len != kv->klen || memcmp(kr.ptr, kv->kv, kr.len) || kvr.hdr.klen != kv->klen || kvr.hdr.vlen != kv->vlen || memcmp(kvr.vptr, kv->kv + kv->klen, kv->vlen) || in->klen != kv->klen) wh_fail("the ways to read an iterator's entry disagree");
    f(arg, (char *)kv->kv, kv->klen, whx_val(kv->kv + kv->klen, kv->vlen)); c++;
    api->iter_skip1(it);
  }
  if (a != 2) api->iter_park(it);
  if (mode == 2 && a != 2) { api->iter_seek(it, &key); api->iter_seek(it, &key); if (a == 1) api->iter_park(it); }
  api->iter_destroy(it);
  return c;
}
static unsigned whx_hash(const char *k, unsigned n) { return whx_key(k, n).hash32; }
const struct WhOps WHNAME = {WHTITLE, WH_KPN, whx_create, (void *)wormhole_destroy, (void *)wormhole_clean, whx_ref, whx_unref, (void *)wormhole_park, (void *)wormhole_resume, (void *)wormhole_refresh_qstate,
  whx_put, whx_get, whx_probe, whx_del, whx_inp, whx_merge, whx_delr, whx_scan, whx_hash};
