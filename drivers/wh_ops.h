// What the C side (wh_shim.h, one copy of wormhole per configuration) offers to the driver.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
struct WhOps {
  const char *name;
  unsigned kpn;
  void *(*create)(int api);                // 0 wormhole, 1 whsafe, 2 whunsafe
  void (*destroy)(void *map);
  void (*clean)(void *map);
  void *(*ref)(void *map, int api);
  void (*unref)(void *ref, int api);
  void (*park)(void *ref);
  void (*resume)(void *ref);
  void (*refresh)(void *ref);
  int (*put)(int api, void *r, const char *k, unsigned n, long v);
  long (*get)(int api, void *r, const char *k, unsigned n, int own_buffer);      // value or 0
  int (*probe)(int api, void *r, const char *k, unsigned n);
  int (*del)(int api, void *r, const char *k, unsigned n);
  long (*inp)(int api, void *r, const char *k, unsigned n, long v, int write, int *found);  // old value; stores v if write
  long (*merge)(int api, void *r, const char *k, unsigned n, long v, int mode);  // old value; mode 0 replace, 1 insert only, 2 decline, 3 in place
  long (*delr)(int api, void *r, const char *a, unsigned an, const char *b, unsigned bn);   // b NULL: no upper end
  // iterators: returns the number of entries given to f
  long (*scan)(int api, void *r, const char *k, unsigned n, long skip, long max, int mode, void (*f)(void *, const char *, unsigned, long), void *arg);
  unsigned (*hash)(const char *k, unsigned n);
};
void wh_fail(const char *msg);
#ifdef __cplusplus
}
#endif
