// Stand-ins for the absent `util` submodule: the part of it that FBTree uses, with the obvious meanings.
#pragma once
#include <stdlib.h>
#include <string.h>
#include <new>
#include <utility>
namespace util {
struct String {          // a counted byte string, ordered bytewise (unsigned), shorter first on equal prefixes
  int len;
  char str[];
  static String *make_string(String *s, char *p, int len) { s->len = len; memcpy(s->str, p, len); return s; }
  static String *make_string(char *p, int len) { return make_string((String *)malloc(sizeof(String) + len), p, len); }
  int cmp(const String &o) const {
    int n = len < o.len ? len : o.len;
    int r = n ? memcmp(str, o.str, n) : 0;
    return r ? r : len - o.len;
  }
  bool operator<(const String &o) const { return cmp(o) < 0; }
  bool operator>(const String &o) const { return cmp(o) > 0; }
  bool operator==(const String &o) const { return cmp(o) == 0; }
};
template <class K, class V> struct KVPair { K key; V value; };
template <class V> struct KVPair<String, V> {
  V value;
  String key;
  template <class T> static KVPair *make_kv(char *key, int len, T &&value) {
    auto *kv = (KVPair *)malloc(sizeof(KVPair) + len);
    new (&kv->value) V(std::forward<T>(value));
    String::make_string(&kv->key, key, len);
    return kv;
  }
};
}  // namespace util
