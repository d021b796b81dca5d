// Key universes and configuration builders shared by the two adaptive radix trees.
#pragma once
#include "kv.h"
#include <string>
#include <vector>
namespace art {
using namespace kv;
inline std::vector<std::vector<std::string>> &universes() { static std::vector<std::vector<std::string>> u; return u; }
struct Par { int uni = 0; };
inline const std::string &keystr(int uni, int k) { return universes()[uni][k]; }
inline int add_universe(std::vector<std::string> u) {
  std::sort(u.begin(), u.end());
  universes().push_back(u); return universes().size() - 1;
}
// n keys that differ in one byte below a common first byte, spread over 0..255
inline int fan(int n, const std::string &pre, const std::string &post, int step = 0) {
  std::vector<std::string> u;
  for (int i = 0; i < n; i++) { char b = step ? i * step : (n > 1 ? i * 255 / (n - 1) : 0); u.push_back(pre + b + post); }
  return add_universe(u);
}
struct Situation {       // a universe, the keys prefilled (in order), the keys operations act on, and absent keys of interest
  std::string name;
  int uni;
  std::vector<int> pre;
  std::vector<int> hot;
};
inline int find_key(int u, const std::string &s) { for (size_t i = 0; i < universes()[u].size(); i++) if (universes()[u][i] == s) return i; abort(); }

// S: how many prefix bytes a node stores
inline std::vector<Situation> situations(bool th, int S = 11) {
  std::vector<Situation> r;
  // node population thresholds: grow 4->16->48->256, shrink 256->48->16->4, collapse of a two-entry node
  for (int n : {1, 2, 3, 4, 5, 12, 13, 16, 17, 37, 38, 48, 49}) {
    int u = fan(n + 3, "p", "");
    Situation s{"fan" + std::to_string(n), u, {}, {}};
    for (int i = 0; i < n + 3; i++) if (i != 1 && i != (n + 3) / 2 && (int)s.pre.size() < n) s.pre.push_back(i);
    s.hot = {1, n >= 2 ? s.pre[n / 2] : (n + 3) / 2, s.pre[0], n + 2};
    if (n >= 17) std::reverse(s.pre.begin(), s.pre.end());
    r.push_back(s);
  }
  // the same thresholds reached by removal: a bigger node type that has shrunk to its minimum
  auto named = [&](const std::string &nm, std::vector<std::string> keys, std::vector<std::string> pre, std::vector<std::string> hot) {
    std::vector<std::string> all = keys; for (auto &x : pre) all.push_back(x); for (auto &x : hot) all.push_back(x);
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    int u = add_universe(all);
    Situation s{nm, u, {}, {}};
    for (auto &x : pre) s.pre.push_back(find_key(u, x));
    for (auto &x : hot) s.hot.push_back(find_key(u, x));
    r.push_back(s);
  };
  // prefixes: short, exactly as long as stored, longer
  for (int L : {1, 3, S - 1, S, S + 1, S + 2, S + 4, S + 14}) {
    if (!th && (L == S - 1 || L == S + 14)) continue;
    std::string c; for (int i = 0; i < L; i++) c += i < 26 ? 'a' + i : '0' + i - 26;
    auto mod = [&](int at, char x) { std::string s = c; s[at] = x; return "q" + s + "mm"; };
    std::string base = "q" + c;
    named("pfx" + std::to_string(L), {}, {base + "mm", base + "ms"}, {mod(L / 2, 'Z'), base + "my", base + "mm", base + "tt"});
    if (L > 2) named("pfy" + std::to_string(L), {}, {base + "mm", base + "tt", mod(L - 1, 'Z')}, {mod(0, 'Z'), mod(L - 1, 'Z'), base + "mm", mod(L / 2, 'Z')});
  }
  // collapse that merges two prefixes, also across the stored length
  for (int L : {2, 6, S, S + 3}) {
    std::string c(L, 'k');
    named("merge" + std::to_string(L), {}, {"r" + c + "1" + c + "ab", "r" + c + "1" + c + "ac", "r" + c + "2z"}, {"r" + c + "2z", "r" + c + "1" + c + "ac", "r" + c + "1" + c + "x9", "r" + c + "3q"});
  }
  // two leaves and an inner node hanging on one node
  named("mix", {}, {"sa1", "sa2", "sb1", "sc12", "sc13"}, {"sa1", "sa2", "sb1", "sb2"});
  named("tiny", {}, {"ta"}, {"ta", "tb", "u0", "tc"});
  return r;
}
}  // namespace art
