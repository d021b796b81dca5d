// FBTree: see fbtree.h
#include "kv.h"
#include "fbt_util/epoch.h"
bool fbt_alone;
int util::Epoch::self() { return mc::self(); }
#define X(n) void fbt_##n(mc::Suite &, bool conc, bool th);
X(u64) X(i64) X(u32) X(i32) X(str) X(strx) X(str1) X(big)
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough", conc = prop == "C33";
    s.rule = conc ? "every interleaving of each concurrent program on the real tree, checked for linearizability"
                  : "every operation sequence applied to the real tree and compared with the reference map after every step";
    fbt_alone = !conc;
    fbt_u64(s, conc, th); fbt_str(s, conc, th);
    if (!conc) { fbt_i64(s, conc, th); fbt_u32(s, conc, th); fbt_i32(s, conc, th); fbt_strx(s, conc, th); fbt_str1(s, conc, th); fbt_big(s, conc, th); }
    return s;
  });
}
