// C21: the same operations in every build; the driver compares the digests.
// --digest=FILE writes one 64-bit digest per operation, in a fixed order;
// --only=show:KIND:SEED prints one operation's result.
#include "ops.hpp"
using namespace mon;
int main(int argc, char** argv) {
  init(argc, argv);
  int kind; unsigned long seed;
  if (sscanf(opt.only.c_str(), "show:%d:%lu", &kind, &seed) == 2) { fprintf(out, "RESULT\t%s\n", ops::run(kind, seed).c_str()); fprintf(out, "DONE\t1\t1\n"); fflush(out); return 0; }
  long n = opt.thorough ? 60000 : 3000;
  if (opt.only.rfind("first:", 0) == 0) n = atol(opt.only.c_str() + 6);
  FILE* f = opt.digest_file.empty() ? nullptr : fopen(opt.digest_file.c_str(), "wb");
  for (int k = 0; k < ops::NK; k++) {
    for (long i = 0; i < n; i++) {
      uint64_t cl = i % 4 == 3 ? (opt.seed * 1000 + (uint64_t)i / 256) & 0x7fffffff : 0;
      uint64_t s = (cl << 32) | ((opt.seed * 1000003 + (uint64_t)(i + opt.shard * n)) & 0xffffffff);
      set_cur(ops::kinds[k].name, k, (long)s);
      std::string t = ops::run(k, s); uint64_t h = ops::hash(t);
      if (f) { fwrite(&s, 8, 1, f); fwrite(&h, 8, 1, f); }
      judged(t.size() > 2);
    }
    count((std::string("calls: ") + ops::kinds[k].name).c_str(), (uint64_t)n); sample(ops::kinds[k].name);
  }
  if (f) fclose(f);
  return finish();
}
