// Compressed input files, whole or damaged
#ifndef VP_PACK_H
#define VP_PACK_H
#include "vh.h"
#include <zlib.h>
namespace vh {
inline std::string packed_name(Rng &r) { return r.pick(std::vector<std::string>{".gz", ".GZ", ".z", ".Z", ".0z", ".1z", ".2z"}); }
inline void packed(Ctx &c, const std::string &name, const std::string &text, bool damaged) {
  gzFile z = gzopen(name.c_str(), "wb");
  c.expect(z != nullptr && gzwrite(z, text.data(), (unsigned)text.size()) == (int)text.size() && gzclose(z) == Z_OK, "skip:gzip", name);
  c.count("compressed_files");
  if (!damaged)
    return;
  std::string s = slurp(name);
  if (c.rng.chance(0.7)) // cut short
    s.resize(c.rng.chance(0.3) ? s.size() - 1 - c.rng.below(8) : c.rng.below(s.size()));
  else // wrong checksum
    s[s.size() - 5 - c.rng.below(4)] ^= (char)(1 + c.rng.below(255));
  spit(name, s);
  c.count("damaged_files");
}
} // namespace vh
#endif
