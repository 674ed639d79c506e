// C24. Compiled twice, as the host is and with -include fake_endian.hpp: each writes out the tables as the library's
// code sees them, element by element with the width of the type that the code reads them through.
// fake: every element of more than a byte must be the byte-swapped little-endian one, every byte the same.
// Then (fake) the elements are swapped back in place, so that the library, all of it compiled for a "big-endian" host,
// has the values such a host would load, and the workload of h_digest runs on it.
#define main digest_main
#include "h_digest.cpp"
#undef main
#ifdef FULL
#include "idna.cpp"   // the library itself, in this translation unit
#else
#include "table_store.hpp"
#endif
namespace tb = ada::idna::table_blob;
template <class T> static T swapped(T v) { unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof(T)); std::reverse(b, b + sizeof(T)); memcpy(&v, b, sizeof(T)); return v; }
struct Table { const char* name; const unsigned char* p; size_t n, width; };
static std::vector<Table> tables() {
  std::vector<Table> t;
  auto add = [&](const char* name, auto* p, size_t n) { t.push_back({name, (const unsigned char*)p, n, sizeof(*p)}); };
  add("idna_stage1", ai::idna_stage1, tb::count_idna_stage1);
  add("idna_stage2", ai::idna_stage2, tb::count_idna_stage2);
  add("idna_bool_blocks", ai::idna_bool_blocks, tb::count_idna_bool_blocks);
  add("idna_utf8_mappings", ai::idna_utf8_mappings, tb::count_idna_utf8_mappings);
  add("decomposition_index", ai::decomposition_index, tb::count_decomposition_index);
  add("decomposition_block", ai::decomposition_block_flat, tb::count_decomposition_block);
  add("decomposition_data", ai::decomposition_data, tb::count_decomposition_data);
  add("ccc_index", ai::ccc_index, tb::count_ccc_index);
  add("ccc_block", ai::ccc_block_flat, tb::count_ccc_block);
  add("composition_index", ai::composition_index, tb::count_composition_index);
  add("composition_block", ai::composition_block_flat, tb::count_composition_block);
  add("composition_data", ai::composition_data, tb::count_composition_data);
  add("id_continue", &ai::id_continue[0][0], tb::count_id_continue_flat);
  add("id_start", &ai::id_start[0][0], tb::count_id_start_flat);
  add("dir_start", ai::dir_start, tb::count_dir_start);
  add("dir_final", ai::dir_final, tb::count_dir_final);
  add("dir_value", ai::dir_value, tb::count_dir_value);
  add("combining_ranges", &ai::combining_ranges[0][0], tb::count_combining_flat);
  return t;
}
int main(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "", file = argc > 2 ? argv[2] : "";
  if (!ai::ensure_tables()) { printf("BAD not ready|the tables are refused when the host is big-endian\nOK 0\n"); return 0; }
  auto ts = tables();
  if (mode == "write") {
    FILE* f = fopen(file.c_str(), "wb");
    for (auto& t : ts) fwrite(t.p, t.width, t.n, f);
    fclose(f);
    printf("OK 0\n");
    return 0;
  }
  std::string ref;
  { std::ifstream g(file, std::ios::binary); std::stringstream ss; ss << g.rdbuf(); ref = ss.str(); }
  size_t at = 0, n = 0, bad = 0, multi = 0;
  for (auto& t : ts)
    for (size_t i = 0; i < t.n; i++, n++) {
      const unsigned char *x = t.p + i * t.width, *y = (const unsigned char*)ref.data() + at;
      at += t.width;
      if (at > ref.size()) { printf("BAD layout|the tables have different sizes\nOK %zu\n", n); return 0; }
      bool same = true;
      for (size_t k = 0; k < t.width; k++) same = same && x[k] == y[t.width - 1 - k];
      multi += t.width > 1;
      if (!same && bad++ < 5) {
        uint64_t a = 0, b = 0;
        for (size_t k = 0; k < t.width; k++) { a = a << 8 | x[k]; b = b << 8 | y[t.width - 1 - k]; }
        printf("BAD element|%s[%zu]: a big-endian host loads %llX, a little-endian one %llX\n", t.name, i, (unsigned long long)a, (unsigned long long)b);
      }
    }
  if (mode == "digest" && !bad) {
    for (auto& t : ts)
      for (size_t i = 0; i < t.n && t.width > 1; i++) std::reverse((unsigned char*)t.p + i * t.width, (unsigned char*)t.p + (i + 1) * t.width);
    int rc = digest_main(argc - 2, argv + 2);
    if (rc) return rc;
  }
  printf("multi-byte elements %zu\nOK %zu\n", multi, n);
  return 0;
}
