// Every lookup table in a heap block of its own: an index past the end of a table, which inside the one big buffer reads
// the next table unseen, then lands in a red zone of the sanitizer. Used only if it compiles (the names are internal).
#pragma once
#include "table_store.hpp"
#include <cstdlib>
#include <cstring>
namespace split {
template <class P> void own(P& p, std::size_t bytes) {
  void* q = std::malloc(bytes);
  std::memcpy(q, (const void*)p, bytes);
  p = reinterpret_cast<P>(q);   // lives as long as the process, as the tables do
}
inline bool all() {
  using namespace ada::idna;
  namespace t = ada::idna::table_blob;
  if (!ensure_tables()) return false;
  own(idna_stage1, t::count_idna_stage1 * 2);
  own(idna_stage2, t::count_idna_stage2 * 2);
  own(idna_bool_blocks, t::count_idna_bool_blocks * 8);
  own(idna_utf8_mappings, t::count_idna_utf8_mappings);
  own(decomposition_index, t::count_decomposition_index);
  own(decomposition_block_flat, t::count_decomposition_block * 2);
  own(decomposition_data, t::count_decomposition_data * 4);
  own(ccc_index, t::count_ccc_index);
  own(ccc_block_flat, t::count_ccc_block);
  own(composition_index, t::count_composition_index);
  own(composition_block_flat, t::count_composition_block * 2);
  own(composition_data, t::count_composition_data * 4);
  own(id_continue, t::count_id_continue_flat * 4);
  own(id_start, t::count_id_start_flat * 4);
  own(dir_start, t::count_dir_start * 4);
  own(dir_final, t::count_dir_final * 4);
  own(dir_value, t::count_dir_value);
  own(combining_ranges, t::count_combining_flat * 4);
  return true;
}
}
