// Compares a parsed structure of the library with the oracle's.
#ifndef VERIF_JCOMPARE_H_
#define VERIF_JCOMPARE_H_
#include <algorithm>
#include "codec.h"
#include "jmodel.h"
#include "runner.h"
namespace jm {
inline Bytes S(const std::vector<uint8_t>& v) { return Bytes((const char*)v.data(), v.size()); }
enum { kDims = 1, kTables = 2, kScans = 4, kMarkers = 8, kCoefs = 16, kMeta = 32, kAll = 63 };
// Empty when equal.
inline std::string Compare(const Image& m, const brunsli::JPEGData& j, int what) {
  using vf::Fmt;
  if (what & kDims) {
    if (j.width != m.w || j.height != m.h) return Fmt("size %dx%d, file says %dx%d", j.width, j.height, m.w, m.h);
    if (j.components.size() != m.comps.size()) return Fmt("%zu components, file says %zu", j.components.size(), m.comps.size());
    if (j.max_h_samp_factor != m.mh || j.max_v_samp_factor != m.mv) return "largest sampling factors differ";
    for (size_t i = 0; i < m.comps.size(); ++i) {
      auto& a = j.components[i];
      auto& b = m.comps[i];
      if (a.id != b.id || a.h_samp_factor != b.h || a.v_samp_factor != b.v) return Fmt("component %zu: id %d %dx%d, file says id %d %dx%d", i, a.id, a.h_samp_factor, a.v_samp_factor, b.id, b.h, b.v);
    }
  }
  if (what & kTables) {
    if (j.restart_interval != m.dri) return Fmt("restart interval %d, file says %d", j.restart_interval, m.dri);
    if (j.quant.size() != m.quants.size()) return Fmt("%zu quantisation tables, file has %zu", j.quant.size(), m.quants.size());
    for (size_t i = 0; i < m.quants.size(); ++i) {
      auto& a = j.quant[i];
      auto& b = m.quants[i];
      if (a.index != b.index || a.precision != b.precision || a.is_last != b.last) return Fmt("quantisation table %zu: header differs", i);
      for (int k = 0; k < 64; ++k) if (a.values[k] != b.v[k]) return Fmt("quantisation table %zu entry %d: %d, file says %d", i, k, a.values[k], b.v[k]);
    }
    if (j.huffman_code.size() != m.tables.size()) return Fmt("%zu Huffman tables, file has %zu", j.huffman_code.size(), m.tables.size());
    for (size_t i = 0; i < m.tables.size(); ++i) {
      auto& a = j.huffman_code[i];
      auto& b = m.tables[i];
      if (a.slot_id != b.slot || a.is_last != b.last) return Fmt("Huffman table %zu: slot %#x last %d, file says %#x %d", i, a.slot_id, a.is_last, b.slot, b.last);
      int tot = 0, deep = 0;
      for (int l = 1; l <= 16; ++l) if (b.counts[l]) deep = l;
      if (!deep) deep = 1;
      for (int l = 1; l <= 16; ++l) {
        if (a.counts[l] != b.counts[l] + (l == deep)) return Fmt("Huffman table %zu: %d codes of length %d, file says %d", i, a.counts[l] - (l == deep), l, b.counts[l]);
        tot += b.counts[l];
      }
      for (int k = 0; k < tot; ++k) if (a.values[k] != b.vals[k]) return Fmt("Huffman table %zu value %d differs", i, k);
    }
  }
  if (what & kScans) {
    if (j.scan_info.size() != m.scans.size()) return Fmt("%zu scans, file has %zu", j.scan_info.size(), m.scans.size());
    for (size_t i = 0; i < m.scans.size(); ++i) {
      auto& a = j.scan_info[i];
      auto& b = m.scans[i];
      if (a.num_components != b.ci.size()) return Fmt("scan %zu: components differ", i);
      if (a.Ss != b.Ss || a.Se != b.Se || a.Ah != b.Ah || a.Al != b.Al) return Fmt("scan %zu: spectral or approximation parameters differ", i);
      for (size_t k = 0; k < b.ci.size(); ++k)
        if (a.components[k].comp_idx != b.ci[k] || a.components[k].dc_tbl_idx != b.dc[k] || a.components[k].ac_tbl_idx != b.ac[k]) return Fmt("scan %zu component %zu differs", i, k);
    }
    for (size_t i = 0; i < m.comps.size(); ++i) {
      auto& c = j.components[i];
      if (c.quant_idx >= j.quant.size() || j.quant[c.quant_idx].index != m.comps[i].tq) return Fmt("component %zu refers to a wrong quantisation table", i);
    }
  }
  if (what & kMarkers) {
    if (j.marker_order.size() != m.markers.size()) return Fmt("%zu markers, file has %zu", j.marker_order.size(), m.markers.size());
    for (size_t i = 0; i < m.markers.size(); ++i) if (j.marker_order[i] != m.markers[i]) return Fmt("marker %zu is %#x, file says %#x", i, j.marker_order[i], m.markers[i]);
  }
  if (what & kMeta) {
    auto Cmp = [&](const std::vector<std::vector<uint8_t>>& a, const std::vector<Bytes>& b, const char* n) -> std::string {
      if (a.size() != b.size()) return Fmt("%zu %s, file has %zu", a.size(), n, b.size());
      for (size_t i = 0; i < b.size(); ++i) if (S(a[i]) != b[i]) return Fmt("%s %zu differs", n, i);
      return "";
    };
    std::string e = Cmp(j.app_data, m.app, "application segments");
    if (e.empty()) e = Cmp(j.com_data, m.com, "comments");
    if (e.empty()) e = Cmp(j.inter_marker_data, m.inter, "runs of bytes between markers");
    if (!e.empty()) return e;
    if (S(j.tail_data) != m.tail) return Fmt("%zu trailing bytes, file has %zu", j.tail_data.size(), m.tail.size());
  }
  if (what & kCoefs) {
    for (size_t i = 0; i < m.comps.size(); ++i) {
      auto& a = j.components[i];
      auto& b = m.comps[i];
      if ((int)a.width_in_blocks != b.wb || (int)a.height_in_blocks != b.hb) return Fmt("component %zu: %ux%u blocks, expected %dx%d", i, a.width_in_blocks, a.height_in_blocks, b.wb, b.hb);
      if (a.coeffs.size() != b.coef.size()) return Fmt("component %zu: %zu coefficients, expected %zu", i, a.coeffs.size(), b.coef.size());
      for (size_t k = 0; k < b.coef.size(); ++k)
        if (a.coeffs[k] != b.coef[k]) return Fmt("component %zu block %zu coefficient %zu: %d, file says %d", i, k / 64, k % 64, a.coeffs[k], b.coef[k]);
    }
  }
  return "";
}
}  // namespace jm
#endif
