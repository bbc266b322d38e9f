// Every written NPZ archive is a valid ZIP file.
#include "zipref.h"
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0); bool file = vp_choose(2, "file"); const char *path = vp_path("a.npz"); Str z;
  auto finish = [&](unsigned n, const std::vector<Str> &names, const std::vector<Str> &raw, CM m) {
    if (file) z = read_back(path); std::vector<ZMember> ms = z_check(z); vp_check(ms.size() == n, "every entry is there");
    for (unsigned i = 0; i < n && i < ms.size(); i++) { vp_check(ms[i].name == names[i], "entries keep their name and order"); vp_check(ms[i].raw == raw[i], "entries hold what was written"); vp_check(ms[i].method == (std::uint16_t)m, "the method is the one asked for"); }
    observe("archive", z);
  };
  if (mode == 0) {
    // stored: symbolic names and contents
    unsigned n = vp_param("n", 2); bool big = vp_choose(2, "big"); EN e = big ? EN::BIG : EN::LITTLE; std::vector<Str> names, full, raw; std::vector<npy::tensor<std::int32_t>> ts;
    for (unsigned i = 0; i < n; i++) { Str s(vp_param("len", 2), '\0'); if (s.size()) vp_sym(&s[0], s.size(), "name"); if (vp_choose(2, "suffix")) s += ".npy"; names.push_back(s); full.push_back(full_name(s)); ts.emplace_back(Shape{1 + vp_choose(2, "dim"), i}); fill(ts[i]); std::ostringstream o; npy::save(o, ts[i], e); raw.push_back(o.str()); }
    if (file) { npy::npzfilewriter w(path, CM::STORED, e); for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); } else { npy::npzstringwriter w(CM::STORED, e); for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); z = w.str(); }
    finish(n, full, raw, CM::STORED); vp_reach("stored");
  } else if (mode == 2) {
    // many entries; long names; entries and offsets beyond 64 KiB
    unsigned what = vp_param("what", 0), n = what == 0 ? 254 + vp_choose(4, "n") : what == 1 ? 3 : 2 + vp_choose(2, "n"); CM m = vp_param("m", 0) ? CM::DEFLATED : CM::STORED; std::vector<Str> names, full, raw; std::vector<npy::tensor<std::uint8_t>> ts;
    for (unsigned i = 0; i < n; i++) {
      size_t sz = what == 2 ? (i ? 7 : vp_param("sz", 65535 - 128) + vp_choose(3, "size")) : i % 3; Str s = "n" + std::to_string(i); if (what == 1 && i == 1) s += Str(vp_param("len", 250) + vp_choose(5, "len"), 'x'); names.push_back(s); full.push_back(full_name(s)); ts.emplace_back(Shape{sz}); memset(ts[i].data(), (int)i, sz);
      if (m == CM::STORED && sz && i < 2) { vp_sym(ts[i].data() + sz - 1, 1, "data"); } std::ostringstream o; npy::save(o, ts[i]); raw.push_back(o.str());
    }
    auto put = [&](auto &w) { for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); }; if (file) { npy::npzfilewriter w(path, m); put(w); } else { npy::npzstringwriter w(m); put(w); z = w.str(); } finish(n, full, raw, m); vp_reach("large");
  } else {
    // deflated: fixed contents of several sizes and kinds, symbolic names
    unsigned n = 2, kind = vp_param("kind", 0); std::vector<Str> names, full, raw; std::vector<npy::tensor<std::uint8_t>> ts;
    for (unsigned i = 0; i < n; i++) { Str s(1 + i, '\0'); vp_sym(&s[0], s.size(), "name"); names.push_back(s); full.push_back(full_name(s)); size_t sz = kind == 0 ? i * 5 : kind == 1 ? 300 : 70; ts.emplace_back(Shape{sz}); unsigned x = 12345 + i; for (size_t k = 0; k < sz; k++) { x = x * 1103515245 + 12345; ts[i].data()[k] = kind == 1 ? (unsigned char)(x >> 16) : kind == 2 ? (unsigned char)(k / 17) : (unsigned char)k; } std::ostringstream o; npy::save(o, ts[i]); raw.push_back(o.str()); }
    if (file) { npy::npzfilewriter w(path, CM::DEFLATED); for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); } else { npy::npzstringwriter w(CM::DEFLATED); for (unsigned i = 0; i < n; i++) w.write(names[i], ts[i]); w.close(); z = w.str(); }
    finish(n, full, raw, CM::DEFLATED); vp_reach("deflated");
  }
}
