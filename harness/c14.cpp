// The archive writer stays consistent over any sequence of calls.
#include "zipref.h"
typedef npy::tensor<std::uint8_t> U8;
// a user's tensor class whose save fails, before or after writing some bytes
struct Failing {
  unsigned when; bool std_exc;
  std::string dtype(EN) const { if (when == 0) fail(); return "|u1"; }
  bool fortran_order() const { return false; }
  size_t ndim() const { return 1; }
  size_t shape(size_t) const { return 4; }
  void fail() const { if (std_exc) throw std::runtime_error("no"); throw 7; }
  void save(std::ostream &o, EN) const { if (when >= 2) o.write("xy", 2); fail(); }
};
enum { WRITE, WRITE_OTHER, FAIL_TENSOR, FAIL_NAME, FAIL_MEMORY, CLOSE, STR, NOPS };
template <class W> static void history(W &w, unsigned steps, int first, CM m, bool unsupported, std::vector<Str> &names, std::vector<Str> &raw, bool &closed, bool last_close, bool has_str) {
  closed = false;
  for (unsigned i = 0; i < steps; i++) {
    unsigned op = i == 0 && first >= 0 ? (unsigned)first : vp_choose(NOPS, "op");
    if (op == WRITE || op == WRITE_OTHER) {
      Str n(1, (char)('a' + i)); Str want;
      int o = outcome([&] {
        if (op == WRITE) { if (m == CM::STORED) vp_sym(&n[0], 1, "name"); U8 t(Shape{vp_choose(2, "dim") * 2}); if (m == CM::STORED) fill(t); else for (size_t k = 0; k < t.size(); k++) t.data()[k] = (unsigned char)(i * 7 + k); std::ostringstream s; npy::save(s, t, EN::BIG); want = s.str(); w.write(n, t); }
        else { n += ".npy"; npy::tensor<std::int16_t> t(Shape{2, 1}, true); if (m == CM::STORED) fill(t); else for (size_t k = 0; k < t.size(); k++) t.data()[k] = (short)(i * 300 + k); std::ostringstream s; npy::save(s, t, EN::BIG); want = s.str(); w.write(n, t); }
      });
      vp_check(o == (closed ? STDEXC : unsupported ? INVARG : OK_), "writing works exactly while the writer is open and its method supported");
      if (o == OK_) { names.push_back(full_name(n)); raw.push_back(want); vp_reach("written"); } else if (closed) vp_reach("write after close");
    } else if (op == FAIL_TENSOR) {
      Failing f{(unsigned)vp_choose(3, "when"), vp_choose(2, "exc") == 0}; int o = outcome([&] { w.write("f", f); }); vp_check(o == (closed || f.std_exc ? STDEXC : OTHER), "the failure of the tensor is reported"); vp_reach("failing tensor");
    } else if (op == FAIL_NAME) {
      Str n(0x10000, 'n'); U8 t(Shape{1}); int o = outcome([&] { w.write(n, t); }); vp_check(o == STDEXC, "a name that does not fit is refused"); vp_reach("failing name");
    } else if (op == FAIL_MEMORY) {
      bool big = m == CM::STORED || vp_choose(2, "big"); U8 t(Shape{big ? 70000 : 2u}); std::ostringstream s; npy::save(s, t, EN::BIG); Str want = s.str(), n("m"); vp_heap_limit(60000); int o = outcome([&] { w.write(n, t); }); vp_heap_limit(0);
      vp_check(o == OK_ || o == STDEXC || (unsupported && o == INVARG), "exhausted memory is reported"); vp_check(!(closed || unsupported) || o != OK_, "nothing is written after closing");
      if (o == OK_) { names.push_back("m.npy"); raw.push_back(want); } else vp_reach("failing memory");
    } else if (op == CLOSE) {
      int o = outcome([&] { w.close(); }); vp_check(o == OK_, "closing works, also again"); if (closed) vp_reach("closed twice"); closed = true;
    } else if constexpr (std::is_same_v<W, npy::npzstringwriter>) {
      Str s = w.str(); if (closed) { std::vector<ZMember> ms = z_check(s); vp_check(ms.size() == names.size(), "complete once closed"); }
    }
  }
  if (last_close && !closed) { w.close(); closed = true; }
}
extern "C" void vp_harness() {
  bool file = vp_param("file", 0), unsupported = vp_param("bad", 0); CM m = unsupported ? (CM)vp_range(1, 65535, "method") : vp_param("m", 0) ? CM::DEFLATED : CM::STORED; unsigned steps = vp_param("n", 3); int first = (int)vp_param("first", -1);
  if (unsupported) vp_assume(m != CM::DEFLATED);
  std::vector<Str> names, raw; bool closed; Str z; const char *path = vp_path("a.npz");
  if (file) {
    bool last = vp_choose(2, "close");
    { npy::npzfilewriter w(path, m, EN::BIG); vp_check(w.is_open(), "the writer is open"); history(w, steps, first, m, unsupported, names, raw, closed, last, false); if (closed) { z = read_back(path); } }
    Str after = read_back(path); if (closed) vp_check(after == z, "a closed archive does not change any more"); else vp_reach("destroyed"); z = after;
  } else { npy::npzstringwriter w(m, EN::BIG); history(w, steps, first, m, unsupported, names, raw, closed, true, true); z = w.str(); }
  std::vector<ZMember> ms = z_check(z); vp_check(ms.size() == names.size(), "exactly the successful writes are in the archive");
  for (size_t i = 0; i < ms.size() && i < names.size(); i++) vp_check(ms[i].name == names[i] && ms[i].raw == raw[i] && ms[i].method == (std::uint16_t)m, "entries are those written, in order");
  observe("archive", z);
}
