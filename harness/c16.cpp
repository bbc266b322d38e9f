// A save or archive that did not reach the file is reported.
#include "zipref.h"
typedef npy::tensor<std::uint8_t> U8;
// every way the disk can fail: full after so many bytes, or one write that transfers nothing
static void fault(size_t total) {
  unsigned k = vp_param("fault", 0), step = vp_param("step", 1);
  if (k == 0) { size_t lim = vp_choose(total / step + 3, "limit") * step; vp_disk_limit(lim); } else vp_fail_write(1 + vp_choose(vp_param("writes", 6), "failing"));
}
static void nofault() { vp_disk_limit(~0ul); vp_fail_write(0); }
template <class F> static void guarded(bool &thrown, F f) { int o = outcome(f); vp_check(o != OTHER, "only standard exceptions are thrown"); if (o != OK_) thrown = true; }
extern "C" void vp_harness() {
  unsigned mode = vp_param("mode", 0), big = vp_param("big", 0); const char *path = vp_path("a.npz");
  if (mode == 0) { // single tensors
    unsigned ty = vp_param("t", 1);
    with_type(ty, [&](auto tag) {
      typedef npy::tensor<typename decltype(tag)::type> TT; TT t(big ? Shape{big, 2} : Shape{2}, true); if (!big) fill(t); else if constexpr (std::is_same_v<TT, npy::tensor<std::wstring>>) { TT x(Shape{1}); fill(x); for (size_t i = 0; i < t.size(); i++) t.data()[i] = L"ab"; t.data()[0] = x.data()[0]; } else { TT x(Shape{1}); fill(x); t.data()[t.size() - 1] = x.data()[0]; t.data()[0] = x.data()[0]; }
      std::ostringstream o; npy::save(o, t, EN::BIG); Str want = o.str(); bool member = vp_choose(2, "member"), thrown = false;
      fault(want.size()); guarded(thrown, [&] { if (member) t.save(path, EN::BIG); else npy::save(Str(path), t, EN::BIG); }); nofault();
      Str got = read_back(path); if (!thrown) vp_check(got == want, "a save that returns has written everything"); else vp_check(vp_param("fault", 0) != 0 || got != want, "a save that wrote everything returns"); vp_reach(thrown ? "reported" : "saved");
    });
  } else if (mode == 1) { // archives: every sequence of writing and closing
    CM m = vp_param("m", 0) ? CM::DEFLATED : CM::STORED; unsigned steps = vp_param("n", 3); U8 a(Shape{big ? big : 2u}), b(Shape{3}); if (m == CM::STORED) { if (!big) fill(a); else vp_sym(a.data() + a.size() - 1, 1, "el"); fill(b); } else if (big) { unsigned x = 99; for (size_t i = 0; i < a.size(); i++) { x = x * 1103515245 + 12345; a.data()[i] = (unsigned char)(x >> 16); } }
    Str want; size_t total; { npy::npzstringwriter w(m); w.write("a", a); w.write("b", b); w.close(); total = w.str().size(); }
    bool thrown = false, closed = false, close_failed = false, at_end = false; npy::npzstringwriter ref(m); 
    { npy::npzfilewriter w(path, m); fault(total);
      for (unsigned i = 0; i < steps; i++) {
        bool close = i + 1 == steps || vp_choose(2, "op") == 1, t = false; Str n(1, (char)('a' + i));
        if (close) { guarded(t, [&] { w.close(); }); if (!t) { closed = true; if (!thrown) { ref.close(); vp_check(read_back(path) == ref.str(), "an archive closed without complaint is complete"); } } else close_failed = true; }
        else { guarded(t, [&] { if (i == 0) w.write(n, a); else w.write(n, b); }); vp_check(t || !closed, "nothing is written after closing"); if (!t) { if (i == 0) ref.write(n, a); else ref.write(n, b); } else if (closed) t = false; }
        thrown |= t;
      }
    }
    nofault(); ref.close(); Str got = read_back(path); vp_check(thrown || got == ref.str(), "an incomplete archive was reported"); vp_check(closed || close_failed, "closing either works or is reported"); vp_reach(thrown ? "archive reported" : "archive saved");
  } else if (mode == 3) { // an archive whose directory is larger than the stream buffer
    CM m = vp_param("m", 0) ? CM::DEFLATED : CM::STORED; unsigned n = vp_param("n", 50); U8 t(Shape{vp_param("sz", 3) + 0ul}); if (m == CM::STORED) vp_sym(t.data(), 1, "el"); auto name = [](unsigned i) { return Str(200, (char)('a' + i % 26)) + std::to_string(i); };
    npy::npzstringwriter ref(m); for (unsigned i = 0; i < n; i++) ref.write(name(i), t); ref.close(); Str want = ref.str(); bool thrown = false, left = vp_choose(2, "give up");
    { npy::npzfilewriter w(path, m); fault(want.size()); for (unsigned i = 0; i < n && !(thrown && left); i++) guarded(thrown, [&] { w.write(name(i), t); }); guarded(thrown, [&] { w.close(); }); } nofault();
    Str got = read_back(path); vp_check(thrown || got == want, "an incomplete archive was reported"); vp_reach(thrown ? "directory reported" : "directory saved");
  } else { // paths that cannot be opened
    Str p; switch (vp_choose(3, "path")) { case 0: p = Str(path) + "/x.npy"; break; case 1: p = ""; break; default: p = Str(vp_path("no")) + "/a.npy"; }
    put_file(path, small_npy("abc")); U8 t(Shape{2}); memset(t.data(), 5, 2); unsigned op = vp_choose(10, "op"); CM m = vp_choose(2, "method") ? CM::DEFLATED : CM::STORED;
    auto must = [&](auto f) { bool th = false; guarded(th, f); vp_check(th, "a path that cannot be opened is reported"); };
    switch (op) {
    case 0: must([&] { npy::save(p, t); }); break;
    case 1: must([&] { t.save(p); }); break;
    case 2: must([&] { npy::load<U8>(p); }); break;
    case 3: must([&] { npy::load<std::uint8_t, npy::tensor>(p); }); break;
    case 4: must([&] { U8::from_file(p); }); break;
    case 5: must([&] { npy::peek(p); }); break;
    case 6: must([&] { npy::npzfilereader r(p); }); must([&] { npy::npzfilereader r(p.c_str()); }); must([&] { npy::npzfilereader r{std::filesystem::path(p)}; }); break;
    case 7: { npy::npzfilewriter w(p, m); vp_check(!w.is_open(), "the writer is not open"); must([&] { w.write("a", t); }); must([&] { w.close(); }); break; }
    case 8: { npy::npzfilewriter w(p.c_str(), m); vp_check(!w.is_open(), "the writer is not open"); must([&] { w.close(); }); break; }
    default: { npy::npzfilewriter w(std::filesystem::path(p), m); vp_check(!w.is_open(), "the writer is not open"); must([&] { w.write("a", t); }); break; }
    }
    vp_reach("paths");
  }
}
