// Runs library code in a library scope and turns whatever escapes it into text.
#pragma once
#include <stator/exception.hpp>
#include "frame.h"
#include <cmath>
#include <cstring>
namespace xw {
inline std::string hexd(double v) { if (std::isnan(v)) return "nan"; char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
inline bool last_fired; inline uint64_t last_allocs; // harness: valid immediately after guarded()
template <class F> std::string guarded(int uid, F f, std::exception_ptr *keep = nullptr) {
  std::string out;
  sim::Lib lib(uid);
  try { f(); }
  catch (const std::bad_alloc &e) { sim::Quiet q; out = "oom"; if (keep) *keep = std::current_exception(); }
  catch (const stator::Exception &e) {
    const char *w = e.what(); sim::Quiet q; out = std::string("ex:Exception:") + w; if (keep) *keep = std::current_exception();
  } catch (const std::exception &e) {
    const char *w = e.what(); sim::Quiet q; out = std::string("ex:") + typeid(e).name() + ":" + w; if (keep) *keep = std::current_exception();
  } catch (...) { sim::Quiet q; out = "ex:unknown:"; }
  { sim::Quiet q; last_fired = sim::fault_fired(); last_allocs = sim::lib_allocs(); }
  return out;
}

} // namespace xw
