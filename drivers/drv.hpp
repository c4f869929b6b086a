// Common part of the contract drivers: each driver states a contract of the real code included
// from /repo as preconditions (vc_assume), the call, and postconditions (vc_assert).
#pragma once
#include "vc.hpp"
#include "codec_common.hpp"
#include "v4_codec.hpp"
#include "v5_codec.hpp"
#include "chunk_writer.hpp"
#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/encoding_utils.hpp"
using namespace Cloudini;

inline bool same_bytes(const uint8_t* a, const uint8_t* b, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok = ok & (a[i] == b[i]);
  return ok;
}

inline bool same_bytes_n(const uint8_t* a, const uint8_t* b, size_t n, size_t cap) {   // the first n of cap
  bool ok = true;
  for (size_t i = 0; i < cap; i++) ok = ok & ((i >= n) | (a[i] == b[i]));
  return ok;
}

// call f; false if it threw
template <class F> bool attempt(F&& f) {
  return vc_try([](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }, &f);
}
