// Contract primitives understood by the verifier (vc/engine.py).  They have no body: the
// drivers in this directory are only ever read as LLVM IR, never linked or run.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vc_assert(bool, const char* name);       // ensures: proof obligation
void vc_assume(bool);                          // requires
void vc_cover(const char* name);               // must be reachable (vacuity guard)
bool vc_loop();                                // arbitrary number of iterations, cut by an inferred invariant
void vc_note(const char* name, uint64_t);        // shown in counterexamples
bool vc_bool();
uint64_t vc_u64();
uint32_t vc_u32();
uint8_t vc_u8();
void vc_havoc(void*, size_t);                  // arbitrary bytes
void* vc_buffer(size_t n);                     // fresh buffer of n bytes, arbitrary content
void vc_fresh_bytes(void*);                    // whole object arbitrary
void vc_frame(const void*, size_t, const char* name);  // assigns clause: only [p,p+n) of this object may be written
void vc_unframe(const void*);
void vc_nothrow(const char* name);             // from now on throwing is a failed obligation (nullptr: allowed again)
size_t vc_objsize(const void*);
size_t vc_offset(const void*);                 // offset of the pointer inside its object
bool vc_sameobj(const void*, const void*);
uint64_t vc_concrete(uint64_t);                // exhaustive case split
void vc_fperr32(uint32_t x, uint32_t res, uint32_t out, const char* name);  // |out - x| <= res/2 (1+eps) + |x| eps, eps = 2^-21, for |x|/res <= 2^30
void vc_fperr64(uint64_t x, uint32_t res, uint64_t out, const char* name);  // the same in double, eps = 2^-49, |x|/res <= 2^50
bool vc_try(void (*f)(void*), void* ctx);       // f(ctx); false if it ended with an exception (the destructors of the unwound frames are not run)
void* vc_objects(const void* proto, size_t size, size_t n);  // n objects of size 8 or 16, all like *proto
void* vc_pointers(void* objects, size_t size, size_t n);      // array of the pointers to them
void vc_peel(bool);                              // the first round of each loop is looked at on its own, before its invariant
void vc_index(uint64_t k, uint64_t x, uint64_t before);   // loop invariants may say: if k lies in the range done so far, then some value is x; at k, some variable is before
void vc_narrow();                               // loop invariants may relate the low halves of variables, and flags with counters
void vc_nobounds();                             // loop invariants hold no constant bounds (faster)
void vc_unroll(uint64_t n);                     // loops of more than n rounds get an invariant
void vc_replace(const char* name_regex, void (*contract)());   // callers are checked against this contract instead of the body
uint64_t vc_fn1(const char* name, uint64_t);   // uninterpreted spec function
}
