/* C25: called at every basic block of the optimised program (LLVM's sancov
 * pass), follows the path a call takes. */
#include <stdint.h>
static __thread struct { uint64_t on, blocks, path; } t;
void __sanitizer_cov_trace_pc(void) {
  if (!t.on) return;
  t.blocks++;
  t.path = ((t.path << 7) | (t.path >> 57)) ^ (uint64_t)__builtin_return_address(0);
  t.path *= 0x9E3779B97F4A7C15u;
}
void mc_trace_begin(void) { t.blocks = t.path = 0; t.on = 1; }
void mc_trace_end(uint64_t out[2]) { t.on = 0; out[0] = t.blocks; out[1] = t.path; }
