#pragma once
// The harnesses' virtual time. std::chrono::steady_clock and system_clock read it.
#include <cstdint>
extern "C" {
int64_t vclk_now();              // nanoseconds
void vclk_set(int64_t ns);
int64_t vclk_advance(int64_t ns); // returns the new time
uint64_t vclk_reads();           // how often the clocks were read so far
void vclk_step(int64_t ns);      // every read of the clocks moves the time on by this much afterwards
void vclk_log(int64_t *buf, int cap); // record the values handed out (single threaded use)
int vclk_logged();
}
