#pragma once
#include <cstdint>
extern "C" {
void ds_run(int n, void (*fn)(void *, int), void *arg, uint64_t seed);
void ds_die(const char *key, const char *fmt, ...) __attribute__((noreturn));
void ds_describe(const char *(*f)());
uint64_t ds_step(); uint64_t ds_hash(); uint64_t ds_switches(); uint64_t ds_accesses();
void ds_quiet(int d); void ds_point();
int64_t ds_live_blocks(); int64_t ds_live_bytes();
}
