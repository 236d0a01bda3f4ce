#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
#define W __attribute__((ms_abi, force_align_arg_pointer, noinline, used))

struct Import { const char *name; void *fn; };
struct Reg { Reg(const char *n, void *f); };
void *find_host_fn(const char *name);
#define EXPORT(name) static Reg reg_##name(#name, (void *)h_##name)
#define EXPORT_AS(str, id, fnv) static Reg reg_as_##id(str, (void *)(fnv))

[[noreturn]] void end_run_violation(const char *cls, const char *fmt, ...);
extern u64 g_image_base, g_image_size;
extern "C" [[noreturn]] void guest_jump(u64 rip, u64 rsp);
