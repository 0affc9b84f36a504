// life cycle runs (see life.cpp)
#pragma once
#include <cstddef>
#include <cstdint>
enum { LIFE_OPS = 40, LIFE_TEXT = 1024 };
extern int life_on;
void* life_alloc(std::size_t);
void* life_realloc(void*, std::size_t);
void life_free(void*);
void life_access(const void*, std::size_t);
void life_lib(bool enter);
std::uint64_t life_fallback(int ft, int ct, const void* str, void** str_end);
int life_main();
struct Plan;
struct Solos;
int life_prepare(const Plan&);
void life_judge(const Plan&, const Solos&, int fd, int status, bool timeout, bool verbose);
