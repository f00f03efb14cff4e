// Counts what is allocated and lets fresh memory have a given content. Not in builds with sanitizers.
#pragma once
#include <cstddef>
#include <cstdint>

namespace alloc {
#ifdef SANITIZED
constexpr bool kAvailable = false;
#else
constexpr bool kAvailable = true;
#endif
// Of this thread; blocks freed here that were allocated elsewhere count as negative.
int64_t liveBlocks();
uint64_t calls();
// Of all threads, while this is switched on.
void countAll(bool on);
int64_t allBlocks();
// Fresh memory is filled with this byte; -1 for no filling.
void fill(int byte);
// Requests of this thread for at least this many bytes are refused (0: none). Only malloc, calloc and realloc themselves, which
// report it to their caller; operator new, which throws, is not affected.
void refuse(size_t atLeast, int times);
// How many were refused since.
int refused();
}  // namespace alloc
