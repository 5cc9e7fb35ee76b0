// Freed memory is never handed out again, so that an iterator to a removed
// element can never look like an iterator to a later one.
#ifndef VERIF_LEAK_HH
#define VERIF_LEAK_HH
#include <cstdlib>
#include <new>
void operator delete(void *) noexcept {}
void operator delete(void *, std::size_t) noexcept {}
#endif
