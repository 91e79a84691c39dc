/* Build configuration of the simulated command line tool. */
#pragma once
#if __has_include(<xxhash.h>)
#define HAVE_XXHASH_H 1
#else
#define HAVE_XXHASH_H 0
#endif
