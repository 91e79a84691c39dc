/* Input validation behaves as in the shipped (release) build: an error code, no abort.
   Assertions in the rest of the library stay on. */
#ifndef NDEBUG
#define NDEBUG
#include "common/validate.h"
#undef NDEBUG
#endif
