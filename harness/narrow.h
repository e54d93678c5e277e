/* Where numbers have 32 bits a time is kept in two of them, and other functions compare and add it:
 * build that part here too. Only the representation of times depends on it. */
#include <stdint.h>
#undef INTPTR_MAX
#define INTPTR_MAX INT32_MAX
