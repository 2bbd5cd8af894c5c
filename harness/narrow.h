/* Ages are uint_fast32_t; make them overflow soon. */
#include <stdint.h>
#include <inttypes.h>
#include <stdlib.h>
#include <stdio.h>
#include <stddef.h>
#define uint_fast32_t uint8_t
