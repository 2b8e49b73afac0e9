// Helpers for C oracles called from VHDL through "INTERNAL" foreign
// subprograms.  Arguments of functions start at a[1], of procedures at a[2];
// an unconstrained string or array takes three scalars.
#ifndef ORC_H
#define ORC_H
#include "nd.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef union { int64_t integer; void *pointer; double real; } scalar_t;
#define MAXT 64
#endif
