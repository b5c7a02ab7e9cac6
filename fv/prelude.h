/* Included before everything in every verification unit. */
#ifndef FV_PRELUDE_H
#define FV_PRELUDE_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
/* errno: the per-thread accessor (*__errno_location()) becomes one plain
 * variable, because a verification unit runs one thread. */
#undef errno
int g_errno;
#define errno g_errno

_Bool nondet_bool(void);
int nondet_int(void);
unsigned nondet_uint(void);
size_t nondet_size_t(void);
uint8_t nondet_uint8_t(void);
uint16_t nondet_uint16_t(void);
uint32_t nondet_uint32_t(void);
uint64_t nondet_uint64_t(void);
long nondet_long(void);
void *nondet_ptr(void);

#define FV_ASSERT(c, msg) __CPROVER_assert(c, msg)
#define FV_ASSUME(c) __CPROVER_assume(c)
/* Ghost hint: v already has the value e (proved), and the assignment, which
 * therefore changes nothing, lets the verifier know which object v points to. */
#define FV_REBASE(v, e) FV_ASSERT((v) == (e), "ghost hint: " #v " is " #e); (v) = (e);
/* A canary is an assertion that must FAIL: it shows that the point is
 * reachable, i.e. that the preconditions in front of it are satisfiable. */
#define FV_CANARY(name) __CPROVER_assert(0, "CANARY " name)
#define FV_CANARY_IF(c, name) __CPROVER_assert(!(c), "CANARY " name)
#include "ifc.h"
#endif
