/* Contracts on conf.c.
 *
 * FV_LINE    splitting one line: the line is given by the positions of its
 *            parts; the facts "every character between these positions is of
 *            this kind" hold for all indices and are used at the indices that
 *            the code looks at (FV_FACTS). */
#include <stdio.h>
#include "openelp/openelp.h"
#include "log.h"
#define log_printf(l, lev, ...) fv_log(l, lev)
void fv_log(struct log_handle *l, int lev);

#ifdef FV_READ
#define malloc fv_malloc
#define realloc fv_realloc
#define fgetc fv_fgetc
void *fv_malloc(size_t n);
void *fv_realloc(void *p, size_t n);
int fv_fgetc(FILE *f);
#endif
#ifdef FV_STREAM
#define free fv_free
#define fopen fv_fopen
#define fclose fv_fclose
void fv_free(void *p);
FILE *fv_fopen(const char *f, const char *m);
int fv_fclose(FILE *f);
#endif
#ifdef FV_FREE
#define free fv_free
void fv_free(void *p);
#endif
#ifdef FV_LIST
#define strncmp fv_strncmp
int fv_strncmp(const char *a, const char *b, size_t n);
#endif
#if defined(FV_PAIR) || defined(FV_LIST)
#define malloc fv_malloc
#define calloc fv_calloc
#define free fv_free
#define memcpy fv_memcpy
void *fv_malloc(size_t n);
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
void *fv_memcpy(void *d, const void *s, size_t n);
#endif
struct fv_ghost {
	int calls, ret, logs, loglev;
	int frees, old_freed, new_freed, mallocs, nomem;
	size_t size, copied;
	int part;
} g;
size_t A, B, E, V, W, N;	/* key from A to B, '=' at E, value from V to W, end at N */
int kind;			/* 0: a pair, 1: comment, empty or no key, 2: no '=' */
const char *g_line;

#ifdef FV_LINE
struct proxy_conf g_conf;
struct log_handle g_log;
#define BL(c) ((c) == ' ' || (c) == '\t')
#define NL(c) ((c) == '\n' || (c) == '\r')
#define L(i) g_line[i]
/* what is known of the character at index i */
#define FACT(i) (((i) < N ==> L(i) != 0) && ((i) == N ==> L(i) == 0) && ((i) < A ==> BL(L(i)) || NL(L(i))) && \
	((i) == A ==> !BL(L(i)) && !NL(L(i))) && \
	(kind == 1 && (i) == A ==> L(i) == '#' || L(i) == '=' || L(i) == 0) && (kind != 1 && (i) == A ==> L(i) != '#' && L(i) != '=' && L(i) != 0) && \
	(kind == 2 && A <= (i) && (i) <= N ==> L(i) != '=') && \
	(kind == 0 && A <= (i) && (i) < E ==> L(i) != '=') && (kind == 0 && (i) == E ==> L(i) == '=') && \
	(kind == 0 && (i) + 1 == B ==> !BL(L(i))) && (kind == 0 && B <= (i) && (i) < E ==> BL(L(i))) && \
	(kind == 0 && E < (i) && (i) < V ==> BL(L(i))) && (kind == 0 && (i) == V ==> !BL(L(i))) && \
	(kind == 0 && (i) + 1 == W && W > V ==> !BL(L(i)) && !NL(L(i))) && (kind == 0 && W <= (i) && (i) < N && V <= (i) ==> BL(L(i)) || NL(L(i))))
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define IN(p, lo, hi) (__CPROVER_same_object(p, g_line) && OFF(p) >= (lo) && OFF(p) <= (hi))
#define FV_RB(p) p = fv_rb(p),
void fv_at(size_t i)
{
	if (i <= N)
		FV_ASSUME(FACT(i));
}
/* the same pointer, spelled in terms of the line */
const char *fv_rb(const char *p)
{
	size_t o = nondet_size_t();
	FV_ASSUME(o == __CPROVER_POINTER_OFFSET(p));
	FV_ASSERT(p == g_line + o, "ghost hint: a pointer into the line");
	fv_at(o);
	return g_line + o;
}
#define FV_COND_conf_parse_line_0 FV_RB(key)
#define FV_COND_conf_parse_line_1 fv_at(A + key_len),
#define FV_COND_conf_parse_line_2 fv_at(A + key_len - 1),
#define FV_COND_conf_parse_line_3 FV_RB(val)
#define FV_COND_conf_parse_line_4 fv_at(V + val_len),
#define FV_COND_conf_parse_line_5 fv_at(V + val_len - 1),
#define FV_LOOP_conf_parse_line_0 __CPROVER_assigns(key) __CPROVER_loop_invariant(IN(key, 0, A)) __CPROVER_decreases(A - OFF(key))
#define FV_LOOP_conf_parse_line_1 __CPROVER_assigns(key_len) __CPROVER_loop_invariant(key_len <= (kind == 0 ? E : N) - A) __CPROVER_decreases(N - key_len)
#define FV_LOOP_conf_parse_line_2 __CPROVER_assigns(key_len) __CPROVER_loop_invariant(key_len >= B - A && key_len <= E - A) __CPROVER_decreases(key_len)
#define FV_LOOP_conf_parse_line_3 __CPROVER_assigns(val) __CPROVER_loop_invariant(IN(val, E + 1, V)) __CPROVER_decreases(V - OFF(val))
#define FV_LOOP_conf_parse_line_4 __CPROVER_assigns(val_len) __CPROVER_loop_invariant(val_len <= N - V) __CPROVER_decreases(N - val_len)
#define FV_LOOP_conf_parse_line_5 __CPROVER_assigns(val_len) __CPROVER_loop_invariant(val_len >= W - V && val_len <= N - V) __CPROVER_decreases(val_len)
#endif

#ifdef FV_NUM
/* p, d: the number that the characters read so far denote (no more than 2^32)
 * and whether they are all digits; P, D: the same of the whole text, of which
 * nothing is used but that it is where the last step leads and that a prefix
 * denotes no more than the whole. */
uint64_t p_now, P;
int d_now, D;
size_t read_now;	/* the characters read so far */
const char *g_val;
void fv_num_at(size_t i)
{
	FV_ASSERT(i == read_now && i < N, "every character is looked at, in order");
	read_now++;
	char c = g_val[i];
	int dig = c >= '0' && c <= '9';
	uint64_t v = p_now * 10 + (uint64_t)(dig ? c - '0' : 0);
	p_now = v < 0x100000000ull ? v : 0x100000000ull;
	d_now = d_now && dig;
	FV_ASSUME((!D || d_now) && p_now <= P);
	if (i + 1 == N)
		FV_ASSUME(P == p_now && D == d_now);
}
#define FV_LOOP_conf_parse_number_0 __CPROVER_assigns(i, result, p_now, d_now, read_now) __CPROVER_loop_invariant(i <= N && result <= max && result == p_now && d_now == 1 && read_now == i && (i < N || (P == p_now && D == 1))) __CPROVER_decreases(N - i)
#define FV_GHOST_conf_parse_number_0 fv_num_at(i);
#endif
#ifdef FV_LIST
/* c(i): the number of commas before position i.  It is known at five fixed
 * positions: the start S and the end T of part number I, the next position
 * behind each of them, and the end of the value; c_now is its value at the
 * position that a loop has reached, from where it is stepped. */
const char *g_val;
struct proxy_conf g_conf;
size_t I, J, S, T, c_now, C, K;
char **o_arr;		/* the old list */
size_t o_len, O;
char *o_text;		/* its text at O */
char **g_arr;		/* the new list */
char *g_part;		/* its text at I, once it is allocated */
char *g_other;		/* its text at any other position */
char text;		/* any other setting */
size_t at_now;		/* the position for which c_now is valid */
size_t old_freed, parts, part_freed;
int arr_freed, new_arr_freed;
#define LEN (g_conf.bind_addr_ext_add_len)
/* a position x with c(x) = c: what is known of it, x being any position */
void fv_pos(size_t x, size_t c)
{
	FV_ASSUME(c <= x && x <= N);
	/* c is monotone, and the positions known */
	if (x <= N) FV_ASSUME(c <= C - 1);
	if (x == N) FV_ASSUME(c == C - 1);
	if (I < C) {
		FV_ASSUME(x <= S ? c <= I : c >= I);
		if (x == S) FV_ASSUME(c == I);
		if (S > 0) FV_ASSUME(x <= S - 1 ? c <= I - 1 : c >= I);
		FV_ASSUME(x <= T ? c <= I : c >= I + 1);
	}
}
/* c_now at i + 1 from c_now at i */
void fv_step(size_t i)
{
	FV_ASSERT(i == at_now && i < N, "every character is looked at, in order");
	at_now++;
	c_now += g_val[i] == ',';
	fv_pos(i + 1, c_now);
}
void fv_old_at(size_t i)
{
	if (i < o_len && i != O)
		FV_ASSUME(o_arr[i] != o_text && o_arr[i] != (char *)o_arr && o_arr[i] != &text && o_arr[i] != g_part);
	FV_ASSERT(!arr_freed, "the old list is read before it is released");
}
/* what OTHER says of any one element J is known of all of them */
#define OTHER(j) (g_arr[j] != g_part && g_arr[j] != o_text && (g_arr[j] == NULL || g_arr[j] != (char *)o_arr) && g_arr[j] != (char *)g_arr && g_arr[j] != &text)
void fv_new_at(size_t i)
{
	if (i < C && i != I)
		FV_ASSUME(OTHER(i));
	FV_ASSERT(!new_arr_freed, "the new list is read before it is released");
}
#define FV_LOOP_conf_parse_pair_2 __CPROVER_assigns(i, j, c_now, at_now, parts, g.nomem, g_errno, __CPROVER_object_whole(g_arr), __CPROVER_object_whole(g_part), __CPROVER_object_whole(g_other)) \
	__CPROVER_loop_invariant(i <= C && parts == i && g.nomem == 0 && (i < C ? j <= N && c_now == i && at_now == j : j == N + 1)) \
	__CPROVER_loop_invariant(i == 0 ==> j == 0) __CPROVER_loop_invariant(i == I && I < C ==> j == S) __CPROVER_loop_invariant(i + 1 == C || i >= C || j < N) \
	__CPROVER_loop_invariant(I < C ==> g_arr[I] == (i > I ? g_part : NULL)) __CPROVER_loop_invariant(J != I && J < C ==> OTHER(J)) \
	__CPROVER_loop_invariant(i > I && I < C ==> g_part[T - S] == 0 && (K < T - S ==> g_part[K] == g_val[S + K])) __CPROVER_decreases(C - i)
#define FV_GHOST_conf_parse_pair_2 fv_here(j);
#define FV_LOOP_conf_parse_pair_3 __CPROVER_assigns(j, c_now, at_now) __CPROVER_loop_invariant(at_now == j && k <= j && j <= N && c_now == i) __CPROVER_decreases(N - j)
void fv_here(size_t j)
{
	FV_ASSERT(j == at_now, "every character is looked at, in order");
	fv_pos(j, c_now);
	if (j < N && g_val[j] == ',')
		fv_pos(j + 1, c_now + 1);
}
#define FV_COND_conf_parse_pair_3 fv_here(j),
#define FV_GHOST_conf_parse_pair_3 fv_step(j);
#define FV_LOOP_conf_parse_pair_4 __CPROVER_assigns(i, part_freed) __CPROVER_loop_invariant(i <= C && part_freed == (i > I && g_arr[I] == g_part)) __CPROVER_decreases(C - i)
#define FV_COND_conf_parse_pair_4 fv_new_at(i),
#define FV_COND_conf_parse_pair_0 fv_old_at(i),
#define FV_LOOP_conf_parse_pair_0 __CPROVER_assigns(i, old_freed) __CPROVER_loop_invariant(i <= o_len && old_freed == (i > O)) __CPROVER_decreases(o_len - i)
#define FV_LOOP_conf_parse_pair_1 __CPROVER_assigns(i, count, c_now, at_now) __CPROVER_loop_invariant(i <= N && at_now == i && count == 1 + c_now && (i < N || c_now == C - 1) && c_now <= i) __CPROVER_decreases(N - i)
#define FV_GHOST_conf_parse_pair_1 fv_step(i);
#endif
#ifdef FV_READ
/* The buffer is placed at the end of one large object, so that its end is the
 * end of the object; K is any position in the line, ck the character there. */
size_t big;
#define BIG big
char *g_big, *g_line_ptr;
size_t g_n, K, got, *g_n_ptr;
int ck, last, nl;
struct fv_file { int x; } g_file;
#define AT_END(n) (g_big + (BIG - (n)))
#define FV_LOOP_conf_readline_0 __CPROVER_assigns(so_far, temp, temp_ptr, *lineptr, *n, got, ck, last, nl, g.nomem, __CPROVER_object_whole(g_big)) \
	__CPROVER_loop_invariant(*n >= 1 && *n <= BIG && so_far < *n && so_far == got && so_far < 0x7fffffff && nl == 0 && g.nomem == 0) \
	__CPROVER_loop_invariant(*lineptr == AT_END(*n)) __CPROVER_loop_invariant(K < so_far ==> g_big[BIG - *n + K] == (char)ck) \
	__CPROVER_decreases(0x7fffffff - so_far)
#define FV_COND_conf_readline_0 fv_rebase(lineptr, *n),
void fv_rebase(char **p, size_t n)
{
	FV_ASSERT(*p == AT_END(n), "ghost hint: where the buffer is");
	*p = AT_END(n);
}
#endif
#ifdef FV_STREAM
int line_live;		/* the line that was read has not been released */
int lines, parsed, line_ret, eof;
#define FV_LOOP_conf_parse_stream_0 __CPROVER_assigns(line, line_len, ret, line_live, lines, parsed, line_ret, eof) \
	__CPROVER_loop_invariant(line == NULL && line_live == 0 && lines == parsed && eof == 0 && line_ret >= 0)
#endif
#ifdef FV_FREE
struct proxy_conf g_conf;
char **o_arr, *o_text;
size_t o_len, O, text_freed;
int arr_freed;
char o_other[8];
int other_freed[8];
void fv_old_at(size_t i)
{
	if (i < o_len && i != O)
		FV_ASSUME(o_arr[i] != o_text && o_arr[i] != (char *)o_arr && !__CPROVER_same_object(o_arr[i], o_other));
	FV_ASSERT(!arr_freed, "the list is read before it is released");
}
#define FV_COND_conf_free_0 fv_old_at((size_t)i),
#define FV_LOOP_conf_free_0 __CPROVER_assigns(i, text_freed) __CPROVER_loop_invariant(0 <= i && i <= (int)o_len && text_freed == ((size_t)i > O)) __CPROVER_decreases((int)o_len - i)
#endif
#include "fv_loop_defaults.h"
#include "conf.c"
#undef malloc
#undef realloc
#undef fgetc
#undef fopen
#undef fclose
#undef calloc
#undef free
#undef memcpy

void fv_log(struct log_handle *l, int lev)
{
	g.logs++;
	g.loglev = lev;
}
#ifdef FV_LINE
static int conf_parse_pair(const char *key, size_t key_len, const char *val, size_t val_len, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(kind == 0)
__CPROVER_requires(key == g_line + A && key_len == B - A)
__CPROVER_requires(val == g_line + V && val_len == W - V)
__CPROVER_requires(conf == &g_conf && log == &g_log)
__CPROVER_assigns(g.calls, g.ret)
__CPROVER_ensures(g.calls == __CPROVER_old(g.calls) + 1 && __CPROVER_return_value == g.ret);

static int conf_parse_line(const char *line, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(line == g_line && conf == &g_conf && log == &g_log)
__CPROVER_assigns(g)
__CPROVER_ensures(g.calls == (kind == 0) && __CPROVER_return_value == (kind == 0 ? g.ret : 0));

void h_conf_parse_line(void)
{
	size_t n = nondet_size_t();
	FV_ASSUME(n < 0x7ffffffful);
	char *line = malloc(n + 1);
	FV_ASSUME(line != NULL);
	g_line = line;
	N = n;
	A = nondet_size_t(), B = nondet_size_t(), E = nondet_size_t(), V = nondet_size_t(), W = nondet_size_t();
	kind = nondet_int();
	FV_ASSUME(kind >= 0 && kind <= 2);
	/* every line is of one of these forms */
	FV_ASSUME(A <= N);
	if (kind == 0)
		FV_ASSUME(A < B && B <= E && E < V && V <= W && W <= N);
	fv_at(N), fv_at(A), fv_at(0);
	if (kind == 0)
		fv_at(B - 1), fv_at(E), fv_at(E - 1), fv_at(E + 1), fv_at(V), fv_at(W), fv_at(N - 1), fv_at(W - 1);
	g = (struct fv_ghost){ 0 };
	conf_parse_line(line, &g_conf, &g_log);
	FV_CANARY_IF(kind == 0 && W > V + 2 && B > A + 2 && N > W + 1 && V > E + 2 && A > 1, "a pair");
	FV_CANARY_IF(kind == 1 && A > 2, "a comment");
	FV_CANARY_IF(kind == 2 && N > A + 2, "no '='");
}
#endif

#ifdef FV_NUM
uint32_t g_num, g_num0;
#define RET __CPROVER_return_value
static int conf_parse_number(const char *val, size_t val_len, uint32_t max, uint32_t *number)
__CPROVER_requires(val == g_val && val_len == N && number == &g_num && (max == UINT16_MAX || max == UINT32_MAX))
__CPROVER_assigns(g_num, p_now, d_now, read_now)
__CPROVER_ensures(RET == (N > 0 && D && P <= max ? 0 : -EINVAL))
__CPROVER_ensures(g_num == (RET == 0 ? P : g_num0));

void h_conf_parse_number(void)
{
	size_t n = nondet_size_t();
	FV_ASSUME(n < 0x7ffffffful);
	char *val = malloc(n);
	FV_ASSUME(val != NULL);
	g_val = val;
	N = n;
	g_num0 = g_num = nondet_uint();
	p_now = 0, d_now = 1, read_now = 0;
	P = nondet_uint64_t(), D = nondet_bool();
	if (n == 0)
		FV_ASSUME(P == 0 && D == 1);
	int wide = nondet_bool();
	conf_parse_number(val, n, wide ? UINT32_MAX : UINT16_MAX, &g_num);
	FV_CANARY_IF(n == 5 && D && P == 65535 && !wide, "largest port");
	FV_CANARY_IF(n == 7 && D && P == 1 && !wide, "leading zeros");
	FV_CANARY_IF(n == 5 && D && P == 65536, "too large");
}
#endif

#ifdef FV_PAIR
/* One pair whose key has FV_PAIR characters.  Every optional text that is set
 * is a live object of its own; the list is left alone here (FV_LIST). */
struct proxy_conf g_conf, g_conf0;
struct log_handle g_log;
const char *g_val;
size_t K;		/* any position in the value */
uint32_t g_num;
int g_num_ret;
char o_text[8];		/* the old texts */
char *g_new;
char *o_list[1];
#define RET __CPROVER_return_value
static int conf_parse_number(const char *val, size_t val_len, uint32_t max, uint32_t *number)
__CPROVER_requires(val == g_val && val_len == N && (max == UINT16_MAX || max == UINT32_MAX))
__CPROVER_assigns(*number)
__CPROVER_ensures(RET == (g_num_ret == 0 && g_num <= max ? 0 : -EINVAL))
__CPROVER_ensures(RET == 0 ==> *number == g_num);

void *fv_malloc(size_t n)
{
	g.mallocs++;
	FV_ASSERT(g.mallocs == 1, "one text is allocated");
	FV_ASSERT(n == N + 1, "a text and its end are allocated");
	g.nomem = nondet_bool();
	if (g.nomem) {
		g_errno = ENOMEM;
		return NULL;
	}
	g_new = __CPROVER_allocate(n, 0);
	return g_new;
}
void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(0, "no list is allocated for a text");
	return NULL;
}
int which = -1;		/* the old text that is released */
void fv_free(void *p)
{
	if (p == NULL)
		return;
	if (g_new != NULL && p == g_new) {
		FV_ASSERT(g.new_freed == 0, "released once");
		g.new_freed++;
		return;
	}
	FV_ASSERT(g.old_freed == 0, "one text is released");
	g.old_freed++;
	FV_ASSERT(__CPROVER_same_object(p, o_text), "a configured text is released");
	which = (int)__CPROVER_POINTER_OFFSET(p);
}
void *fv_memcpy(void *d, const void *s, size_t n)
{
	FV_ASSERT(d == g_new && s == g_val && n == N, "the whole value is copied");
	FV_ASSERT(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "inside the buffers");
	g.copied++;
	char *a = d;
	const char *b = s;
	/* the first characters and one at any position; the others are unknown */
	if (n > 0) a[0] = b[0];
	if (n > 1) a[1] = b[1];
	if (n > 2) a[2] = b[2];
	if (n > 3) a[3] = b[3];
	if (n > 4) a[4] = b[4];
	if (n > 5) a[5] = b[5];
	if (n > 6) a[6] = b[6];
	if (K < n) a[K] = b[K];
	return d;
}
static int conf_parse_pair(const char *key, size_t key_len, const char *val, size_t val_len, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(val == g_val && val_len == N && conf == &g_conf && log == &g_log)
__CPROVER_assigns(g, g_new, which, g_errno, g_conf)
__CPROVER_ensures(RET <= 0);

static int is(const char *key, const char *name)
{
	int i;
	for (i = 0; i < FV_PAIR && name[i] != 0; i++)
		if (key[i] != name[i])
			return 0;
	return i == FV_PAIR && name[i] == 0;
}
static int is_notset(void)
{
	return g_val[0] == 'n' && g_val[1] == 'o' && g_val[2] == 't' && g_val[3] == 's' && g_val[4] == 'e' && g_val[5] == 't';
}
/* the field at number f is an optional text that was set to the value */
static void text(int is_f, int f, char *new, char *old, int ret, int empty_is_text)
{
	if (!is_f) {
		FV_ASSERT(new == old, "a setting that is not named stays");
		return;
	}
	FV_ASSERT(old != NULL ? g.old_freed == 1 && which == f : g.old_freed == 0, "the old text is released");
	if (N == 0 && !empty_is_text) {
		FV_ASSERT(new == NULL && ret == 0 && g.mallocs == 0, "an empty value unsets the text");
		return;
	}
	FV_ASSERT(g.mallocs == 1, "the text is allocated");
	if (g.nomem) {
		FV_ASSERT(new == NULL && ret == -ENOMEM, "exhausted memory is reported and nothing is left behind");
		return;
	}
	if (empty_is_text && N == 6 && is_notset()) {
		FV_ASSERT(new == NULL && ret == -EINVAL && g.new_freed == 1 && g.logs == 1 && g.loglev == LOG_LEVEL_ERROR, "the password notset is rejected");
		return;
	}
	FV_ASSERT(ret == 0 && new == g_new && g.new_freed == 0, "the text is set");
	FV_ASSERT(K < N ==> new[K] == g_val[K], "the text is the value");
	FV_ASSERT(new[N] == 0, "the text ends where the value ends");
}
#define NONE FV_PAIR == 0
void h_conf_parse_pair(void)
{
	size_t n = nondet_size_t(), kl = FV_PAIR;
	FV_ASSUME(n < 0x7ffffffful);
	if (NONE) {
		kl = nondet_size_t();
		FV_ASSUME(kl != 4 && kl != 8 && kl != 11 && kl != 13 && kl != 15 && kl != 16 && kl != 17 && kl != 19 && kl != 31);
	}
	char key[FV_PAIR + 1];
	const char *k = key;
	char *val = malloc(n);
	FV_ASSUME(val != NULL);
	g_val = val;
	N = n;
	K = nondet_size_t();
	g_num = nondet_uint(), g_num_ret = nondet_bool();
	/* a value holds no NUL */
	if (n > 0) FV_ASSUME(val[0] != 0);
	if (n > 1) FV_ASSUME(val[1] != 0);
	if (n > 2) FV_ASSUME(val[2] != 0);
	if (n > 3) FV_ASSUME(val[3] != 0);
	if (n > 4) FV_ASSUME(val[4] != 0);
	if (n > 5) FV_ASSUME(val[5] != 0);
	if (n > 6) FV_ASSUME(val[6] != 0);
#define OLD(f, i) g_conf.f = nondet_bool() ? &o_text[i] : NULL
	OLD(bind_addr, 0); OLD(bind_addr_ext, 1); OLD(calls_allowed, 2); OLD(calls_denied, 3);
	OLD(password, 4); OLD(reg_name, 5); OLD(reg_comment, 6); OLD(public_addr, 7);
	g_conf.bind_addr_ext_add = o_list;
	g_conf.bind_addr_ext_add_len = 1;
	g_conf.connection_timeout = nondet_uint();
	g_conf.port = nondet_uint16_t();
	g_conf0 = g_conf;
	g = (struct fv_ghost){ 0 };
	g_new = NULL;
	which = -1;
#if FV_PAIR
	/* the key is not terminated; what follows it belongs to nobody */
	k = key + 1;
	int any = 0;
#define KEY(name) (is(k, name) ? (any = 1) : 0)
	int port = KEY("Port"), password = KEY("Password"), bind = KEY("BindAddress"), public = KEY("PublicAddress"), denied = KEY("CallsignsDenied"),
		allowed = KEY("CallsignsAllowed"), name = KEY("RegistrationName"), timeout = KEY("ConnectionTimeout"), ext = KEY("ExternalBindAddress"),
		comment = KEY("RegistrationComment"), list = KEY("AdditionalExternalBindAddresses");
	FV_ASSUME(!list);
#else
	int any = 0, port = 0, password = 0, bind = 0, public = 0, denied = 0, allowed = 0, name = 0, timeout = 0, ext = 0, comment = 0;
#endif
	int ret = conf_parse_pair(k, kl, val, n, &g_conf, &g_log);
	text(bind, 0, g_conf.bind_addr, g_conf0.bind_addr, ret, 0);
	text(ext, 1, g_conf.bind_addr_ext, g_conf0.bind_addr_ext, ret, 0);
	text(allowed, 2, g_conf.calls_allowed, g_conf0.calls_allowed, ret, 0);
	text(denied, 3, g_conf.calls_denied, g_conf0.calls_denied, ret, 0);
	text(password, 4, g_conf.password, g_conf0.password, ret, 1);
	text(name, 5, g_conf.reg_name, g_conf0.reg_name, ret, 0);
	text(comment, 6, g_conf.reg_comment, g_conf0.reg_comment, ret, 0);
	text(public, 7, g_conf.public_addr, g_conf0.public_addr, ret, 0);
	FV_ASSERT(g_conf.bind_addr_ext_add == o_list && g_conf.bind_addr_ext_add_len == 1, "the list stays");
	if (port || timeout) {
		int ok = g_num_ret == 0 && g_num <= (port ? UINT16_MAX : UINT32_MAX);
		FV_ASSERT(ret == (ok ? 0 : -EINVAL), "a malformed number is rejected");
		FV_ASSERT(g.logs == !ok && (ok || g.loglev == LOG_LEVEL_ERROR), "and reported");
	}
	FV_ASSERT(g_conf.port == (port && ret == 0 ? g_num : g_conf0.port), "the port is set or stays");
	FV_ASSERT(g_conf.connection_timeout == (timeout && ret == 0 ? g_num : g_conf0.connection_timeout), "the timeout is set or stays");
	if (!any)
		FV_ASSERT(ret == 0 && g.logs == 0, "an unknown key is ignored");
	if (!any || port || timeout)
		FV_ASSERT(g.old_freed == 0 && g.mallocs == 0, "no text is touched");
	FV_CANARY_IF(!any && ret == 0, "unknown key");
#if FV_PAIR && FV_PAIR != 31
	FV_CANARY_IF(any && ret == 0 && n > 2, "known key");
	FV_CANARY_IF(any && ret < 0, "rejected");
#endif
}
#endif

#ifdef FV_LIST
struct proxy_conf g_conf0;
struct log_handle g_log;
#define RET __CPROVER_return_value
const char *g_key;
int fv_strncmp(const char *a, const char *b, size_t n)
{
#define AT(i, c) && b[i] == c
	FV_ASSERT(a == g_key && n == 31, "the key is compared");
	return !(1 AT(0, 'A') AT(1, 'd') AT(2, 'd') AT(3, 'i') AT(4, 't') AT(5, 'i') AT(6, 'o') AT(7, 'n') AT(8, 'a') AT(9, 'l') AT(10, 'E') AT(11, 'x') AT(12, 't') AT(13, 'e') AT(14, 'r')
		AT(15, 'n') AT(16, 'a') AT(17, 'l') AT(18, 'B') AT(19, 'i') AT(20, 'n') AT(21, 'd') AT(22, 'A') AT(23, 'd') AT(24, 'd') AT(25, 'r') AT(26, 'e') AT(27, 's') AT(28, 's')
		AT(29, 'e') AT(30, 's'));
}
int callocs;
void *fv_calloc(size_t n, size_t s)
{
	callocs++;
	FV_ASSERT(n == C && s == sizeof(char *), "the list has one element for each part");
	if (nondet_bool()) {
		g.nomem = 1;
		return NULL;
	}
	g_arr = __CPROVER_allocate(n * sizeof(char *), 1);
	c_now = at_now = 0;	/* the value is read from its start again */
	return g_arr;
}
void *fv_malloc(size_t n)
{
	size_t part = parts++;
	FV_ASSERT(part < C, "no more than one text for each part");
	if (nondet_bool()) {
		g.nomem = 1;
		return NULL;
	}
	if (part == I) {
		FV_ASSERT(n == T - S + 1, "the part and its end are allocated");
		return g_part;
	}
	return g_other;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	if (p == o_arr) {
		FV_ASSERT(arr_freed == 0 && old_freed == (o_len > O), "the old texts are released before the old list, which is released once");
		arr_freed = 1;
	} else if (g_arr != NULL && p == g_arr) {
		FV_ASSERT(new_arr_freed == 0, "the new list is released once");
		new_arr_freed = 1;
	} else if (p == o_text)
		old_freed++;
	else if (p == g_part)
		part_freed++;
	else
		FV_ASSERT(p != &text, "other settings are not released");
}
void *fv_memcpy(void *d, const void *s, size_t n)
{
	size_t at = (size_t)((const char *)s - g_val);
	FV_ASSERT(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "inside the buffers");
	if (parts == I + 1) {
		FV_ASSERT(d == g_part && s == g_val + S && n == T - S, "the part is copied");
		if (K < n)
			g_part[K] = g_val[S + K];
	}
	if (at + n < N)
		fv_step(at + n);
	return d;
}
static int conf_parse_pair(const char *key, size_t key_len, const char *val, size_t val_len, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(val == g_val && val_len == N && conf == &g_conf && log == &g_log)
__CPROVER_assigns(g, g_arr, c_now, at_now, parts, part_freed, old_freed, arr_freed, new_arr_freed, callocs, g_errno, g_conf, __CPROVER_object_whole(g_part), __CPROVER_object_whole(g_other))
__CPROVER_ensures(RET <= 0);

void h_conf_parse_pair(void)
{
	char key[1];		/* AdditionalExternalBindAddresses, see fv_strncmp */
	g_key = key;
	size_t n = nondet_size_t();
	FV_ASSUME(n < 0x7ffffffful);
	char *val = malloc(n);
	FV_ASSUME(val != NULL);
	g_val = val;
	N = n;
	I = nondet_size_t(), J = nondet_size_t(), K = nondet_size_t(), S = nondet_size_t(), T = nondet_size_t(), C = nondet_size_t(), O = nondet_size_t();
	FV_ASSUME(C >= 1 && C <= n + 1);
	if (n == 0)
		FV_ASSUME(C == 1);
	if (I < C) {
		FV_ASSUME(I <= S && S <= T && T <= N && C - 1 - I <= N - T);
		if (S == 0) FV_ASSUME(I == 0); else FV_ASSUME(I > 0 && val[S - 1] == ',');
		if (I == 0) FV_ASSUME(S == 0);
		if (T == N) FV_ASSUME(I == C - 1); else FV_ASSUME(I < C - 1 && val[T] == ',');
	} else
		FV_ASSUME(S == 0 && T == 0);
	g_part = __CPROVER_allocate(T - S + 1, 0);
	g_other = __CPROVER_allocate(N + 1, 0);
	o_len = nondet_uint16_t();
	o_arr = NULL;
	o_text = __CPROVER_allocate(1, 0);
	if (nondet_bool()) {
		o_arr = __CPROVER_allocate(o_len * sizeof(char *), 0);
		if (O < o_len)
			o_arr[O] = o_text;
	} else
		o_len = 0;
	g_conf.bind_addr = g_conf.bind_addr_ext = g_conf.calls_allowed = g_conf.calls_denied = g_conf.password = g_conf.reg_name = g_conf.reg_comment = g_conf.public_addr = &text;
	g_conf.bind_addr_ext_add = o_arr;
	g_conf.bind_addr_ext_add_len = o_len;
	g_conf.connection_timeout = nondet_uint();
	g_conf.port = nondet_uint16_t();
	g_conf0 = g_conf;
	g = (struct fv_ghost){ 0 };
	g_arr = NULL;
	c_now = at_now = parts = part_freed = old_freed = 0;
	arr_freed = new_arr_freed = callocs = 0;
	int ret = conf_parse_pair(key, 31, val, n, &g_conf, &g_log);
	FV_ASSERT(g_conf.bind_addr == &text && g_conf.bind_addr_ext == &text && g_conf.calls_allowed == &text && g_conf.calls_denied == &text &&
		  g_conf.password == &text && g_conf.reg_name == &text && g_conf.reg_comment == &text && g_conf.public_addr == &text &&
		  g_conf.port == g_conf0.port && g_conf.connection_timeout == g_conf0.connection_timeout, "no other setting changes");
	FV_ASSERT(o_arr == NULL || (arr_freed == 1 && old_freed == (O < o_len)), "the old list and its texts are released");
	if (N == 0) {
		FV_ASSERT(ret == 0 && callocs == 0, "an empty value is accepted");
	} else if (C > UINT16_MAX) {
		FV_ASSERT(ret == -EINVAL && callocs == 0 && g.logs == 1 && g.loglev == LOG_LEVEL_ERROR, "too long a list is rejected");
	} else if (g.nomem) {
		FV_ASSERT(ret == -ENOMEM, "exhausted memory is reported");
		FV_ASSERT(g_arr == NULL || new_arr_freed == 1, "the new list is released");
		FV_ASSERT(g_arr == NULL || I >= C || part_freed == (g_arr[I] == g_part), "its texts are released");
	} else {
		FV_ASSERT(ret == 0 && g_arr != NULL && g_conf.bind_addr_ext_add == g_arr && g_conf.bind_addr_ext_add_len == C, "the list is set, and its length");
		FV_ASSERT(I < C ==> g_arr[I] == g_part && part_freed == 0 && new_arr_freed == 0, "each part is in its place");
		FV_ASSERT(I < C && K < T - S ==> g_part[K] == g_val[S + K], "each part is the text between the commas");
		FV_ASSERT(I < C ==> g_part[T - S] == 0, "and ends there");
	}
	if (ret != 0 || N == 0)
		FV_ASSERT(g_conf.bind_addr_ext_add == NULL && g_conf.bind_addr_ext_add_len == 0, "the list is empty otherwise");
	FV_CANARY_IF(ret == 0 && C > 5 && I == 3 && T - S > 3, "a list");
	FV_CANARY_IF(ret == 0 && C == UINT16_MAX, "the longest list");
	FV_CANARY_IF(ret == -ENOMEM && C > 5 && g_arr != NULL, "no memory");
	FV_CANARY_IF(ret == -EINVAL, "too long");
}
#endif

#ifdef FV_READ
void *fv_malloc(size_t n)
{
	FV_ASSERT(n >= 1 && n <= BIG, "a size");
	if (nondet_bool()) {
		g.nomem = 1;
		return NULL;
	}
	return AT_END(n);
}
void *fv_realloc(void *p, size_t n)
{
	FV_ASSERT(p == AT_END(g_n_ptr[0]), "the buffer is resized");
	if (nondet_bool()) {
		g.nomem = 1;
		return NULL;
	}
	FV_ASSERT(n >= g_n_ptr[0] && n <= BIG, "the buffer grows");
	char c = K < g_n_ptr[0] ? g_big[BIG - g_n_ptr[0] + K] : 0;
	if (K < g_n_ptr[0])
		g_big[BIG - n + K] = c;
	return AT_END(n);
}
int fv_fgetc(FILE *f)
{
	FV_ASSERT(f == (FILE *)&g_file, "the stream is read");
	FV_ASSERT(nl == 0, "nothing is read behind the end of the line");
	if (got >= 0x7ffffffe || nondet_bool()) {
		last = EOF;
		return EOF;
	}
	int c = nondet_uint8_t();
	if (got == K)
		ck = c;
	got++;
	last = c;
	nl = c == '\n';
	return c;
}
#define RET __CPROVER_return_value
static int conf_readline(char **lineptr, size_t *n, FILE *stream)
__CPROVER_requires(lineptr == &g_line_ptr && n == &g_n && stream == (FILE *)&g_file)
__CPROVER_assigns(g_line_ptr, g_n, got, ck, last, nl, g, __CPROVER_object_whole(g_big))
__CPROVER_ensures(RET == (g.nomem ? -ENOMEM : (int)got))
__CPROVER_ensures(RET >= 0 ==> last == EOF || last == '\n')
__CPROVER_ensures(g_line_ptr == NULL ? RET < 0 : g_line_ptr == AT_END(g_n))
__CPROVER_ensures(RET >= 0 ==> g_n > got && g_big[BIG - g_n + got] == 0)
__CPROVER_ensures(RET >= 0 && K < got ==> g_big[BIG - g_n + K] == (char)ck);

void h_conf_readline(void)
{
	big = nondet_size_t();
	FV_ASSUME(big >= 0x80000100ul && big <= 0x80000200ul);
	g_big = __CPROVER_allocate(BIG, 0);
	g_n = nondet_size_t();
	g_n_ptr = &g_n;
	K = nondet_size_t();
	got = 0, last = 0, nl = 0, ck = 0;
	g = (struct fv_ghost){ 0 };
	if (nondet_bool()) {
		FV_ASSUME(g_n <= 0x80000000ul && g_n > 0);
		g_line_ptr = AT_END(g_n);
	} else
		g_line_ptr = NULL;
	int ret = conf_readline(&g_line_ptr, &g_n, (FILE *)&g_file);
	FV_CANARY_IF(ret == 1000 && K == 600 && last == '\n', "a long line");
	FV_CANARY_IF(ret == 0, "end of file");
	FV_CANARY_IF(ret == -ENOMEM && got > 500, "no memory");
}
#endif

#ifdef FV_STREAM
struct proxy_conf g_conf;
struct log_handle g_log;
char g_text[1];
struct fv_file { int x; } g_file;
int opened, closed;
#define RET __CPROVER_return_value
static int conf_readline(char **lineptr, size_t *n, FILE *stream)
__CPROVER_requires(*lineptr == NULL && line_live == 0 && stream == (FILE *)&g_file && eof == 0)
__CPROVER_assigns(*lineptr, *n, line_live, lines, eof)
__CPROVER_ensures(RET > 0 || RET == 0 || RET == -ENOMEM)
__CPROVER_ensures(RET >= 0 || line_live ? *lineptr == g_text && line_live == 1 : *lineptr == NULL)
__CPROVER_ensures(eof == (RET <= 0 ? 1 : 0) && lines == (RET > 0 ? (__CPROVER_old(lines) ^ 1) : __CPROVER_old(lines)));
static int conf_parse_line(const char *line, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(line == g_text && line_live == 1 && conf == &g_conf && log == &g_log && lines == (parsed ^ 1) && line_ret >= 0)
__CPROVER_assigns(parsed, line_ret)
__CPROVER_ensures(parsed == lines && RET == line_ret && RET > -4096);
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == g_text && line_live == 1, "the line is released once");
	line_live = 0;
}
#ifdef FV_FILE
static int conf_parse_stream(FILE *stream, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(stream == (FILE *)&g_file && conf == &g_conf && log == &g_log && opened == 1 && closed == 0)
__CPROVER_assigns(line_ret)
__CPROVER_ensures(RET == line_ret);
int conf_parse_file(const char *file, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(file == g_text && conf == &g_conf && log == &g_log)
__CPROVER_assigns(opened, closed, line_ret, g_errno, g)
__CPROVER_ensures(opened == closed && RET == (opened ? line_ret : -g_errno));
#else
static int conf_parse_stream(FILE *stream, struct proxy_conf *conf, struct log_handle *log)
__CPROVER_requires(stream == (FILE *)&g_file && conf == &g_conf && log == &g_log)
__CPROVER_assigns(line_live, lines, parsed, line_ret, eof)
__CPROVER_ensures(line_live == 0)
__CPROVER_ensures(line_ret < 0 ? RET == line_ret : eof == 1 && (RET == 0 || RET == -ENOMEM))
__CPROVER_ensures(lines == parsed);
#endif
FILE *fv_fopen(const char *f, const char *m)
{
	FV_ASSERT(f == g_text && m[0] == 'r', "the file is opened for reading");
	if (nondet_bool()) {
		g_errno = nondet_int();
		FV_ASSUME(g_errno > 0 && g_errno < 4096);
		return NULL;
	}
	opened++;
	return (FILE *)&g_file;
}
int fv_fclose(FILE *f)
{
	FV_ASSERT(f == (FILE *)&g_file && opened == 1 && closed == 0, "the file is closed once");
	closed++;
	g_errno = nondet_int();
	return 0;
}
void h_conf_parse_stream(void)
{
	line_live = lines = parsed = line_ret = eof = 0;
	int ret = conf_parse_stream((FILE *)&g_file, &g_conf, &g_log);
	FV_CANARY_IF(ret == 0, "end of file");
	FV_CANARY_IF(ret == -ENOMEM && line_ret >= 0, "no memory");
	FV_CANARY_IF(ret < 0 && line_ret == ret, "error");
}
void h_conf_parse_file(void)
{
	opened = closed = 0;
	g = (struct fv_ghost){ 0 };
	int ret = conf_parse_file(g_text, &g_conf, &g_log);
	FV_CANARY_IF(ret == 0 && opened, "read");
	FV_CANARY_IF(ret < 0 && !opened, "no file");
}
#endif

#ifdef FV_FREE
void fv_free(void *p)
{
	if (p == NULL)
		return;
	if (p == o_arr) {
		FV_ASSERT(arr_freed == 0 && text_freed == (o_len > O), "the texts are released before the list, which is released once");
		arr_freed = 1;
	} else if (p == o_text)
		text_freed++;
	else if (__CPROVER_same_object(p, o_other)) {
		FV_ASSERT(other_freed[__CPROVER_POINTER_OFFSET(p)] == 0, "released once");
		other_freed[__CPROVER_POINTER_OFFSET(p)] = 1;
	}
}
void conf_free(struct proxy_conf *conf)
__CPROVER_requires(conf == &g_conf)
__CPROVER_assigns(g_conf, text_freed, arr_freed, __CPROVER_object_whole(other_freed))
__CPROVER_ensures(conf->bind_addr == NULL && conf->bind_addr_ext == NULL && conf->calls_allowed == NULL && conf->calls_denied == NULL &&
	conf->password == NULL && conf->reg_name == NULL && conf->reg_comment == NULL && conf->public_addr == NULL && conf->bind_addr_ext_add == NULL)
__CPROVER_ensures(o_arr != NULL ==> arr_freed == 1 && conf->bind_addr_ext_add_len == 0);
int conf_init(struct proxy_conf *conf)
__CPROVER_requires(conf == &g_conf)
__CPROVER_assigns(g_conf.password, g_conf.port)
__CPROVER_ensures(__CPROVER_return_value == 0 && conf->password == NULL && conf->port == 8100);
void h_conf_init(void)
{
	conf_init(&g_conf);
	FV_CANARY("end");
}
void h_conf_free(void)
{
	o_len = nondet_uint16_t(), O = nondet_size_t();
	o_arr = NULL;
	text_freed = 0, arr_freed = 0;
	o_text = __CPROVER_allocate(1, 0);
	if (nondet_bool()) {
		o_arr = __CPROVER_allocate(o_len * sizeof(char *), 0);
		if (O < o_len)
			o_arr[O] = o_text;
	}
	g_conf.bind_addr_ext_add = o_arr;
	g_conf.bind_addr_ext_add_len = (uint16_t)o_len;
	int had[8];
#define OLD(f, k) had[k] = nondet_bool(); other_freed[k] = 0; g_conf.f = had[k] ? &o_other[k] : NULL
	OLD(bind_addr, 0); OLD(bind_addr_ext, 1); OLD(calls_allowed, 2); OLD(calls_denied, 3);
	OLD(password, 4); OLD(reg_name, 5); OLD(reg_comment, 6); OLD(public_addr, 7);
	conf_free(&g_conf);
	FV_ASSERT(other_freed[0] == had[0] && other_freed[1] == had[1] && other_freed[2] == had[2] && other_freed[3] == had[3] && other_freed[4] == had[4] &&
		  other_freed[5] == had[5] && other_freed[6] == had[6] && other_freed[7] == had[7], "every text is released");
	FV_ASSERT(text_freed == (o_arr != NULL && O < o_len), "every text of the list is released");
	FV_CANARY_IF(o_arr != NULL && o_len == 65535 && had[3] && !had[4], "end");
}
#endif
