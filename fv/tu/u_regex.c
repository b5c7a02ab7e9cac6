/* Contracts on regex.c; PCRE2 is external. */
#include "regex.h"
#define calloc fv_calloc
#define free fv_free
void *fv_calloc(size_t n, size_t s);
void fv_free(void *p);
#include "fv_loop_defaults.h"
#include "regex.c"
#undef calloc
#undef free

struct fv_re { int code_live, priv_live, md_live, fail, res; } g;
const char *g_pat;
char g_codes[2];	/* stand-ins for compiled patterns: [0] an earlier one, [1] the new one */
char g_md;
struct regex_priv g_rp;
struct regex_handle g_re;
#define OLD ((pcre2_code *)&g_codes[0])
#define NEW ((pcre2_code *)&g_codes[1])

void *fv_calloc(size_t n, size_t s)
{
	FV_ASSERT(n * s == sizeof(struct regex_priv) && !g.priv_live, "the private data is allocated once");
	if (nondet_bool()) {
		g.fail = -ENOMEM;
		return NULL;
	}
	g.priv_live = 1;
	g_rp = (struct regex_priv){ 0 };
	return &g_rp;
}
void fv_free(void *p)
{
	if (p == NULL)
		return;
	FV_ASSERT(p == (void *)&g_rp && g.priv_live, "only what was allocated is released, once");
	FV_ASSERT(!g.code_live, "the pattern is released before");
	g.priv_live = 0;
}
/* external: PCRE2 */
pcre2_code *pcre2_compile(PCRE2_SPTR pattern, PCRE2_SIZE len, uint32_t opt, int *ec, PCRE2_SIZE *eo, pcre2_compile_context *cc)
{
	FV_ASSERT((const char *)pattern == g_pat && len == PCRE2_ZERO_TERMINATED, "the whole pattern is compiled");
	FV_ASSERT(opt == 0, "the pattern is compiled without options");
	*ec = nondet_int();
	*eo = nondet_size_t();
	if (nondet_bool()) {
		g.fail = 1;
		return NULL;
	}
	FV_ASSERT(!(g.code_live & 2), "one pattern is compiled");
	g.code_live |= 2;
	return NEW;
}
void pcre2_code_free(pcre2_code *c)
{
	if (c == NULL)
		return;
	FV_ASSERT((c == OLD && (g.code_live & 1)) || (c == NEW && (g.code_live & 2)), "a pattern is released once");
	g.code_live &= c == OLD ? ~1 : ~2;
}
pcre2_match_data *pcre2_match_data_create_from_pattern(const pcre2_code *c, pcre2_general_context *gc)
{
	FV_ASSERT(c == OLD && !g.md_live, "match data for the pattern");
	if (nondet_bool()) {
		g.fail = 1;
		return NULL;
	}
	g.md_live = 1;
	return (pcre2_match_data *)&g_md;
}
void pcre2_match_data_free(pcre2_match_data *m)
{
	FV_ASSERT(m == NULL || (m == (pcre2_match_data *)&g_md && g.md_live), "match data is released once");
	if (m != NULL)
		g.md_live = 0;
}
size_t g_len;
int pcre2_match(const pcre2_code *c, PCRE2_SPTR s, PCRE2_SIZE len, PCRE2_SIZE start, uint32_t opt, pcre2_match_data *m, pcre2_match_context *mc)
{
	FV_ASSERT(c == OLD && m == (pcre2_match_data *)&g_md && g.md_live, "the pattern is matched");
	FV_ASSERT((const char *)s == g_pat && (len == g_len || len == PCRE2_ZERO_TERMINATED) && start == 0 && opt == 0, "the whole callsign is matched, without options");
	return g.res;
}

#define RE_OBJ(re) (__CPROVER_pointer_equals(re, &g_re) && __CPROVER_pointer_equals(g_re.priv, (void *)&g_rp))
int regex_compile(struct regex_handle *re, const char *pattern)
__CPROVER_requires(RE_OBJ(re) && __CPROVER_is_fresh(pattern, 1) && __CPROVER_pointer_equals(g_pat, pattern) && g.fail == 0 && g.priv_live == 1)
__CPROVER_requires(g.code_live == 0 ? g_rp.re == NULL : (g.code_live == 1 && __CPROVER_pointer_equals(g_rp.re, OLD)))
__CPROVER_assigns(g, g_rp.re)
__CPROVER_ensures((__CPROVER_return_value < 0) == (g.fail != 0) && __CPROVER_return_value <= 0)
__CPROVER_ensures(g.fail == 0 ==> (g_rp.re == NEW && g.code_live == 2))
__CPROVER_ensures(g.fail != 0 ==> (g_rp.re == NULL && g.code_live == 0))
;
int regex_is_match(const struct regex_handle *re, const char *subject)
__CPROVER_requires(RE_OBJ(re) && __CPROVER_pointer_equals(g_rp.re, OLD) && g.code_live == 1 && g.md_live == 0 && g.fail == 0)
__CPROVER_requires(__CPROVER_is_fresh(subject, 12) && __CPROVER_pointer_equals(g_pat, subject) && g_len <= 11 && subject[g_len] == 0)
__CPROVER_requires((g_len <= 0 || subject[0]) && (g_len <= 1 || subject[1]) && (g_len <= 2 || subject[2]) && (g_len <= 3 || subject[3]) && (g_len <= 4 || subject[4]) &&
	(g_len <= 5 || subject[5]) && (g_len <= 6 || subject[6]) && (g_len <= 7 || subject[7]) && (g_len <= 8 || subject[8]) && (g_len <= 9 || subject[9]) && (g_len <= 10 || subject[10]))
__CPROVER_assigns(g)
__CPROVER_ensures(g.md_live == 0 && g.code_live == 1)
__CPROVER_ensures(g.fail ==> __CPROVER_return_value < 0)
__CPROVER_ensures(!g.fail ==> (g.res >= 0 ? __CPROVER_return_value == 1 : g.res == PCRE2_ERROR_NOMATCH ? __CPROVER_return_value == 0 : __CPROVER_return_value < 0))
;
int regex_init(struct regex_handle *re)
__CPROVER_requires(__CPROVER_pointer_equals(re, &g_re) && g_re.priv == NULL && g.priv_live == 0 && g.fail == 0)
__CPROVER_assigns(g, g_rp, g_re.priv)
__CPROVER_ensures(__CPROVER_return_value == g.fail)
__CPROVER_ensures(g.fail == 0 ? (g.priv_live && g_re.priv == (void *)&g_rp && g_rp.re == NULL) : (g_re.priv == NULL && !g.priv_live))
;
void regex_free(struct regex_handle *re)
__CPROVER_requires(__CPROVER_pointer_equals(re, &g_re) && (g.priv_live ? __CPROVER_pointer_equals(g_re.priv, (void *)&g_rp) : g_re.priv == NULL))
__CPROVER_requires(g.code_live == 0 ? g_rp.re == NULL : (g.code_live == 1 && __CPROVER_pointer_equals(g_rp.re, OLD)))
__CPROVER_requires(g.priv_live || g.code_live == 0)
__CPROVER_assigns(g, g_re.priv, g_rp)
__CPROVER_ensures(g_re.priv == NULL && !g.priv_live && !g.code_live)
;
#define RI g.fail = 0; g.md_live = 0; g.priv_live = nondet_bool(); g.code_live = nondet_bool()
void h_regex_compile(void) { struct regex_handle *re; const char *p; RI; int r = regex_compile(re, p); FV_CANARY_IF(r == 0, "compiled"); FV_CANARY_IF(r < 0, "bad pattern"); }
void h_regex_is_match(void) { struct regex_handle *re; const char *p; RI; int r = regex_is_match(re, p); FV_CANARY_IF(r == 1, "match"); FV_CANARY_IF(r == 0, "no match"); FV_CANARY_IF(r < 0, "error"); }
void h_regex_init(void) { struct regex_handle *re; RI; int r = regex_init(re); FV_CANARY_IF(r == 0, "initialised"); FV_CANARY_IF(r < 0, "no memory"); }
void h_regex_free(void) { struct regex_handle *re; RI; regex_free(re); FV_CANARY("freed"); }
