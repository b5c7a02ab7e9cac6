ID="D03-z"; PROP="D03"
EDITS=[("src/proxy.c","*password <= 122","*password < 122")]
NEEDS="a password with the letter z in lower case"
BREAKS="the letter z is not converted to upper case before hashing, so such clients cannot log in"
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include "openelp/openelp.h"
int main(void)
{
	int c; char a[4] = "x", b[4] = "X"; uint8_t r[16], q[16];
	for (c = 'a'; c <= 'z'; c++) {
		a[0] = c; b[0] = c - 32;
		get_password_response(0x12ab, a, r);
		get_password_response(0x12ab, b, q);
		if (memcmp(r, q, 16)) { printf("'%s' and '%s' give different responses\n", a, b); return 1; }
	}
	return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cd src
gcc -w -I../include -I. -DOPENELP_API= -DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 -DOPENELP_VERSION=x -DPCRE2_CODE_UNIT_WIDTH=8 -o "$w/t" "$d/t.c" conn.c mutex_posix.c thread_posix.c worker.c proxy_conn.c proxy.c registration.c conf.c log.c regex.c rand.c pearson.c digest.c md5.c -lpthread -lm -lpcre2-8 || exit 2
"$w/t"
'''
