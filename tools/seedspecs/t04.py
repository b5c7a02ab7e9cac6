ID="T04-high-ports"; PROP="T04"
EDITS=[("src/conn.c","	uint16_t port_tmp = port;\n","	int16_t port_tmp = (int16_t)port;\n")]
NEEDS="a port above 32767"
BREAKS="conn_port_to_str renders ports above 32767 as garbage"
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include "conn.h"
int main(void)
{
	unsigned p; char a[12], b[12];
	for (p = 0; p < 65536; p++) {
		memset(a, 1, sizeof a);
		conn_port_to_str((uint16_t)p, a);
		sprintf(b, "%u", p);
		if (memcmp(a, b, strlen(b) + 1)) { printf("port %u is wrong\n", p); return 1; }
	}
	return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -Iinclude -Isrc -o "$w/t" "$d/t.c" src/conn.c src/mutex_posix.c -lpthread || exit 2
timeout 20 "$w/t"
'''
