ID="D02-upper-f"; PROP="D02"
EDITS=[("src/digest.c","		if (data > 'F') {","		if (data >= 'F') {")]
NEEDS="a hexadecimal text with the upper-case digit F"
BREAKS="hex32_to_digest reads the digit F as 0"
FILES={"t.c":r'''
#include <stdio.h>
#include "digest.h"
int main(void)
{
	char t[9]; unsigned long i;
	for (i = 0; i < 0x10000; i++) {
		unsigned v = (unsigned)(i * 2654435761u);
		sprintf(t, i & 1 ? "%08X" : "%08x", v);
		if (hex32_to_digest(t) != v) { printf("%s is read as %08x\n", t, hex32_to_digest(t)); return 1; }
	}
	return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -Iinclude -Isrc -o "$w/t" "$d/t.c" src/digest.c src/md5.c || exit 2
"$w/t"
'''
