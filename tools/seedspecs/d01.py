ID="D01-pad"; PROP="D01"
EDITS=[("src/md5.c","	if (available < 8) {","	if (available <= 8) {")]
NEEDS="a message whose length is 55 modulo 64"
BREAKS="MD5_Final appends one block too many, so the digest is wrong"
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include "digest.h"
int main(int argc, char **argv)
{
	uint8_t d[16]; int i; static uint8_t m[200]; memset(m, 'a', sizeof m);
	digest_get(m, atoi(argv[1]), d);
	for (i = 0; i < 16; i++) printf("%02x", d[i]);
	printf("\n");
	return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -include stdlib.h -Iinclude -Isrc -o "$w/t" "$d/t.c" src/digest.c src/md5.c || exit 2
for n in $(seq 0 140); do
	want=$(head -c $n /dev/zero | tr '\\0' a | md5sum | cut -d' ' -f1)
	[ "$("$w/t" $n)" = "$want" ] || { echo "digest of $n bytes is wrong"; exit 1; }
done
'''
