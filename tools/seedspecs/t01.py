ID="T01-eof-inside"; PROP="T01"
EDITS=[("src/conn.c","""		if (ret == 0) {
			ret = -EPIPE;

			goto conn_recv_exit;""","""		if (ret == 0) {
			ret = bytes_read > 0 ? bytes_read : -EPIPE;

			goto conn_recv_exit;""")]
NEEDS="the peer closes its connection after sending part of what is awaited"
BREAKS="conn_recv reports success with fewer bytes than requested, the rest of the buffer is stale"
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include "conn.h"
static int port;
static void *peer(void *a)
{
	struct sockaddr_in s; int f = socket(AF_INET, SOCK_STREAM, 0);
	memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(f, (void *)&s, sizeof s)) return NULL;
	send(f, "abcde", 5, 0);
	close(f);
	return NULL;
}
int main(void)
{
	struct conn_handle l, c; uint8_t b[9]; pthread_t t; int r; char ps[6];
	memset(&l, 0, sizeof l); memset(&c, 0, sizeof c);
	l.type = c.type = CONN_TYPE_TCP;
	l.source_addr = "127.0.0.1"; l.source_port = ps;
	for (port = 18431; port < 18471; port++) { sprintf(ps, "%d", port); conn_init(&l); if (conn_listen(&l) == 0) break; conn_free(&l); }
	conn_init(&c);
	pthread_create(&t, NULL, peer, NULL);
	if (conn_accept(&l, &c)) return 2;
	r = conn_recv(&c, b, 9);
	pthread_join(t, NULL);
	conn_free(&c); conn_free(&l);
	printf("conn_recv of 9 bytes, 5 sent: %d\n", r);
	return r < 0 ? 0 : 1;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -Iinclude -Isrc -o "$w/t" "$d/t.c" src/conn.c src/mutex_posix.c -lpthread || exit 2
timeout 20 "$w/t"
'''
