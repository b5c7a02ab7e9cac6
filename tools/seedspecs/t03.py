ID="T03-both"; PROP="T03"
EDITS=[("src/conn.c","""		closesocket(priv->conn_fd);
		priv->conn_fd = INVALID_SOCKET;
	}

	if (priv->sock_fd != INVALID_SOCKET) {
		closesocket(priv->sock_fd);""","""		closesocket(priv->conn_fd);
		priv->conn_fd = INVALID_SOCKET;
	} else if (priv->sock_fd != INVALID_SOCKET) {
		closesocket(priv->sock_fd);""")]
NEEDS="closing a connection that both listens and holds an accepted client"
BREAKS="the listening descriptor stays open after conn_close and the port stays taken"
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "conn.h"
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main(void)
{
	struct sockaddr_in s; int f, before, port; struct conn_handle l; char ps[6];
	before = fds();
	memset(&l, 0, sizeof l); l.type = CONN_TYPE_TCP; l.source_addr = "127.0.0.1"; l.source_port = ps;
	for (port = 18431; port < 18471; port++) { sprintf(ps, "%d", port); conn_init(&l); if (conn_listen(&l) == 0) break; conn_free(&l); }
	f = socket(AF_INET, SOCK_STREAM, 0);
	memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(f, (void *)&s, sizeof s)) return 2;
	if (conn_accept(&l, &l)) return 2;
	conn_close(&l);
	close(f);
	printf("%d descriptors before, %d after\n", before, fds());
	f = fds();
	conn_free(&l);
	return f == before ? 0 : 1;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -Iinclude -Isrc -o "$w/t" "$d/t.c" src/conn.c src/mutex_posix.c -lpthread || exit 2
timeout 20 "$w/t"
'''
