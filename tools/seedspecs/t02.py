ID="T02-split"; PROP="T02"
EDITS=[("src/conn.c","""			ret = sendto(priv->fd, (const char *)buff,
				     (socklen_t)buff_len, MSG_NOSIGNAL,""","""			ret = sendto(priv->fd, (const char *)buff,
				     (socklen_t)(buff_len > 1472 ? 1472 : buff_len), MSG_NOSIGNAL,"""),
 ("src/conn.c","""			buff_len -= ret;
		}

		ret = 0;
	} else {
		ret = -ENOTCONN;
	}

conn_send_to_exit:""","""			buff_len -= ret;
			buff += ret;
		}

		ret = 0;
	} else {
		ret = -ENOTCONN;
	}

conn_send_to_exit:""")]
NEEDS="a datagram with more than 1472 bytes of payload"
BREAKS="a large message is sent as several datagrams instead of one"
FILES={"t.c":r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "conn.h"
int main(void)
{
	struct sockaddr_in s; socklen_t n = sizeof s; int f = socket(AF_INET, SOCK_DGRAM, 0), r; struct conn_handle c;
	static uint8_t b[3000], g[4000];
	struct timeval tv = { 5, 0 };
	memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(f, (void *)&s, sizeof s)) return 2;
	getsockname(f, (void *)&s, &n);
	setsockopt(f, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
	memset(&c, 0, sizeof c); c.type = CONN_TYPE_UDP; c.source_addr = "127.0.0.1";
	conn_init(&c); if (conn_listen(&c)) return 2;
	r = conn_send_to(&c, b, sizeof b, s.sin_addr.s_addr, ntohs(s.sin_port));
	n = recv(f, g, sizeof g, 0);
	printf("sent 3000 (%d), first datagram has %d\n", r, (int)n);
	conn_free(&c);
	return r == 0 && n == 3000 ? 0 : 1;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
gcc -w -Iinclude -Isrc -o "$w/t" "$d/t.c" src/conn.c src/mutex_posix.c -lpthread || exit 2
timeout 20 "$w/t"
'''
