ID='R03-reset'
PROP='R03'
NAT=('R03', 0, 6000)
EDITS=[('src/proxy_conn.c', '\tconn_close(&priv->conn_tcp);\n\n\tsend_tcp_close(pc);\n', '\tconn_close(&priv->conn_tcp);\n\n\tif (ret != -ECONNRESET)\n\t\tsend_tcp_close(pc);\n')]
NEEDS='the remote side of the TCP connection resets it'
BREAKS='the client is not told that its TCP connection has ended'
