ID='R02-unlocked-status'
PROP='R02'
NAT=('R02', 0, 6000)
EDITS=[('src/proxy_conn.c', '\tmutex_lock(&priv->mutex_client_send);\n\n\tret = conn_send(priv->conn_client, (uint8_t *)&message,\n\t\t\tsizeof(struct proxy_msg));\n\n\tmutex_unlock(&priv->mutex_client_send);\n\n\treturn ret;\n', '\tmutex_lock_shared(&priv->mutex_client_send);\n\n\tret = conn_send(priv->conn_client, (uint8_t *)&message,\n\t\t\tsizeof(struct proxy_msg));\n\n\tmutex_unlock_shared(&priv->mutex_client_send);\n\n\treturn ret;\n')]
NEEDS='a TCP close message sent by the forwarder and one sent by message processing at once, in partial sends'
BREAKS='two messages to one client can be interleaved'
