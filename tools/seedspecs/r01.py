ID='R01-desync'
PROP='R01'
NAT=('R01', 0, 3000)
EDITS=[('src/proxy_conn.c', '\t\tif (ret < 0)\n\t\t\tproxy_log(pc->ph, LOG_LEVEL_WARN,\n\t\t\t\t  "Failed to send UDP_CONTROL packet of size %zu to client \'%s\': %d (%s)\\n",\n\t\t\t\t  curr_msg_size, priv->callsign, -ret,\n\t\t\t\t  strerror(-ret));\n', '\t\tif (ret < 0) {\n\t\t\tproxy_log(pc->ph, LOG_LEVEL_WARN,\n\t\t\t\t  "Failed to send UDP_CONTROL packet of size %zu to client \'%s\': %d (%s)\\n",\n\t\t\t\t  curr_msg_size, priv->callsign, -ret,\n\t\t\t\t  strerror(-ret));\n\t\t\tbreak;\n\t\t}\n')]
NEEDS='a control message larger than one datagram, one of whose datagrams cannot be sent'
BREAKS='the rest of the message is not consumed and is read as the next message header'
