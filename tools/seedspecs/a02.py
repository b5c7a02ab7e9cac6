ID='A02-both-wrong'
PROP='A02'
NAT=('A02', 0, 3000)
EDITS=[('src/proxy.c', '\t\t\tret = conn_send(pw->conn_client, msg_bad_pw, sizeof(msg_bad_pw));\n', '\t\t\tret = conn_send(pw->conn_client,\n\t\t\t\t\tproxy_authorize_callsign(pw->ph, pw->callsign) == 1 ?\n\t\t\t\t\tmsg_bad_pw : msg_bad_auth, sizeof(msg_bad_pw));\n')]
NEEDS='a wrong password response together with a callsign that is not permitted'
BREAKS='a client with a wrong password is told that its callsign is not permitted'
