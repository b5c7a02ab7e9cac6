ID='K01-long-call'
PROP='K01'
NAT=('K01', 0, 4000)
EDITS=[('src/proxy_client.c', '\t\t\t\tstrlen(ch->callsign));\n', '\t\t\t\tstrcspn(ch->callsign, "\\n"));\n')]
NEEDS='a callsign with a newline in it'
BREAKS='only part of the callsign is sent'
