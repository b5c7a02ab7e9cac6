ID='L01-same-file'
PROP='L01'
NAT=('L01', 0, 4000)
EDITS=[('src/log.c', '\t\tcase LOG_MEDIUM_SYSLOG:\n\t\t\tbreak;\n\t\tcase LOG_MEDIUM_EVENTLOG:\n\t\t\topenlog("openelp", LOG_CONS | LOG_NDELAY, LOG_DAEMON);\n\t\t\tlog->medium = LOG_MEDIUM_SYSLOG;\n', '\t\tcase LOG_MEDIUM_SYSLOG:\n\t\t\tcloselog();\n\n\t\t\tbreak;\n\t\tcase LOG_MEDIUM_EVENTLOG:\n\t\t\topenlog("openelp", LOG_CONS | LOG_NDELAY, LOG_DAEMON);\n\t\t\tlog->medium = LOG_MEDIUM_SYSLOG;\n')]
NEEDS='syslog selected while it is the medium'
BREAKS='the selected medium is not open'
