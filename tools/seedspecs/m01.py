ID='M01-cluster-log'
PROP='M01'
NAT=('M01', 0, 4000)
EDITS=[('src/proxyd.c', '} else if (arg_len > j + 1) {', '} else if (arg_len > 2) {')]
NEEDS='-L as the last of several flags in one argument, with its path in the next'
BREAKS='the log path is the empty text and the next argument becomes the configuration path'
