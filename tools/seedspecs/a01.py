ID='A01-last-byte'
PROP='A01'
NAT=('A01', 0, 3000)
EDITS=[('src/proxy.c', 'for (idx += 1, j = 0; j < PROXY_PASS_RES_LEN; idx++, j++)', 'for (idx += 1, j = 0; j < PROXY_PASS_RES_LEN - 1; idx++, j++)')]
NEEDS='a client whose password response differs from the right one in its last byte only'
BREAKS='the last byte of the password response is not compared, so a wrong response is admitted'
