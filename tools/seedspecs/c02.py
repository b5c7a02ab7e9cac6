ID='C02-list-oom'
PROP='C02'
NAT=('C02', 0, 4000)
EDITS=[('src/conf.c', '\t\t\tfor (i = 0; i < conf->bind_addr_ext_add_len; i++)\n\t\t\t\tif (conf->bind_addr_ext_add[i] != NULL)\n\t\t\t\t\tfree(conf->bind_addr_ext_add[i]);\n\n\t\t\tfree(conf->bind_addr_ext_add);\n\t\t\tconf->bind_addr_ext_add = NULL;\n\t\t\tconf->bind_addr_ext_add_len = 0;\n', '\t\t\tfor (j = 0; j + 1 < i; j++)\n\t\t\t\tfree(conf->bind_addr_ext_add[j]);\n\n\t\t\tfree(conf->bind_addr_ext_add);\n\t\t\tconf->bind_addr_ext_add = NULL;\n\t\t\tconf->bind_addr_ext_add_len = 0;\n')]
NEEDS='no memory for the third or a later part of the address list'
BREAKS='one part of the list is never released'
