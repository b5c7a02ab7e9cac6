ID='C01-case-31'
PROP='C01'
NAT=('C01', 0, 4000)
EDITS=[('src/conf.c', "\twhile (*val == ' ' || *val == '\\t')\n\t\tval++;\n", "\twhile (*val == ' ' || *val == '\\t' || *val == '=')\n\t\tval++;\n")]
NEEDS='a value that begins with an equals sign'
BREAKS='the first character of the value is dropped'
