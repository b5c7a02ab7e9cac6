ID='G01-short-body'
PROP='G01'
NAT=('G01', 0, 6000)
EDITS=[('src/registration.c', 'strlen(priv->reg_suffix) + 80);', 'strlen(priv->reg_suffix) + 46);')]
NEEDS='a proxy with a hundred slots or more'
BREAKS='the body of the report is written beyond its buffer'
