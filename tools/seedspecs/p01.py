ID='P01-start-order'
PROP='P01'
NAT=('P01', 1, 5000)
EDITS=[('src/proxy.c', '\tfor (i--; i >= 0; i--)\n\t\tworker_join(&priv->client_workers[i].worker);\n\n', '\tfor (i--; i > 0; i--)\n\t\tworker_join(&priv->client_workers[i].worker);\n\n')]
NEEDS='a failure while starting the proxy, after the first worker has been started'
BREAKS='the first worker keeps running although starting failed'
