ID='G02-late-idle'
PROP='G02'
NAT=('G02', 1, 3000)
EDITS=[('src/proxy.c', '\tmutex_lock(&priv->idle_workers_mutex);\n\tpw->next = priv->idle_workers_head;\n\tpriv->idle_workers_head = pw;\n\tmutex_unlock(&priv->idle_workers_mutex);\n\n\tproxy_update_registration(pw->ph);\n\n', '\tproxy_update_registration(pw->ph);\n\n\tmutex_lock(&priv->idle_workers_mutex);\n\tpw->next = priv->idle_workers_head;\n\tpriv->idle_workers_head = pw;\n\tmutex_unlock(&priv->idle_workers_mutex);\n\n')]
NEEDS='the end of the last session'
BREAKS='the last update counts a slot as used that is free'
