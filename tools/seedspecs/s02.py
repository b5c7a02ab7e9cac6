ID='S02-idle-early'
PROP='S02'
NAT=('S02', 0, 6000)
EDITS=[('src/proxy.c', 'proxy_worker_func_exit:\n\tmutex_lock(&pw->mutex);\n\tconn_free(pw->conn_client);\n\tfree(pw->conn_client);\n\tpw->conn_client = NULL;\n\tmutex_unlock(&pw->mutex);\n\n\tmutex_lock(&priv->idle_workers_mutex);\n\tpw->next = priv->idle_workers_head;\n\tpriv->idle_workers_head = pw;\n\tmutex_unlock(&priv->idle_workers_mutex);\n', 'proxy_worker_func_exit:\n\tmutex_lock(&priv->idle_workers_mutex);\n\tpw->next = priv->idle_workers_head;\n\tpriv->idle_workers_head = pw;\n\tmutex_unlock(&priv->idle_workers_mutex);\n\n\tmutex_lock(&pw->mutex);\n\tconn_free(pw->conn_client);\n\tfree(pw->conn_client);\n\tpw->conn_client = NULL;\n\tmutex_unlock(&pw->mutex);\n')]
NEEDS='a connection that arrives between the two critical sections at the end of a session'
BREAKS='the worker is offered a new connection while it still has the old one, so the new client is turned away and the worker is lost'
