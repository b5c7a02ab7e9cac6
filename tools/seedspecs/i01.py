ID='I01-cond-leak'
PROP='I01'
NAT=('I01', 0, 12000)
EDITS=[('src/worker.c', 'worker_init_exit:\n\tmutex_free(&priv->mutex);\n\n\tcondvar_free(&priv->condvar_idle);\n', 'worker_init_exit:\n\tmutex_free(&priv->mutex);\n\n\tif (ret != -ENOMEM)\n\t\tcondvar_free(&priv->condvar_idle);\n')]
NEEDS='no memory for the lock of a worker being initialised'
BREAKS='a condition variable is never released'
