ID='W02-last-reader'
PROP='W02'
NAT=('W02', 0, 6000)
EDITS=[('src/mutex_posix.c', '\t\tret = pthread_cond_broadcast(&priv->cond);\n\t\tif (ret != 0) {\n\t\t\tret = -ret;\n\t\t\tgoto mutex_unlock_shared_exit;', '\t\tret = pthread_cond_signal(&priv->cond);\n\t\tif (ret != 0) {\n\t\t\tret = -ret;\n\t\t\tgoto mutex_unlock_shared_exit;')]
NEEDS='two writers waiting for readers when the last reader leaves'
BREAKS='only one waiting writer is woken; the other may sleep for ever'
