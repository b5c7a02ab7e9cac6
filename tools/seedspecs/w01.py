ID='W01-busy-wake'
PROP='W01'
NAT=('W01', 0, 4000)
EDITS=[('src/worker.c', '\t\tif (priv->state == WORKER_SIGNALED)\n\t\t\tpriv->state = WORKER_STOPPING_AFTER_WORK;\n', '\t\tif (priv->state == WORKER_SIGNALED &&\n\t\t    wh->periodic_wake == 0)\n\t\t\tpriv->state = WORKER_STOPPING_AFTER_WORK;\n')]
NEEDS='joining a worker with a period that has been woken but has not begun its run'
BREAKS='the wake is lost'
