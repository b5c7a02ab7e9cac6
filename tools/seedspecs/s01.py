ID='S01-bucket'
PROP='S01'
NAT=('S01', 0, 6000)
EDITS=[('src/proxy.c', '\tif (pc->next_by_call != NULL)\n\t\tpc->next_by_call->prev_by_call_ptr = &pc->next_by_call;\n', '\tif (pc->next_by_call != NULL && pc->next_by_call->prev_by_call_ptr == NULL)\n\t\tpc->next_by_call->prev_by_call_ptr = &pc->next_by_call;\n')]
NEEDS='three slots in the bucket of one callsign, taken in a certain order'
BREAKS='the callsign index loses slots'
