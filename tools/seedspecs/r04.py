ID='R04-quiet-fault'
PROP='R04'
NAT=('R04', 0, 6000)
EDITS=[('src/proxy_conn.c','''	default:
		proxy_log(pc->ph, LOG_LEVEL_INFO,
			  "Failed to receive data on client '%s' UDP Data connection''','''	case -ENOMEM:
		break;
	default:
		proxy_log(pc->ph, LOG_LEVEL_INFO,
			  "Failed to receive data on client '%s' UDP Data connection''')]
NEEDS='receiving on the data socket fails for lack of memory'
BREAKS='the forwarding of datagrams ends but the client stays connected'
