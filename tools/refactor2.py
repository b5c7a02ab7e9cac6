"""refactor2.py DIR: a second set of behaviour-preserving refactorings (loops rewritten, functions merged) for the copy of /repo in DIR."""
import re, sys
R=sys.argv[1].rstrip('/')+'/src/'
def E(f,*pairs):
    s=open(R+f).read()
    for a,b,*n in pairs:
        c=s.count(a); want=n[0] if n else 1
        assert c==want,(f,c,a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
def fbody(s,name):
    m=re.search(r'^[^\n;{}]*\b%s\([^;{}]*\)\n\{'%name,s,re.M)
    assert m,name
    e=s.index('\n}\n',m.end())+3
    return m.start(),e
# conn.c
E('conn.c',('''		while (buff_len > 0) {
			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
				   MSG_NOSIGNAL);
''','''		size_t done;

		for (done = 0; done < buff_len; done += (size_t)ret) {
			ret = send(priv->fd, (const char *)buff + done,
				   (socklen_t)(buff_len - done), MSG_NOSIGNAL);
'''),('''				goto conn_send_exit;
			}

			buff_len -= ret;
			buff += ret;
		}
''','''				goto conn_send_exit;
			}
		}
'''),
('''	while (buff_len > 0) {
		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
			       NULL, NULL);
''','''	while ((size_t)bytes_read < buff_len) {
		ret = recvfrom(priv->fd, (char *)&buff[bytes_read],
			       (socklen_t)(buff_len - bytes_read), 0, NULL, NULL);
'''),('''		buff_len -= ret;
		buff += ret;
		ret = bytes_read += ret;
	}
''','''		bytes_read += ret;
		ret = bytes_read;
	}
'''),
('''	if (setsockopt(apriv->conn_fd, SOL_SOCKET, SO_KEEPALIVE, &yes,
		       sizeof(yes)) == SOCKET_ERROR)
		goto conn_accept_close;

	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPIDLE, &ten_min,
		       sizeof(ten_min)) == SOCKET_ERROR)
		goto conn_accept_close;

	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPINTVL, &twelve_sec,
		       sizeof(twelve_sec)) == SOCKET_ERROR)
		goto conn_accept_close;

	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, &ten,
		       sizeof(ten)) == SOCKET_ERROR)
		goto conn_accept_close;
''','''	if (set_int_option(apriv->conn_fd, SOL_SOCKET, SO_KEEPALIVE, yes) ||
	    set_int_option(apriv->conn_fd, SOL_TCP, TCP_KEEPIDLE, ten_min) ||
	    set_int_option(apriv->conn_fd, SOL_TCP, TCP_KEEPINTVL, twelve_sec) ||
	    set_int_option(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, ten))
		goto conn_accept_close;
'''),
('''int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
{''','''#ifndef _WIN32
static int set_int_option(SOCKET fd, int level, int option, int value)
{
	return setsockopt(fd, level, option, &value, sizeof(value)) ==
	       SOCKET_ERROR;
}
#endif

int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
{'''),
('''	uint16_t port_tmp = port;
	uint8_t n = 0;

	do {
		n++;
		port_tmp /= 10;
	} while (port_tmp != 0);

	port_tmp = port;

	switch (n) {
	case 5:
		*result = (char)(48 + port_tmp / 10000);
		port_tmp %= 10000;
		result++;
		/* fall through */
	case 4:
		*result = (char)(48 + port_tmp / 1000);
		port_tmp %= 1000;
		result++;
		/* fall through */
	case 3:
		*result = (char)(48 + port_tmp / 100);
		port_tmp %= 100;
		result++;
		/* fall through */
	case 2:
		*result = (char)(48 + port_tmp / 10);
		port_tmp %= 10;
		result++;
		/* fall through */
	case 1:
		*result = (char)(48 + port_tmp);
		result++;
	}

	*result = '\\0';
''','''	uint16_t div = 10000;

	while (div > 1 && port < div)
		div /= 10;

	for (; div > 0; div /= 10) {
		*result++ = (char)('0' + port / div);
		port %= div;
	}

	*result = '\\0';
'''),
('''	if (priv->conn_fd == INVALID_SOCKET && priv->fd == INVALID_SOCKET) {
		/* Nothing to do here */
		mutex_unlock_shared(&priv->mutex);

		return;
	}

	if (priv->conn_fd != INVALID_SOCKET)
		shutdown(priv->conn_fd, SHUT_RDWR);

	mutex_unlock_shared(&priv->mutex);
''','''	const int unused = priv->conn_fd == INVALID_SOCKET &&
			   priv->fd == INVALID_SOCKET;

	if (priv->conn_fd != INVALID_SOCKET)
		shutdown(priv->conn_fd, SHUT_RDWR);

	mutex_unlock_shared(&priv->mutex);

	if (unused)
		return;
'''))
# digest.c
E('digest.c',('''	char base = '0';

	if (data > '9') {
		if (data > 'F') {
			if (data > 'f')
				return 0;
			base = 'a' - 10;
		} else {
			base = 'A' - 10;
		}
	}

	if (data < base)
		return 0;

	return data - base;
''','''	if (data < '0' || data > 'f')
		return 0;
	if (data <= '9')
		return (uint8_t)(data - '0');
	if (data <= 'F')
		return data < 'A' - 10 ? 0 : (uint8_t)(data - 'A' + 10);

	return data < 'a' - 10 ? 0 : (uint8_t)(data - 'a' + 10);
'''),('''	for (i = 0; i < DIGEST_LEN; i++, result += 2)
		digest_to_hex8_u(md5[i], result);

	*result = '\\0';
''','''	for (i = 0; i < DIGEST_LEN; i++)
		digest_to_hex8_u(md5[i], &result[2 * i]);

	result[2 * DIGEST_LEN] = '\\0';
'''),('''	digest_to_hex8(data >> 0x18 & 0xff, &result[0]);
	digest_to_hex8(data >> 0x10 & 0xff, &result[2]);
	digest_to_hex8(data >> 0x8 & 0xff, &result[4]);
	digest_to_hex8(data & 0xff, &result[6]);
''','''	int i;

	for (i = 3; i >= 0; i--) {
		digest_to_hex8((uint8_t)data, &result[2 * i]);
		data >>= 8;
	}
'''))
# proxy_conn.c: one forwarder for both UDP ports, one handler for both UDP messages
s=open(R+'proxy_conn.c').read()
a,b=fbody(s,'forwarder_control'); body=s[a:b]
g=body.replace('static void forwarder_control(struct worker_handle *wh)\n{','static void forward_udp(struct worker_handle *wh, struct conn_handle *from,\n\t\t\tuint8_t type, const char *name)\n{')
g=g.replace('&priv->conn_control','from').replace('PROXY_MSG_TYPE_UDP_CONTROL','type').replace('(void)0','')
g=g.replace('  "UDP Control forwarding thread is starting for client \'%s\'\\n",\n\t\t  priv->callsign','  "UDP %s forwarding thread is starting for client \'%s\'\\n",\n\t\t  name, priv->callsign')
g=g.replace('Client \'%s\' UDP Control','Client \'%s\' UDP').replace("client '%s' UDP Control","client '%s' UDP")
g+='''
static void forwarder_control(struct worker_handle *wh)
{
	struct proxy_conn_handle *pc = wh->func_ctx;
	struct proxy_conn_priv *priv = pc->priv;

	forward_udp(wh, &priv->conn_control, PROXY_MSG_TYPE_UDP_CONTROL,
		    "Control");
}
'''
s=s[:a]+g+s[b:]
a,b=fbody(s,'forwarder_data')
s=s[:a]+'''static void forwarder_data(struct worker_handle *wh)
{
	struct proxy_conn_handle *pc = wh->func_ctx;
	struct proxy_conn_priv *priv = pc->priv;

	forward_udp(wh, &priv->conn_data, PROXY_MSG_TYPE_UDP_DATA, "Data");
}
'''+s[b:]
a,b=fbody(s,'process_control_data_message')
s=s[:a]+'''static int relay_udp(struct proxy_conn_handle *pc, struct conn_handle *to,
		     uint8_t *data, size_t left, uint32_t addr, uint16_t port)
{
	struct proxy_conn_priv *priv = pc->priv;
	int len;
	int ret;

	for (; left > 0; left -= (size_t)len) {
		len = conn_recv(priv->conn_client, data,
				left < CONN_BUFF_LEN ? left : CONN_BUFF_LEN);
		if (len <= 0)
			return len < 0 ? len : -EPIPE;

		ret = conn_send_to(to, data, (size_t)len, addr, port);
		if (ret < 0)
			proxy_log(pc->ph, LOG_LEVEL_WARN,
				  "Failed to send an UDP packet of size %d to client '%s': %d (%s)\\n",
				  len, priv->callsign, -ret, strerror(-ret));
	}

	return 0;
}

static int process_control_data_message(struct proxy_conn_handle *pc,
					struct proxy_msg *msg)
{
	struct proxy_conn_priv *priv = pc->priv;

	return relay_udp(pc, &priv->conn_control, (void *)msg, msg->size,
			 msg->address, 5199);
}
'''+s[b:]
a,b=fbody(s,'process_data_message')
s=s[:a]+'''static int process_data_message(struct proxy_conn_handle *pc,
				struct proxy_msg *msg)
{
	struct proxy_conn_priv *priv = pc->priv;

	return relay_udp(pc, &priv->conn_data, (void *)msg, msg->size,
			 msg->address, 5198);
}
'''+s[b:]
open(R+'proxy_conn.c','w').write(s)
# proxy.c
s=open(R+'proxy.c').read()
a,b=fbody(s,'proxy_open'); body=s[a:b]
i=body.index('	if (ph->conf.calls_allowed != NULL) {'); j=body.index('	memset(priv->clients_by_call')
body=body[:i]+'''	ret = prepare_calls(ph, &priv->re_calls_allowed,
			    ph->conf.calls_allowed);
	if (ret < 0)
		goto proxy_open_exit;

	ret = prepare_calls(ph, &priv->re_calls_denied, ph->conf.calls_denied);
	if (ret < 0)
		goto proxy_open_exit;

'''+body[j:]
body=body.replace('''	if (priv->re_calls_allowed != NULL) {
		regex_free(priv->re_calls_allowed);
		free(priv->re_calls_allowed);
		priv->re_calls_allowed = NULL;
	}

	if (priv->re_calls_denied != NULL) {
		regex_free(priv->re_calls_denied);
		free(priv->re_calls_denied);
		priv->re_calls_denied = NULL;
	}
''','''	forget_calls(&priv->re_calls_allowed);
	forget_calls(&priv->re_calls_denied);
''')
s=s[:a]+'''static void forget_calls(struct regex_handle **re)
{
	if (*re == NULL)
		return;

	regex_free(*re);
	free(*re);
	*re = NULL;
}

static int prepare_calls(struct proxy_handle *ph, struct regex_handle **re,
			 const char *pattern)
{
	int ret;

	if (pattern == NULL) {
		forget_calls(re);
		return 0;
	}

	if (*re == NULL) {
		*re = calloc(1, sizeof(**re));
		if (*re == NULL)
			return -ENOMEM;

		ret = regex_init(*re);
		if (ret < 0) {
			proxy_log(ph, LOG_LEVEL_FATAL,
				  "Failed to initialize callsigns regex (%d): %s\\n",
				  -ret, strerror(-ret));
			return ret;
		}
	}

	ret = regex_compile(*re, pattern);
	if (ret < 0)
		proxy_log(ph, LOG_LEVEL_FATAL,
			  "Failed to compile callsigns regex (%d): %s\\n",
			  -ret, strerror(-ret));

	return ret < 0 ? ret : 0;
}

'''+body+s[b:]
open(R+'proxy.c','w').write(s)
E('proxy.c',('''	idx = 0;
	while (idx < 11 && buff[idx] != '\\n')
		idx++;

	if (idx >= 11)
		return -EINVAL;
''','''	for (idx = 0; buff[idx] != '\\n'; idx++) {
		if (idx == 10)
			return -EINVAL;
	}
'''),('''	for (idx += 1, j = 0; j < PROXY_PASS_RES_LEN; idx++, j++) {
		if (response[j] != buff[idx]) {
			proxy_log(pw->ph, LOG_LEVEL_INFO,
				  "Client '%s' supplied an incorrect password. Dropping...\\n",
				  pw->callsign);

			ret = conn_send(pw->conn_client, msg_bad_pw, sizeof(msg_bad_pw));

			return ret < 0 ? ret : -EACCES;
		}
	}
''','''	if (memcmp(response, &buff[idx + 1], PROXY_PASS_RES_LEN) != 0) {
		proxy_log(pw->ph, LOG_LEVEL_INFO,
			  "Client '%s' supplied an incorrect password. Dropping...\\n",
			  pw->callsign);

		ret = conn_send(pw->conn_client, msg_bad_pw, sizeof(msg_bad_pw));

		return ret < 0 ? ret : -EACCES;
	}
'''),('''	size_t idx, j;
''','''	size_t idx;
'''),('''	pc = priv->clients_by_call[hash];
	/* First, check for a reconnect */
	while (pc != NULL) {
		/* A slot is only available once it is back in the pool */
		if (pc->prev_ptr != NULL) {
			ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
			if (ret != -EBUSY)
				break;
		}
		pc = pc->next_by_call;
	}
''','''	/* First, check for a reconnect */
	for (pc = priv->clients_by_call[hash]; pc != NULL;
	     pc = pc->next_by_call) {
		/* A slot is only available once it is back in the pool */
		if (pc->prev_ptr == NULL)
			continue;

		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
		if (ret != -EBUSY)
			break;
	}
'''),('''	do {
		ret = proxy_conn_process(pc);
	} while (ret >= 0);
''','''	while (proxy_conn_process(pc) >= 0)
		;
'''))
# worker.c
E('worker.c',('''	while (priv->state > WORKER_STOPPING) {
		while (priv->state == WORKER_SIGNALED ||
		       priv->state == WORKER_STOPPING_AFTER_WORK) {
			if (priv->state == WORKER_STOPPING_AFTER_WORK)
				priv->state = WORKER_STOPPING;
			else
				priv->state = WORKER_BUSY;
			mutex_unlock(&priv->mutex);
			wh->func_ptr(wh);
			mutex_lock(&priv->mutex);
		}

		if (priv->state <= WORKER_STOPPING)
			break;
''','''	while (priv->state > WORKER_STOPPING) {
		if (priv->state == WORKER_SIGNALED ||
		    priv->state == WORKER_STOPPING_AFTER_WORK) {
			if (priv->state == WORKER_STOPPING_AFTER_WORK)
				priv->state = WORKER_STOPPING;
			else
				priv->state = WORKER_BUSY;
			mutex_unlock(&priv->mutex);
			wh->func_ptr(wh);
			mutex_lock(&priv->mutex);
			continue;
		}
'''),('''	while (priv->state < WORKER_IDLE) {
		if (priv->state < WORKER_BUSY) {
			ret = -EINVAL;
			break;
		}

		condvar_wait(&priv->condvar_idle, &priv->mutex);
	}
''','''	while (priv->state < WORKER_IDLE && priv->state >= WORKER_BUSY)
		condvar_wait(&priv->condvar_idle, &priv->mutex);

	if (priv->state < WORKER_IDLE)
		ret = -EINVAL;
'''))
# conf.c
E('conf.c',('''	while ((temp = fgetc(stream)) != EOF) {
		/* Need more space? */
''','''	for (;;) {
		temp = fgetc(stream);
		if (temp == EOF)
			break;

		/* Need more space? */
'''),('''	/* Find the '=' */
	while (key[key_len] != '=') {
		/* If the line doesn't have '=', ignore it */
		if (key[key_len] == '\\0')
			return 0;
		key_len++;
	}

	val = &key[key_len + 1];
''','''	/* Find the '=' */
	val = strchr(key, '=');
	if (val == NULL)
		return 0;

	key_len = (size_t)(val - key);
	val++;
'''),('''	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
		ret = conf_parse_line(line, conf, log);

		free(line);
		line = NULL;

		if (ret < 0)
			return ret;
	}

	free(line);

	return ret;
''','''	do {
		ret = conf_readline(&line, &line_len, stream);
		if (ret <= 0)
			break;

		ret = conf_parse_line(line, conf, log);

		free(line);
		line = NULL;
	} while (ret >= 0);

	free(line);

	return ret;
'''))
# registration.c
E('registration.c',('''	ret = conn_connect(&conn, http_host, "80");
	if (ret < 0)
		goto registration_update_exit;

	ret = conn_send(&conn, (uint8_t *)message_header, header_length);
	if (ret < 0)
		goto registration_update_exit;

	ret = conn_send(&conn, (uint8_t *)message_body, body_length);
	if (ret < 0)
		goto registration_update_exit;

	ret = conn_recv(&conn, (uint8_t *)message_body, 13);
	if (ret < 0)
		goto registration_update_exit;

	if (strncmp(message_body, "HTTP/1.1 200 ", 13) != 0)
		ret = -EINVAL;
''','''	ret = conn_connect(&conn, http_host, "80");
	if (ret >= 0)
		ret = conn_send(&conn, (uint8_t *)message_header,
				(size_t)header_length);
	if (ret >= 0)
		ret = conn_send(&conn, (uint8_t *)message_body,
				(size_t)body_length);
	if (ret >= 0)
		ret = conn_recv(&conn, (uint8_t *)message_body, 13);
	if (ret >= 0 && strncmp(message_body, "HTTP/1.1 200 ", 13) != 0)
		ret = -EINVAL;
'''))
# mutex_posix.c, md5.c
E('md5.c',('''	if (used) {
		available = 64 - used;

		if (size < available) {
			memcpy(&ctx->buffer[used], data, size);
			return;
		}
''','''	available = 64 - used;

	if (used != 0 && size < available) {
		memcpy(&ctx->buffer[used], data, size);
		return;
	}

	if (used != 0) {
'''))
