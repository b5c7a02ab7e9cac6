"""refactor.py DIR: apply behaviour-preserving refactorings to the copy of /repo in DIR (a robustness test of the checks)."""
import re, sys
R=sys.argv[1].rstrip('/')+'/src/'
def E(f,*pairs):
    s=open(R+f).read()
    for a,b,*n in pairs:
        c=s.count(a); want=n[0] if n else 1
        assert c==want,(f,c,a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
# proxy_conn.c: helper for locked sends
LOCKSEND='''			mutex_lock(&priv->mutex_client_send);

			ret = conn_send(priv->conn_client, (uint8_t *)msg,
					sizeof(*msg) + msg->size);

			mutex_unlock(&priv->mutex_client_send);
'''
E('proxy_conn.c',(LOCKSEND,'''			ret = send_to_client(priv, buf,
					     sizeof(*msg) + msg->size);
''',3),
('''	mutex_lock(&priv->mutex_client_send);

	ret = conn_send(priv->conn_client, (uint8_t *)&message,
			sizeof(struct proxy_msg));

	mutex_unlock(&priv->mutex_client_send);

	return ret;
''','''	ret = send_to_client(priv, (const uint8_t *)&message, sizeof(message));

	return ret;
'''),
('''	mutex_lock(&priv->mutex_client_send);

	ret = conn_send(priv->conn_client, status_buf,
			sizeof(*status_msg) + status_msg->size);

	mutex_unlock(&priv->mutex_client_send);

	return ret;
''','''	return send_to_client(priv, status_buf, sizeof(status_buf));
'''),
('''static void forwarder_control(struct worker_handle *wh)
{''','''static int send_to_client(struct proxy_conn_priv *priv, const uint8_t *data,
			  size_t len)
{
	int result;

	mutex_lock(&priv->mutex_client_send);
	result = conn_send(priv->conn_client, data, len);
	mutex_unlock(&priv->mutex_client_send);

	return result;
}

static int client_is_gone(int err)
{
	return err == -ECONNRESET || err == -EINTR || err == -ENOTCONN ||
	       err == -EPIPE;
}

static void forwarder_control(struct worker_handle *wh)
{'''),
('''				switch (ret) {
				case -ECONNRESET:
				case -EINTR:
				case -ENOTCONN:
				case -EPIPE:
					break;
				default:
					proxy_conn_drop(pc);
					break;
				}

				return;
''','''				if (!client_is_gone(ret))
					proxy_conn_drop(pc);

				return;
''',3),
('''	mutex_lock_shared(&priv->mutex_client);

	if (priv->conn_client != NULL)
		ret = 1;

	mutex_unlock_shared(&priv->mutex_client);

	return ret;
''','''	mutex_lock_shared(&priv->mutex_client);
	ret = priv->conn_client == NULL ? 0 : 1;
	mutex_unlock_shared(&priv->mutex_client);

	return ret;
'''),
('''	conn_close(&priv->conn_control);
	conn_close(&priv->conn_data);
	conn_close(&priv->conn_tcp);

	worker_wait_idle(&priv->worker_tcp);
	worker_wait_idle(&priv->worker_data);
	worker_wait_idle(&priv->worker_control);
''','''	conn_close(&priv->conn_tcp);
	conn_close(&priv->conn_data);
	conn_close(&priv->conn_control);

	worker_wait_idle(&priv->worker_control);
	worker_wait_idle(&priv->worker_data);
	worker_wait_idle(&priv->worker_tcp);
'''))
# proxy.c
E('proxy.c',('''static void proxy_worker_func(struct worker_handle *wh)
{''','''static void slot_leave_pool(struct proxy_priv *priv,
			    struct proxy_conn_handle *slot)
{
	*slot->prev_ptr = slot->next;
	if (slot->next != NULL)
		slot->next->prev_ptr = slot->prev_ptr;
	else
		priv->idle_clients_tail_ptr = slot->prev_ptr;
	slot->prev_ptr = NULL;
}

static void worker_done(struct proxy_worker *pw)
{
	struct proxy_priv *priv = pw->ph->priv;

	mutex_lock(&pw->mutex);
	conn_free(pw->conn_client);
	free(pw->conn_client);
	pw->conn_client = NULL;
	mutex_unlock(&pw->mutex);

	mutex_lock(&priv->idle_workers_mutex);
	pw->next = priv->idle_workers_head;
	priv->idle_workers_head = pw;
	mutex_unlock(&priv->idle_workers_mutex);
}

static void proxy_worker_func(struct worker_handle *wh)
{'''),
('''	/* Remove the slot from the pool */
	*pc->prev_ptr = pc->next;
	if (pc->next == NULL)
		priv->idle_clients_tail_ptr = pc->prev_ptr;
	else
		pc->next->prev_ptr = pc->prev_ptr;
	pc->prev_ptr = NULL;
''','''	/* Remove the slot from the pool */
	slot_leave_pool(priv, pc);
'''),
('''		mutex_lock(&pw->mutex);
		conn_free(pw->conn_client);
		free(pw->conn_client);
		pw->conn_client = NULL;
		mutex_unlock(&pw->mutex);

		mutex_lock(&priv->idle_workers_mutex);
		pw->next = priv->idle_workers_head;
		priv->idle_workers_head = pw;
		mutex_unlock(&priv->idle_workers_mutex);

		return;
''','''		worker_done(pw);
		return;
'''),
('''proxy_worker_func_exit:
	mutex_lock(&pw->mutex);
	conn_free(pw->conn_client);
	free(pw->conn_client);
	pw->conn_client = NULL;
	mutex_unlock(&pw->mutex);

	mutex_lock(&priv->idle_workers_mutex);
	pw->next = priv->idle_workers_head;
	priv->idle_workers_head = pw;
	mutex_unlock(&priv->idle_workers_mutex);
''','''proxy_worker_func_exit:
	worker_done(pw);
'''),
('''	/* Put the slot back in the pool */
	pc->next = NULL;
	mutex_lock(&priv->idle_clients_mutex);
	pc->prev_ptr = priv->idle_clients_tail_ptr;
	*priv->idle_clients_tail_ptr = pc;
''','''	/* Put the slot back in the pool */
	mutex_lock(&priv->idle_clients_mutex);
	*priv->idle_clients_tail_ptr = pc;
	pc->next = NULL;
	pc->prev_ptr = priv->idle_clients_tail_ptr;
'''),
('''	for (idx += 1, j = 0; j < PROXY_PASS_RES_LEN; idx++, j++) {
		if (response[j] != buff[idx]) {''','''	idx++;
	for (j = 0; j < PROXY_PASS_RES_LEN; j++) {
		if (buff[idx + j] != response[j]) {'''),
('''	while (*password != '\\0') {
		if (*password >= 97 && *password <= 122)
			*iter = *password - 32;
		else
			*iter = *password;

		iter++;
		password++;
	}
''','''	for (; *password != '\\0'; password++) {
		char c = *password;

		if (c >= 'a' && c <= 'z')
			c = c - 'a' + 'A';
		*iter++ = c;
	}
'''),
('''	for (i = 0; i < priv->num_clients; i++) {
		priv->client_workers[i].ph = ph;
		ret = proxy_worker_init(&priv->client_workers[i]);''','''	for (i = 0; i < priv->num_clients; i++) {
		struct proxy_worker *pw = &priv->client_workers[i];

		pw->ph = ph;
		ret = proxy_worker_init(pw);'''),
('''	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
		slots_used--;
''','''	pw = priv->idle_workers_head;
	while (pw != NULL) {
		slots_used--;
		pw = pw->next;
	}
'''))
E('worker.c',('''	if (priv->state > WORKER_STOPPING_AFTER_WORK) {
		if (priv->state == WORKER_IDLE)
			condvar_wake_all(&priv->condvar);
		priv->state = WORKER_SIGNALED;
		ret = 0;
	}
''','''	switch (priv->state) {
	case WORKER_IDLE:
		condvar_wake_all(&priv->condvar);
		/* fall through */
	case WORKER_BUSY:
	case WORKER_SIGNALED:
	case WORKER_STARTING:
		priv->state = WORKER_SIGNALED;
		ret = 0;
		break;
	default:
		break;
	}
'''),('''		while (priv->state == WORKER_SIGNALED ||
		       priv->state == WORKER_STOPPING_AFTER_WORK) {
			if (priv->state == WORKER_STOPPING_AFTER_WORK)
				priv->state = WORKER_STOPPING;
			else
				priv->state = WORKER_BUSY;
''','''		while (priv->state == WORKER_SIGNALED ||
		       priv->state == WORKER_STOPPING_AFTER_WORK) {
			priv->state = priv->state == WORKER_SIGNALED ?
				      WORKER_BUSY : WORKER_STOPPING;
'''))
E('mutex_posix.c',('''	while (priv->readers > 0) {
		ret = pthread_cond_wait(&priv->cond, &priv->lock);
		if (ret != 0) {
			ret = -ret;
			goto mutex_lock_exit;
		}
	}

	return 0;

mutex_lock_exit:
	pthread_mutex_unlock(&priv->lock);

	return ret;
''','''	while (priv->readers > 0) {
		ret = pthread_cond_wait(&priv->cond, &priv->lock);
		if (ret != 0) {
			pthread_mutex_unlock(&priv->lock);
			return -ret;
		}
	}

	return 0;
'''),('''	if (--(priv->readers) <= 0) {''','''	priv->readers--;
	if (priv->readers == 0) {'''))
E('registration.c',('''	if (priv->status < REGISTRATION_STATUS_OFF) {
		priv->status = slots_used >= slots_total ?
			       REGISTRATION_STATUS_BUSY :
			       REGISTRATION_STATUS_READY;
		priv->slots_used = slots_used;
		priv->slots_total = slots_total;
		worker_wake(&priv->worker);
	}
	mutex_unlock(&priv->mutex);
''','''	if (priv->status == REGISTRATION_STATUS_OFF) {
		mutex_unlock(&priv->mutex);
		return;
	}

	priv->slots_total = slots_total;
	priv->slots_used = slots_used;
	if (slots_used < slots_total)
		priv->status = REGISTRATION_STATUS_READY;
	else
		priv->status = REGISTRATION_STATUS_BUSY;
	worker_wake(&priv->worker);
	mutex_unlock(&priv->mutex);
'''),('''	priv->public = conf->password != NULL &&
		       strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
''','''	priv->public = 'N';
	if (conf->password != NULL && strcmp(conf->password, "PUBLIC") == 0)
		priv->public = 'Y';
'''),('''	digest_get((uint8_t *)reg_suffix, ret, digest);

	ret = sprintf(reg_suffix, "&a=%s&d=", public_addr);''','''	digest_get((const uint8_t *)reg_suffix, (unsigned int)ret, digest);

	ret = sprintf(reg_suffix, "&a=%s&d=", public_addr);'''))
E('log.c',('''		switch (log->medium) {
		case LOG_MEDIUM_FILE:
			if (priv->medium_file.fp != NULL) {
				fclose(priv->medium_file.fp);
				priv->medium_file.fp = NULL;
			}

			break;
		case LOG_MEDIUM_SYSLOG:
			closelog();

			break;
		case LOG_MEDIUM_EVENTLOG:
			if (priv->medium_eventlog.handle != NULL) {
				DeregisterEventSource(priv->medium_eventlog.handle);
				priv->medium_eventlog.handle = NULL;
			}

			break;
		default:
			break;
		}
''','''		close_medium(log);
''',2),('''int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
		      const char *target)
{''','''static void close_medium(struct log_handle *log)
{
	struct log_priv *priv = log->priv;

	if (log->medium == LOG_MEDIUM_SYSLOG) {
		closelog();
	} else if (log->medium == LOG_MEDIUM_FILE) {
		if (priv->medium_file.fp != NULL)
			fclose(priv->medium_file.fp);
		priv->medium_file.fp = NULL;
	} else if (log->medium == LOG_MEDIUM_EVENTLOG) {
		if (priv->medium_eventlog.handle != NULL) {
			DeregisterEventSource(priv->medium_eventlog.handle);
			priv->medium_eventlog.handle = NULL;
		}
	}
}

int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
		      const char *target)
{'''))
E('proxy_client.c',('''	ret = conn_send(&priv->conn, (uint8_t *)"\\n", 1);
	if (ret < 0)
		goto proxy_client_connection_exit;
		
	ret = conn_send(&priv->conn, response, PROXY_PASS_RES_LEN);
	if (ret < 0)
		goto proxy_client_connection_exit;
''','''	ret = conn_send(&priv->conn, (const uint8_t *)"\\n", 1);
	if (ret >= 0)
		ret = conn_send(&priv->conn, response, sizeof(response));
	if (ret < 0)
		goto proxy_client_connection_exit;
'''))
E('regex.c',('''	if (ret < 0) {
		if (ret == PCRE2_ERROR_NOMATCH)
			return 0;
		else
			return -EINVAL;
	} else {
		return 1;
	}
''','''	if (ret >= 0)
		return 1;

	return ret == PCRE2_ERROR_NOMATCH ? 0 : -EINVAL;
'''))
# conf.c: helper for the strings
s=open(R+'conf.c').read()
pat=re.compile(r'''\t\t\tif \(conf->(\w+) != NULL\)
\t\t\t\tfree\(conf->\1\);

\t\t\tif \(val_len == 0\) \{
\t\t\t\tconf->\1 = NULL;
\t\t\t\tbreak;
\t\t\t\}

\t\t\tconf->\1 = malloc\(val_len \+ 1\);
\t\t\tif \(conf->\1 == NULL\)
\t\t\t\treturn -ENOMEM;

\t\t\tmemcpy\(conf->\1, val, val_len\);
\t\t\tconf->\1\[val_len\] = '\\0';
''')
s,n=pat.subn(lambda m:"\t\t\treturn set_text(&conf->%s, val, val_len);\n"%m[1],s)
assert n>=7,n
i=s.index('static int conf_parse_pair(const char *key, size_t key_len,\n\t\t\t   const char *val, size_t val_len,\n\t\t\t   struct proxy_conf *conf, struct log_handle *log)\n{')
s=s[:i]+'''static int set_text(char **text, const char *val, size_t val_len)
{
	free(*text);
	*text = NULL;

	if (val_len > 0) {
		*text = malloc(val_len + 1);
		if (*text == NULL)
			return -ENOMEM;

		memcpy(*text, val, val_len);
		(*text)[val_len] = '\\0';
	}

	return 0;
}

'''+s[i:]
open(R+'conf.c','w').write(s)
E('conf.c',('''	while (*val == ' ' || *val == '\\t')
		val++;

	while (val[val_len] != '\\0')
		val_len++;
''','''	for (; *val == ' ' || *val == '\\t'; val++)
		;

	val_len = strlen(val);
'''),)
E('proxyd.c',('''static void parse_args(int argc, const char * const argv[],
		       struct proxy_opts *opts)
{
	int i;''','''static void usage_error(const char *what, const char *arg)
{
	fprintf(stderr, "ERROR: %s%s\\n", what, arg);
	exit(-EINVAL);
}

static void parse_args(int argc, const char * const argv[],
		       struct proxy_opts *opts)
{
	int i;'''),('''				fprintf(stderr,
					"ERROR: Config path already specified\\n");
				exit(-EINVAL);
''','''				usage_error("Config path already specified", "");
'''),('''		fprintf(stderr, "ERROR: Invalid option '%s'\\n", argv[i]);
		exit(-EINVAL);
''','''		usage_error("Invalid option ", argv[i]);
'''))
