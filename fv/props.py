"""Which obligations decide which property."""
import json
import os
from engine import Ob

LOOPS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "loops.json")))

TRUSTED_COMMON = [
    "CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc) and the SAT/SMT back end named per group (minisat2, kissat, cvc5, z3)",
    "clang 18 AST for locating loops (text extraction inserts macro names only)",
    "fv/tu/*.h and fv/tu/u_*.c: contracts and the models of external functions (libc, pthread, sockets) they contain",
]
ASSUME_COMMON = [
    "sequentially consistent interleaving at lock granularity: state guarded by a lock is read and written only while it is held (data races are not searched)",
    "x86-64 gcc/clang LP64 little-endian data model; Linux branch of the preprocessor conditionals",
    "errno is modelled as one plain variable",
]

SOCK_WRAP = "socket setsockopt bind listen connect accept close shutdown send sendto recvfrom getaddrinfo freeaddrinfo".split()
NAT_CONN = dict(src="nat_conn.c", repo=["conn.c", "mutex_posix.c"], wrap=SOCK_WRAP, quick_count=6000)


def conn(n, **k):
    k.setdefault("solver", "kissat")
    k.setdefault("canaries", 1)
    return Ob("conn_" + n, "u_conn.c", "h_conn_" + n, enforce="conn_" + n, **k)


PROPS = {}
PROPS["T01"] = dict(
    sources=["conn.c"], native=[NAT_CONN],
    obs=[conn("send", loops=True, canaries=2), conn("recv", loops=True, canaries=2), conn("recv_any", loops=True, canaries=2)],
    trusted=["send/recvfrom: return -1 with any errno, 0, or any count up to the requested one"],
    assumptions=["one transfer is at most 0x7fff0000 bytes (the callers in the repository pass at most 4096)"])
PROPS["T02"] = dict(
    sources=["conn.c"], native=[NAT_CONN],
    obs=[conn("send_to", loops=True, canaries=2), conn("recv_any", loops=True, canaries=2)],
    trusted=["sendto on a datagram socket sends the whole datagram or fails"],
    assumptions=[])
PROPS["T03"] = dict(
    sources=["conn.c"], native=[NAT_CONN],
    obs=[conn("init", canaries=2), conn("free"), conn("listen", canaries=2), conn("connect", canaries=2), conn("accept", canaries=2),
         conn("drop", canaries=2), conn("close", canaries=2), conn("shutdown"), conn("in_use"),
         conn("set_timeout", solver="cvc5")],
    assumptions=["a connection is opened (conn_listen, conn_connect, conn_accept target) by one thread while it is closed"])
PROPS["T04"] = dict(
    sources=["conn.c"], native=[NAT_CONN],
    obs=[conn("port_to_str", unwind=8, canaries=2), conn("get_remote_addr", replace=["conn_port_to_str"], canaries=2)],
    trusted=["inet_ntop writes a NUL-terminated text of at most 15 (IPv4) or 45 (IPv6) characters"])

# ------------------------------------------------------------------ digests
def md5(n, fn=None, **k):
    k.setdefault("solver", "kissat")
    return Ob("md5_" + n, "u_md5.c", "h_" + (fn or "md5_" + n), enforce=fn if fn else ("body" if n == "body" else None), **k)


def nat_digest(part):
    return dict(src="nat_digest.c", repo=["md5.c", "digest.c"], quick_count=4000, libs=["-lm"],
                cflags=["-fno-sanitize=alignment", "-DNAT_PART=%d" % part])


def digest(n, **k):
    return Ob(n, "u_md5.c", "h_" + n, enforce=None if "inverse" in n else n, defs=["-DFV_DIGEST"], **k)


PROPS["D01"] = dict(
    sources=["md5.c", "digest.c"], native=[nat_digest(1)],
    obs=[md5("functions", unwind=2), md5("body", loops=True, functions=["body"], solver="z3", timeout=100), md5("init", "MD5_Init"),
         md5("update", "MD5_Update", replace=["body"], canaries=2), md5("final", "MD5_Final", replace=["body"], canaries=2),
         digest("digest_get", replace=["MD5_Update", "MD5_Final"])],
    trusted=["the composition of the contracts into RFC 1321: blocks 0..n-1 of the padded stream are transformed in order (each obligation states one step)"],
    assumptions=["one update is shorter than 2^40 bytes and one message shorter than 2^60 bytes"])
PROPS["D02"] = dict(
    sources=["md5.c", "digest.c"], native=[nat_digest(2)],
    obs=[digest("digest_to_hex32"), digest("hex32_to_digest"), digest("hex32_inverse"), digest("digest_to_str", unwind=18)],
    trusted=["ntohl is the byte swap (CBMC's library model)"])


# --------------------------------------------------- proxy: who is admitted
def proxy(n, fn=None, **k):
    k.setdefault("solver", "kissat")
    return Ob("proxy_" + n, "u_proxy.c", "h_" + n, enforce=n if fn is None else fn, **k)


ALL_SRC = "conn.c mutex_posix.c thread_posix.c worker.c proxy_conn.c proxy.c registration.c conf.c log.c regex.c rand.c pearson.c digest.c md5.c".split()
ALL_LIBS = ["-lm", "-lpcre2-8"]
SIM_WRAP = ("pthread_create pthread_join pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock "
            "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast "
            "clock_gettime malloc calloc realloc free pcre2_match_8 pcre2_match_data_create_from_pattern_8").split() + SOCK_WRAP
SESS_BITS = dict(A01=1, A02=2, A03=4, R01=8, R02=16, R03=32, R04=64, S01=128, S02=256, P01=512)


def nat_sess(pid, count=1500):
    return dict(src="nat_sess.c", repo=ALL_SRC, wrap=SIM_WRAP, libs=ALL_LIBS, quick_count=count,
                cflags=["-fno-sanitize=alignment", "-DNAT_SEL=%d" % SESS_BITS[pid]])


def nat_sim(src, repo, count=4000, defs=(), libs=(), pcre=True):
    return dict(src=src, repo=repo, wrap=[w for w in SIM_WRAP if pcre or not w.startswith("pcre")], libs=list(libs), quick_count=count, cflags=["-fno-sanitize=alignment"] + list(defs))


PROPS["D03"] = dict(
    sources=["proxy.c"],
    native=[dict(src="nat_pass.c", repo=ALL_SRC, wrap=["malloc", "free"], libs=ALL_LIBS, quick_count=4000, cflags=["-fno-sanitize=alignment"])],
    obs=[proxy("get_password_response", loops=True, canaries=2, unwind=17)],
    trusted=["strlen returns the index of the first NUL", "digest_to_hex32 and digest_get have the contracts proved for D02 and D01"],
    assumptions=["a password is shorter than 2^32-16 bytes"])


# ------------------------------------------------------------------- relay
def relay(t, n, **k):
    return Ob("process_" + n, "u_pconn.c", "h_proxy_conn_process", enforce="proxy_conn_process", defs=["-DFV_RELAY=%d" % t], loops=True, canaries=2,
              functions=["proxy_conn_process", "process_message", "process_%s_message" % n], solver=k.pop("solver", "minisat"), unwind=20, **k)


def opn(t, n, c, f):
    return Ob("process_" + n, "u_pconn.c", "h_proxy_conn_process", enforce="proxy_conn_process", defs=["-DFV_OPEN=%d" % t], canaries=c, unwind=20,
              functions=["proxy_conn_process", "process_message"] + f, solver="kissat")


OPEN = [opn(1, "tcp_open", 2, ["process_tcp_open_message"]), opn(3, "tcp_close", 1, ["process_tcp_close_message"]), opn(0, "invalid_type", 1, [])]


def fwd(i, n):
    return Ob("forwarder_" + n, "u_pconn.c", "h_forwarder_" + n, enforce="forwarder_" + n, defs=["-DFV_FWD=%d" % i], loops=True, canaries=3, solver="kissat")


FWD = [fwd(0, "control"), fwd(1, "data"), fwd(2, "tcp")]
RELAY = [relay(6, "control_data"), relay(5, "data"), relay(2, "tcp_data")]
PROPS["R01"] = dict(sources=["proxy_conn.c"], native=[nat_sess("R01")], obs=RELAY)
PROPS["R02"] = dict(sources=["proxy_conn.c"], native=[nat_sess("R02")], obs=FWD)
PROPS["R03"] = dict(sources=["proxy_conn.c"], native=[nat_sess("R03")], obs=OPEN + [RELAY[2], FWD[2]])
PROPS["R04"] = dict(sources=["proxy_conn.c"], native=[nat_sess("R04")], obs=RELAY + OPEN + FWD)


def life(n, replace=(), **k):
    k.setdefault("solver", "minisat")
    return Ob("proxy_conn_" + n, "u_pconn.c", "h_proxy_conn_" + n, enforce="proxy_conn_" + n, defs=["-DFV_LIFE"], replace=["proxy_conn_" + x for x in replace],
              functions=["proxy_conn_" + n], unwind=13, **k)


SLOT = [life("drop", canaries=2), life("finish", ["drop"]), life("in_use", canaries=2), life("accept", ["finish"], canaries=3)]
SLOT_RUN = [life("start", ["stop"], canaries=2), life("stop", ["finish"], canaries=2)]
SLOT_LIFE = [life("init", canaries=2), life("free", ["stop"], canaries=2)]

# --------------------------------------------------------------- admission
AUTH = Ob("proxy_worker_authorize", "u_proxy.c", "h_proxy_worker_authorize", enforce="proxy_worker_authorize", defs=["-DFV_AUTH"], solver="kissat",
          replace=["get_nonce", "get_password_response", "proxy_authorize_callsign", "proxy_log"], unwind=29, canaries=4, object_bits=10)
NONCE = Ob("get_nonce", "u_proxy.c", "h_get_nonce", enforce="get_nonce", defs=["-DFV_POLICY"])
POLICY = Ob("proxy_authorize_callsign", "u_proxy.c", "h_proxy_authorize_callsign", enforce="proxy_authorize_callsign", defs=["-DFV_POLICY"], replace=["proxy_log"], canaries=2)


def regex(n, c, **k):
    return Ob("regex_" + n, "u_regex.c", "h_regex_" + n, enforce="regex_" + n, canaries=c, unwind=14, **k)


REGEX = [regex("compile", 2), regex("is_match", 3)]
REGEX_LIFE = [regex("init", 2), regex("free", 1)]
PROPS["A01"] = dict(sources=["proxy.c"], native=[nat_sess("A01")], obs=[AUTH, NONCE, POLICY] + PROPS["D03"]["obs"])
PROPS["A02"] = dict(sources=["proxy.c"], native=[nat_sess("A02")], obs=[AUTH])
PROPS["A03"] = dict(sources=["proxy.c", "regex.c"], native=[nat_sess("A03")], obs=[POLICY, AUTH] + REGEX + REGEX_LIFE)

# ------------------------------------------------ slots, workers, connections
ACCEPT = Ob("proxy_process", "u_pool.c", "h_proxy_process", enforce="proxy_process", defs=["-DFV_ACCEPT"], replace=["proxy_log"], canaries=4, unwind=4,
            functions=["proxy_process", "proxy_worker_accept"])
SESSION = Ob("proxy_worker_func", "u_pool.c", "h_proxy_worker_func", enforce="proxy_worker_func", defs=["-DFV_SESSION"], loops=True, object_bits=10,
             replace=["proxy_log", "proxy_worker_authorize", "proxy_update_registration"], canaries=5, unwind=25, solver="minisat")
PROPS["S01"] = dict(sources=["proxy.c", "proxy_conn.c"], native=[nat_sess("S01")], obs=[SESSION] + SLOT)
PROPS["S02"] = dict(sources=["proxy.c", "proxy_conn.c"], native=[nat_sess("S02")], obs=[ACCEPT, SESSION] + SLOT)


# -------------------------------------------------- locks, threads, workers
def mutex(n, c=2, loops=False, **k):
    return Ob(n, "u_mutex.c", "h_" + n, enforce=n, canaries=c, loops=loops, unwind=None if loops else 2, **k)


LOCKS = [mutex("mutex_lock", loops=True), mutex("mutex_unlock"), mutex("mutex_lock_shared"), mutex("mutex_unlock_shared", 3),
         mutex("condvar_wait", loops=True), mutex("condvar_wait_time", 3, loops=True, solver="z3", timeout=60), mutex("condvar_wake_one", 1), mutex("condvar_wake_all", 1)]
LOCK_LIFE = [mutex("mutex_init", defs=["-DFV_INIT"]), mutex("mutex_free", 1, defs=["-DFV_INIT"]), mutex("condvar_init", defs=["-DFV_INIT"]), mutex("condvar_free", 1, defs=["-DFV_INIT"])]
PROPS["W02"] = dict(sources=["mutex_posix.c"], native=[nat_sim("nat_mutex.c", ["mutex_posix.c"])], obs=LOCKS)


def worker(n, c=2, loops=False, **k):
    return Ob(n, "u_worker.c", "h_" + n, enforce=n, canaries=c, loops=loops, unwind=None if loops else 2, defs=["-DFV_THREAD"] if n.startswith("thread") else [], **k)


WORKER = [worker("worker_func", loops=True), worker("worker_wake"), worker("worker_join"), worker("worker_start", 3), worker("worker_wait_idle", loops=True), worker("worker_is_idle")]
THREAD = [worker("thread_join"), worker("thread_start")]
WORKER_LIFE = [worker("worker_init"), worker("worker_free", 1), worker("thread_init"), worker("thread_free", 1)]
PROPS["W01"] = dict(sources=["worker.c", "thread_posix.c"], native=[nat_sim("nat_worker.c", ["worker.c", "thread_posix.c", "mutex_posix.c"])], obs=WORKER + THREAD)


# ------------------------------------------------------------ registration
def nat_reg(sel):
    return nat_sim("nat_reg.c", "registration.c conn.c mutex_posix.c thread_posix.c worker.c digest.c md5.c".split(), defs=["-DNAT_SEL=%d" % sel], libs=["-lm"], pcre=False)


NAT_COUNT = dict(nat_sim("nat_count.c", ALL_SRC, libs=ALL_LIBS, count=1500), wrap=SIM_WRAP + ["registration_service_update"])


def reg(n, c, defs=(), name=None, **k):
    return Ob(name or n, "u_reg.c", "h_" + n, enforce=None if n == "header" else n, canaries=c, defs=list(defs), **k)


FS = ["--max-field-sensitivity-array-size", "128"]
REG_TEXT = [reg("send_report", 1 if st == 0 else 3, ["-DFV_TEXT", "-DFV_STATUS=%d" % st, "-DFV_ONE=%d" % one], name="send_report_%d%s" % (st, "_one" if one else ""), unwind=72, cbmc=FS)
            for st in range(4) for one in (0, 1)]
REG_TEXT += [reg("send_report", 1, ["-DFV_TEXT", "-DFV_STATUS=1", "-DFV_ONE=0", "-DFV_NOMEM"], name="send_report_nomem", unwind=72, cbmc=FS)]
REG_TEXT += [reg("header", 1, ["-DFV_TEXT"], name="registration_header", unwind=400)]
REG_TEXT += [reg("registration_service_start", 1, ["-DFV_TEXT", "-DFV_ADDR=%d" % ad, "-DFV_NAME=%d" % nm] + df, name="registration_service_start" + sx, unwind=72, cbmc=FS)
             for ad, nm, df, sx in ((0, 1, [], ""), (1, 1, [], "_addr"), (0, 0, [], "_noname"), (1, 1, ["-DFV_NOMEM"], "_nomem"))]
REG_STATE = [reg("registration_func", 2, replace=["send_report"]), reg("registration_service_update", 3), reg("registration_service_stop", 1)]
REG_LIFE = [reg("registration_service_init", 2, ["-DFV_LIFE"]), reg("registration_service_free", 1, ["-DFV_LIFE"])]
REG_COUNT = [Ob("proxy_update_registration", "u_pool.c", "h_proxy_update_registration", enforce="proxy_update_registration", defs=["-DFV_UPDATE"], loops=True,
                replace=["proxy_log"], canaries=3, unwind=12),
             Ob("proxy_worker_func_updates", "u_pool.c", "h_proxy_worker_func", enforce="proxy_worker_func", defs=["-DFV_SESSION", "-DFV_G02"], loops=True, object_bits=10,
                replace=["proxy_log", "proxy_worker_authorize", "proxy_update_registration"], canaries=5, unwind=25, solver="minisat")]
PROPS["G01"] = dict(sources=["registration.c"], native=[nat_reg(1)], obs=REG_TEXT)
PROPS["G02"] = dict(sources=["registration.c", "proxy.c"], native=[nat_reg(2), NAT_COUNT], obs=REG_STATE + REG_COUNT)


# ----------------------------------------------------------- configuration
def conf(n, c=1, mode="", name=None, **k):
    return Ob(name or n, "u_conf.c", "h_" + n, enforce=n, canaries=c, defs=["-DFV_" + mode] + list(k.pop("defs", [])), **k)


CONF_LINE = [conf("conf_parse_line", 3, "LINE", loops=True, replace=["conf_parse_pair"])]
CONF_LINE += [conf("conf_parse_number", 3, "NUM", loops=True)]
CONF_PAIR = [conf("conf_parse_pair", 1 if kl in (0, 31) else 3, "PAIR=%d" % kl, name="conf_parse_pair_%d" % kl, replace=["conf_parse_number"], unwind=40) for kl in (0, 4, 8, 11, 13, 15, 16, 17, 19, 31)]
CONF_PAIR += [conf("conf_parse_pair", 4, "LIST", name="conf_parse_pair_list", loops=True, unwind=33)]
CONF_READ = [conf("conf_readline", 3, "READ", loops=True), conf("conf_parse_stream", 3, "STREAM", loops=True, replace=["conf_readline", "conf_parse_line"]),
             conf("conf_parse_file", 2, "STREAM", defs=["-DFV_FILE"], replace=["conf_parse_stream"]), conf("conf_free", 1, "FREE", loops=True, unwind=12), conf("conf_init", 1, "FREE")]


def nat_conf(sel):
    return dict(src="nat_conf.c", repo=["conf.c", "log.c", "mutex_posix.c"], wrap=["malloc", "calloc", "realloc", "free"], quick_count=2000, cflags=["-DNAT_SEL=%d" % sel])


CONF_ASSUME = ["a configuration line is shorter than 2^31 - 1 bytes (conf_readline counts in an int)", "strncmp, strcmp and memcpy behave as the C standard says"]
PROPS["C01"] = dict(sources=["conf.c"], native=[nat_conf(1)], obs=CONF_LINE + CONF_PAIR + CONF_READ[:3], assumptions=CONF_ASSUME)
PROPS["C02"] = dict(sources=["conf.c"], native=[nat_conf(2)], obs=CONF_READ + CONF_PAIR + CONF_LINE, assumptions=CONF_ASSUME)


# --------------------------------------------------------------------- log
def log(n, c, **k):
    return Ob(n, "u_log.c", "h_" + n, enforce=n, canaries=c, **k)


LOG = [log("log_select_medium", 3), log("log_close", 1), log("log_open", 2)]
LOG_LIFE = [log("log_init", 2), log("log_free", 2)]
# variadic functions and constant tables: the same checks around the plain function
LOG_PRINT = [Ob(n, "u_log.c", "h_" + n, canaries=3, dfcc=False, defs=["-DFV_PRINT"], functions=[n]) for n in ("log_vprintf", "log_printf")]
PROPS["L01"] = dict(sources=["log.c"], native=[dict(src="nat_log.c", repo=["log.c"], wrap=["openlog", "closelog", "vsyslog", "syslog"], quick_count=3000, cflags=["-U_FORTIFY_SOURCE"])], obs=LOG + LOG_PRINT + LOG_LIFE)


# ------------------------------------------------------------ proxy client
def client(n, c, **k):
    return Ob(n, "u_client.c", "h_" + n, enforce=n, canaries=c, unwind=18, **k)


CLIENT = [client("proxy_client_connect", 3), client("proxy_client_disconnect", 1)]
CLIENT_LIFE = [client("proxy_client_init", 2, defs=["-DFV_LIFE"]), client("proxy_client_free", 2, defs=["-DFV_LIFE"])]
NAT_CLIENT = nat_sim("nat_client.c", ALL_SRC + (["proxy_client.c"] if "proxy_client.c" not in ALL_SRC else []), count=3000, libs=ALL_LIBS, pcre=False)
PROPS["K01"] = dict(sources=["proxy_client.c"], native=[NAT_CLIENT], obs=CLIENT + CLIENT_LIFE)


# ---------------------------------------------------- opening and closing
def opn(n, c, mode, **k):
    return Ob(k.pop("name", n), "u_open.c", "h_" + n, enforce=n, canaries=c, defs=["-DFV_" + mode] + k.pop("more_defs", []), replace=["proxy_log", "proxy_update_registration"] + k.pop("more", []), object_bits=10, **k)


OPEN = [opn("proxy_open", 1, "OPEN=0", solver="minisat", cbmc=["--slice-formula"], more_defs=["-DFV_FAIL=%d" % f], name="proxy_open_%s" % nm, timeout=600, more=["proxy_worker_init", "proxy_worker_free"], loops=True, unwind=12) for f, nm in enumerate(["ok", "early", "slot", "worker", "listen"])]
OPEN += [opn("proxy_open", 1, "OPEN=1", solver="minisat", cbmc=["--slice-formula"], more_defs=["-DFV_FAIL=0"], name="proxy_open_slot_list", timeout=600, more=["proxy_worker_init", "proxy_worker_free"], loops=True, unwind=12)]
OPEN += [opn("proxy_open", 1, "OPEN=3", solver="minisat", cbmc=["--slice-formula"], more_defs=["-DFV_FAIL=0"], name="proxy_open_slot_next", timeout=600, more=["proxy_worker_init", "proxy_worker_free"], loops=True, unwind=12)]
OPEN += [opn("proxy_open", 1, "OPEN=2", solver="minisat", cbmc=["--slice-formula"], more_defs=["-DFV_FAIL=0"], name="proxy_open_worker_list", timeout=600, more=["proxy_worker_init", "proxy_worker_free"], loops=True, unwind=12)]
OPEN += [opn("proxy_close", 2, "CLOSE", loops=True, unwind=12), opn("proxy_drop", 1, "CLOSE", loops=True, unwind=12), opn("proxy_start", 2, "START", loops=True, unwind=12)]
OPEN += [opn("proxy_worker_init", 2, "WORKER"), opn("proxy_worker_free", 1, "WORKER")]
PROXY_LIFE = [opn("proxy_init", 2, "LIFE"), opn("proxy_free", 2, "LIFE", more=["proxy_close"])]
CONN_LIFE = [conn("init", canaries=2), conn("free")]
INIT_SRC = ALL_SRC + (["proxy_client.c"] if "proxy_client.c" not in ALL_SRC else [])
PROPS["P01"] = dict(sources=["proxy.c", "proxy_conn.c"], native=[nat_sess("P01", 800), nat_sim("nat_init.c", INIT_SRC, count=5000, defs=["-DNAT_SEL=2"], libs=ALL_LIBS, pcre=False)], obs=OPEN + PROXY_LIFE + SLOT_RUN)

# ---------------------------------------------------------- initialisation
PROPS["I01"] = dict(
    sources=["conn.c", "mutex_posix.c", "thread_posix.c", "worker.c", "log.c", "regex.c", "proxy_conn.c", "proxy_client.c", "registration.c", "proxy.c"],
    native=[nat_sim("nat_init.c", INIT_SRC, count=12000, defs=["-DNAT_SEL=1"], libs=ALL_LIBS, pcre=False)],
    obs=CONN_LIFE + LOCK_LIFE + WORKER_LIFE + LOG_LIFE + REGEX_LIFE + SLOT_LIFE + CLIENT_LIFE + REG_LIFE + PROXY_LIFE)

# -------------------------------------------------------------- the daemon
PROPS["M01"] = dict(
    sources=["proxyd.c"], native=[dict(src="nat_main.c", repo=[], wrap=[], quick_count=6000, cflags=[])],
    obs=[Ob("parse_args_%s" % n, "u_main.c", "h_parse_args", enforce="parse_args", canaries=1 if n in ("log", "long") else 2, solver="kissat" if n == "long" else "minisat", timeout=600, defs=["-DFV_ARGS", "-DFV_KIND=%d" % k], loops=True,
            unwind=17, object_bits=10, cbmc=["--slice-formula"]) for k, n in enumerate(["plain", "long", "log", "flags"])]
        + [Ob("main", "u_main.c", "h_main", enforce="fv_main", replace=["parse_args"], canaries=3, loops=True, defs=["-DFV_MAIN"], unwind=40)])

# ------------------------------------------- what each proof rests on
CALLEE = "contracts of the called modules are used in place of their bodies and are themselves proved: "
_T = dict(
    T03=["socket, accept, bind, listen, connect, getaddrinfo, setsockopt, shutdown, close: any result, any errno; a new descriptor is never one that is open"],
    R01=[CALLEE + "conn_recv, conn_send, conn_send_to (T01, T02), conn_close (T03)", "proxy_log has no effect on the session (L01)"],
    R02=[CALLEE + "conn_recv_any, conn_send (T01, T02), conn_close, conn_drop (T03), mutex_lock/unlock (W02)"],
    R03=[CALLEE + "conn_connect, conn_close, conn_send (T01, T03), worker_wake, worker_wait_idle (W01)", "snprintf with %hu prints the decimal digits"],
    R04=[CALLEE + "as for R01 to R03"],
    A01=[CALLEE + "conn_send, conn_recv (T01), digest_to_hex32 (D02), get_password_response (D03)", "rand_get stores an arbitrary number or fails"],
    A02=[CALLEE + "conn_send, conn_recv (T01), get_password_response (D03)"],
    A03=["pcre2_compile, pcre2_match: any result; match data and code are owned by the caller until freed"],
    S01=[CALLEE + "proxy_conn_accept, proxy_conn_process, proxy_conn_finish as seen by the worker; mutexes (W02)", "the pool is a list of any length of which the head, tail, the neighbours of the slot concerned and one arbitrary further slot are materialised"],
    S02=[CALLEE + "conn_accept, conn_free (T03), worker_wake (W01), mutexes (W02)"],
    W01=[CALLEE + "mutex and condition variables (W02)", "pthread_create runs the function exactly once or fails; pthread_join returns after it has ended"],
    W02=["pthread_mutex_*, pthread_cond_*: POSIX semantics; pthread_cond_wait may return at any time and gives the lock up while it waits", "other threads change the state of the lock only as the contracts of these functions allow (rely/guarantee)"],
    G01=[CALLEE + "conn_init, conn_connect, conn_send, conn_recv, conn_free (T01, T03), digest_get, digest_to_str (D01, D02)", "sprintf writes what its format says (checked format by format in the ghost printer)"],
    G02=[CALLEE + "worker_wake, worker_join (W01), mutexes (W02), send_report (G01)"],
    C01=["fgetc, fopen, fclose, strncmp, strcmp, memcpy, malloc, calloc, realloc as the C standard says, failing at will"],
    C02=["fgetc, fopen, fclose, strncmp, strcmp, memcpy, malloc, calloc, realloc as the C standard says, failing at will"],
    L01=["fopen, fclose, openlog, closelog, vprintf, vfprintf, vsyslog: recorded; fopen may fail with any errno"],
    K01=[CALLEE + "conn_connect, conn_recv, conn_send, conn_close (T01, T03), hex32_to_digest (D02), get_password_response (D03)"],
    P01=[CALLEE + "initialisation and release of slots, workers, locks, log, pattern (I01, A03), worker_start, worker_join (W01), conn_listen, conn_close (T03)"],
    I01=["malloc, calloc, pthread_*_init, pthread_*_destroy, pthread_attr_*: fail at will", CALLEE + "each initialiser is proved against the contracts of the initialisers it calls"],
    M01=["exit does not return; fork, setsid, chdir, access, sigaction: any result; the library's entry points fail at will", "printf and fprintf are expanded to nothing (their texts are not checked)"],
)
_A = dict(
    R01=["a message header is the packed structure proxy_msg in the byte order of the machine (x86-64)"],
    S01=["at most 2^16 slots (the configuration cannot ask for more)"],
    S02=["proxy_process is called by one thread"],
    W01=["worker_start and worker_join of one worker are called by one thread at a time"],
    W02=["fewer than 2^31 - 1 shared holders at once", "pthread_mutex_unlock of a lock one holds does not fail in mutex_lock_shared, and pthread_cond_wait on a valid condition does not fail in condvar_wait (the failing branches leave the count or the exclusion inexact; see DESIGN.md)"],
    G01=["counts are below 10^19 (they are unsigned long)"],
    G02=["a client in its handshake counts as in use"],
    L01=["stdout and stderr as media print messages of level ERROR and above the numeric value to stderr, as the code does"],
    P01=["at most 2^16 slots"],
    M01=["all arguments together are shorter than 2^28 bytes and at most 2^20 in number (Linux limits a command line to less)"],
)
for _p, _v in PROPS.items():
    _v["trusted"] = (_v.get("trusted") or []) + _T.get(_p, [])
    _v["assumptions"] = (_v.get("assumptions") or []) + _A.get(_p, [])
