/* Results of functions, as one text for both sides of a call: where the
 * function is under contract IFC_f(result) is a postcondition (proved), and
 * where it is called the stand-in returns any value for which IFC_f holds. */
#ifndef FV_IFC_H
#define FV_IFC_H
#define IFC_ERROR(r) ((r) < 0 && (r) > -4096)
#define IFC_STATUS(r) ((r) <= 0 && (r) > -4096)
#define IFC_mutex_init(r) IFC_STATUS(r)
#define IFC_condvar_init(r) IFC_STATUS(r)
#define IFC_thread_init(r) IFC_STATUS(r)
#define IFC_conn_init(r) IFC_STATUS(r)
#define IFC_conn_listen(r) IFC_STATUS(r)
#define IFC_conn_connect(r) IFC_STATUS(r)
#define IFC_conn_accept(r) IFC_STATUS(r)
#define IFC_conn_send(r) IFC_STATUS(r)
#define IFC_conn_send_to(r) IFC_STATUS(r)
#define IFC_conn_recv(r, n) (IFC_ERROR(r) || ((r) >= 0 && (size_t)(r) == (n)))
#define IFC_conn_recv_any(r, n) (IFC_ERROR(r) || ((r) > 0 && (size_t)(r) <= (n)))
#define IFC_worker_init(r) IFC_STATUS(r)
#define IFC_worker_start(r) IFC_STATUS(r)
#define IFC_worker_join(r) IFC_STATUS(r)
#define IFC_worker_wake(r) ((r) == 0 || (r) == -EINVAL)
#define IFC_worker_wait_idle(r) ((r) == 0 || (r) == -EINVAL)
#define IFC_proxy_conn_accept(r) IFC_STATUS(r)
#define IFC_proxy_conn_init(r) IFC_STATUS(r)
#define IFC_proxy_conn_start(r) IFC_STATUS(r)
#define IFC_registration_service_init(r) IFC_STATUS(r)
#define IFC_registration_service_start(r) IFC_STATUS(r)
#define IFC_registration_service_stop(r) IFC_STATUS(r)
#define IFC_get_password_response(r) IFC_STATUS(r)
#define IFC_get_nonce(r) IFC_STATUS(r)
#define IFC_proxy_worker_authorize(r) IFC_STATUS(r)
#define IFC_log_open(r) IFC_STATUS(r)
/* an arbitrary result of f */
#define IFC_ANY(f) ({ int fv_r = nondet_int(); FV_ASSUME(IFC_##f(fv_r)); fv_r; })
#define IFC_FAIL(f) ({ int fv_r = nondet_int(); FV_ASSUME(IFC_##f(fv_r) && fv_r < 0); fv_r; })
#endif
