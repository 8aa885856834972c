/* stand-ins for the layer bookkeeping of a stream object */
struct M_io_callbacks { M_io_error_t (*accept)(M_io_t*,M_io_layer_t*); M_bool (*disconnect)(M_io_layer_t*); void (*unreg)(M_io_layer_t*); M_bool (*init)(M_io_layer_t*); M_io_error_t (*read)(M_io_layer_t*,unsigned char*,size_t*,M_io_meta_t*); M_io_error_t (*write)(M_io_layer_t*,const unsigned char*,size_t*,M_io_meta_t*); M_bool (*pe)(M_io_layer_t*,M_event_type_t*); M_bool (*reset)(M_io_layer_t*); void (*destroy)(M_io_layer_t*); M_io_state_t (*state)(M_io_layer_t*); };
struct M_io_layer { M_io_handle_t *h; struct M_io_callbacks cb; };
static struct M_io_layer LY[2]; static int cur; static int held;
M_io_callbacks_t *M_io_callbacks_create(void){ return M_malloc_zero(sizeof(struct M_io_callbacks)); }
void M_io_callbacks_destroy(M_io_callbacks_t *c){ M_free(c); }
M_bool M_io_callbacks_reg_init(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*)){ c->init=f; return M_TRUE; }
M_bool M_io_callbacks_reg_read(M_io_callbacks_t *c, M_io_error_t (*f)(M_io_layer_t*,unsigned char*,size_t*,M_io_meta_t*)){ c->read=f; return M_TRUE; }
M_bool M_io_callbacks_reg_processevent(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*,M_event_type_t*)){ c->pe=f; return M_TRUE; }
M_bool M_io_callbacks_reg_accept(M_io_callbacks_t *c, M_io_error_t (*f)(M_io_t*,M_io_layer_t*)){ c->accept=f; return M_TRUE; }
M_bool M_io_callbacks_reg_disconnect(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*)){ c->disconnect=f; return M_TRUE; }
M_bool M_io_callbacks_reg_unregister(M_io_callbacks_t *c, void (*f)(M_io_layer_t*)){ c->unreg=f; return M_TRUE; }
M_bool M_io_callbacks_reg_reset(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*)){ c->reset=f; return M_TRUE; }
M_bool M_io_callbacks_reg_destroy(M_io_callbacks_t *c, void (*f)(M_io_layer_t*)){ c->destroy=f; return M_TRUE; }
M_bool M_io_callbacks_reg_state(M_io_callbacks_t *c, M_io_state_t (*f)(M_io_layer_t*)){ c->state=f; return M_TRUE; }
M_bool M_io_callbacks_reg_errormsg(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*,char*,size_t)){ (void)c;(void)f; return M_TRUE; }
M_io_layer_t *M_io_layer_add(M_io_t *io, const char *n, M_io_handle_t *h, const M_io_callbacks_t *cb){ (void)io;(void)n; LY[cur].h=h; LY[cur].cb=*cb; return &LY[cur]; }
M_io_handle_t *M_io_layer_get_handle(M_io_layer_t *l){ return l?l->h:NULL; }
M_io_t *M_io_layer_get_io(M_io_layer_t *l){ (void)l; return (M_io_t*)&LY[0]; }
size_t M_io_layer_get_index(M_io_layer_t *l){ (void)l; return 1; }
size_t M_io_layer_count(M_io_t *io){ (void)io; return 1; }
M_io_layer_t *M_io_layer_acquire(M_io_t *io, size_t i, const char *n){ (void)io;(void)i;(void)n; held++; return &LY[cur]; }
void M_io_layer_release(M_io_layer_t *l){ if(l) held--; }
M_event_t *M_io_get_event(M_io_t *io){ (void)io; return NULL; }
static int soft_conn, soft_read, soft_write;
void M_io_layer_softevent_add(M_io_layer_t *l, M_bool sib, M_event_type_t t, M_io_error_t e){ (void)l;(void)sib;(void)e; if(t==M_EVENT_TYPE_CONNECTED) soft_conn++; if(t==M_EVENT_TYPE_READ) soft_read++; if(t==M_EVENT_TYPE_WRITE) soft_write++; }
#ifdef NO_TIMER_STUBS
M_event_timer_t *M_event_timer_add(M_event_t *e, M_event_callback_t cb, void *d){ (void)e; tcb=cb; tcd=d; return (M_event_timer_t*)&LY[1]; }
M_bool M_event_timer_remove(M_event_timer_t *t){ (void)t; tm_on=0; return M_TRUE; }
M_bool M_event_timer_stop(M_event_timer_t *t){ (void)t; tm_on=0; return M_TRUE; }
M_bool M_event_timer_start(M_event_timer_t *t, M_uint64 x){ (void)t; tm_on=1; tm_ms=x; return M_TRUE; }
#else
M_event_timer_t *M_event_timer_add(M_event_t *e, M_event_callback_t cb, void *d){ (void)e;(void)cb;(void)d; return NULL; }
M_bool M_event_timer_remove(M_event_timer_t *t){ (void)t; return M_TRUE; }
M_bool M_event_timer_stop(M_event_timer_t *t){ (void)t; return M_TRUE; }
M_bool M_event_timer_reset(M_event_timer_t *t, M_uint64 x){ (void)t;(void)x; return M_TRUE; }
#endif
M_bool M_event_timer_set_firecount(M_event_timer_t *t, size_t x){ (void)t;(void)x; return M_TRUE; }
const char *M_io_net_get_ipaddr(M_io_t *io){ (void)io; return "direct"; }
M_bool M_io_error_is_critical(M_io_error_t e){ return e!=M_IO_ERROR_SUCCESS&&e!=M_IO_ERROR_WOULDBLOCK; }
M_bool M_io_callbacks_reg_write(M_io_callbacks_t *c, M_io_error_t (*f)(M_io_layer_t*,const unsigned char*,size_t*,M_io_meta_t*)){ c->write=f; return M_TRUE; }
