#include "sim.hh"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <getopt.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>
#include <ucontext.h>

World W;
thread_local Thread * tls_cur = nullptr;
std::string g_build_dir;

const char * const fault_name[ F_NKINDS ] = {
  "net_loss", "net_burst_loss", "net_duplicate", "net_reorder", "net_long_delay", "net_partition", "net_queue_drop",
  "preempt", "stall", "spurious_wakeup", "thread_delay", "clock_jump", "camera_stall", "display_stall",
  "node_crash", "foreign_ack", "rcvbuf_drop", "eintr",
  "short_read", "short_write", "io_error_read", "io_error_write", "enospc", "open_fail", "mmap_fail",
  "stat_fail", "close_fail", "alloc_fail", "truncated_file", "bitflip", "pipe_closed", "stale_ack" };

// ---------- hashing ----------
u64 mix( u64 x )
{
  x += 0x9e3779b97f4a7c15ull;
  x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
  x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebull;
  return x ^ ( x >> 31 );
}
u64 h2( u64 a, u64 b ) { return mix( mix( a ) + b ); }
u64 h3( u64 a, u64 b, u64 c ) { return mix( h2( a, b ) + c ); }
u64 hstr( const char * s ) { return hbytes( s, strlen( s ) ); }
u64 hbytes( const void * p, size_t n, u64 h )
{
  const u8 * b = (const u8 *) p;
  while ( n >= 8 ) { u64 w; memcpy( &w, b, 8 ); h = mix( h ^ w ); b += 8; n -= 8; }
  for ( size_t i = 0; i < n; i++ ) h = ( h ^ b[ i ] ) * 0x100000001b3ull;
  return mix( h + n );
}
double Config::d( const std::string & k, double def ) const { auto i = kv.find( k ); return i == kv.end() ? def : atof( i->second.c_str() ); }
u64 Config::n( const std::string & k, u64 def ) const { auto i = kv.find( k ); return i == kv.end() ? def : strtoull( i->second.c_str(), 0, 0 ); }

// ---------- faults ----------
static u64 f_ctr[ F_NKINDS ], f_hits[ F_NKINDS ];
bool filter_on = false;
std::map<int, std::set<u64>> filter_allow; // kind -> indices that may fire (only these)
std::set<int> filter_all;                   // kinds that may fire freely
struct FaultRec { int kind; u64 idx, t; };
std::vector<FaultRec> fault_log;

bool fault( FaultKind k, double p, u64 * mag )
{
  if ( p <= 0 ) return false;
  u64 i = f_ctr[ k ]++;
  if ( W.faults_off ) return false;
  u64 r = h3( W.cfg.seed * 0x51ed2701 + 17, 1000 + k, i );
  if ( ( r >> 11 ) * ( 1.0 / 9007199254740992.0 ) >= p ) return false;
  if ( filter_on && !filter_all.count( k ) ) {
    auto a = filter_allow.find( k );
    if ( a == filter_allow.end() || !a->second.count( i ) ) return false;
  }
  f_hits[ k ]++;
  fault_log.push_back( { k, i, W.now } );
  if ( mag ) *mag = h2( r, 77 );
  trace_event( 0xFA, k, i );
  if ( W.log_on && k != F_PREEMPT ) logf( "FAULT %s #%lu", fault_name[ k ], i );
  return true;
}
u64 fault_count( FaultKind k ) { return f_hits[ k ]; }
u64 fault_total() { u64 s = 0; for ( u64 x : f_hits ) s += x; return s; }

// ---------- log ----------
void trace_event( u64 a, u64 b, u64 c )
{
  W.trace = mix( W.trace ^ h3( a + ( W.now << 8 ), b, c ) );
  W.nevents++;
}
InSim::InSim() : t( tls_cur ) { if ( t ) t->in_sim++; }
InSim::~InSim() { if ( t ) t->in_sim--; }

void logf( const char * fmt, ... )
{
  if ( !W.log_on ) return;
  InSim _;
  char buf[ 2000 ];
  int n = snprintf( buf, 100, "[%11.6f] ", W.now / 1e9 );
  if ( tls_cur && tls_cur->node ) n += snprintf( buf + n, 100, "%s/t%d ", tls_cur->node->name.c_str(), tls_cur->id );
  va_list ap; va_start( ap, fmt ); vsnprintf( buf + n, sizeof( buf ) - n, fmt, ap ); va_end( ap );
  W.log.push_back( buf );
}
void violation( const std::string & cls, const std::string & msg )
{
  InSim _;
  trace_event( 0x71, hstr( cls.c_str() ) );
  logf( "VIOLATION %s: %s", cls.c_str(), msg.c_str() );
  if ( W.violations.size() < 50 ) W.violations.push_back( { cls, msg, W.now } );
  W.stop = true; // the first violation ends the run
}
std::string bytes_hex( const Bytes & b, size_t max )
{
  std::string s; char t[ 4 ];
  for ( size_t i = 0; i < b.size() && i < max; i++ ) { snprintf( t, 4, "%02x", b[ i ] ); s += t; }
  return s;
}

// ---------- OS threads and the baton ----------
struct Ost { std::atomic<int> baton{ 0 }; Thread * assigned = nullptr; void * altstack = nullptr; };
static std::vector<Ost *> idle;
static std::unordered_map<Thread *, Ost *> ost_of;
static long raw_futex( std::atomic<int> * a, int op, int v )
{
  long ret;
  register long r10 __asm__( "r10" ) = 0; register long r8 __asm__( "r8" ) = 0; register long r9 __asm__( "r9" ) = 0;
  __asm__ volatile( "syscall" : "=a"( ret ) : "a"( SYS_futex ), "D"( a ), "S"( (long) op ), "d"( (long) v ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
  return ret;
}
static void baton_give( Ost * o ) { o->baton.store( 1, std::memory_order_release ); raw_futex( &o->baton, FUTEX_WAKE_PRIVATE, 1 ); }
static void baton_wait( Ost * o )
{
  while ( o->baton.load( std::memory_order_acquire ) == 0 ) raw_futex( &o->baton, FUTEX_WAIT_PRIVATE, 0 );
  o->baton.store( 0, std::memory_order_relaxed );
}
static Thread * pick();
void note_crash( const char * );
static void on_fatal_signal( int sig, siginfo_t *, void * );
static void * altstack_mem() { return mmap( nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); }
static void setup_altstack( void * mem )
{
  stack_t ss{}; ss.ss_size = 1 << 18; ss.ss_sp = mem;
  sigaltstack( &ss, nullptr );
}
static void leave_node( Thread * t ) { if ( t && t->node ) { t->node->saved_optind = optind; t->node->saved_optarg = optarg; } }
static void enter_node( Thread * t ) { if ( t && t->node ) { optind = t->node->saved_optind; optarg = t->node->saved_optarg; } }

static void * ost_main( void * p )
{
  Ost * o = (Ost *) p;
  setup_altstack( o->altstack );
  while ( true ) {
    baton_wait( o );
    Thread * t = o->assigned;
    tls_cur = t;
    enter_node( t );
    t->ret = t->fn( t->arg );
    { // finished
      t->in_sim++;
      trace_event( 0x7E, t->id );
      t->done = true;
      leave_node( t );
      ost_of.erase( t );
      idle.push_back( o );
      Thread * n = pick();
      tls_cur = nullptr;
      Ost * no = ost_of.at( n );
      baton_give( no );
    }
  }
  return nullptr;
}
static std::vector<Thread *> live; // threads that can still run, in order of creation
typedef int ( *pthread_create_t )( pthread_t *, const pthread_attr_t *, void * ( * )( void * ), void * );
static Ost * new_ost()
{
  if ( !idle.empty() ) { Ost * o = idle.back(); idle.pop_back(); return o; }
  static pthread_create_t real = (pthread_create_t) dlsym( RTLD_NEXT, "pthread_create" );
  Ost * o = new Ost;
  o->altstack = altstack_mem();
  pthread_attr_t a; pthread_attr_init( &a ); pthread_attr_setstacksize( &a, 32 << 20 );
  pthread_t pt;
  Thread * save = tls_cur; // creation runs simulator-side
  if ( real( &pt, &a, ost_main, o ) ) { fprintf( stderr, "sim: cannot create thread\n" ); _exit( 70 ); }
  tls_cur = save;
  return o;
}
Thread * thread_new( Node * n, void * ( *fn )( void * ), void * arg )
{
  InSim _;
  Thread * t = new Thread;
  t->id = W.threads.size(); t->node = n; t->fn = fn; t->arg = arg;
  t->prio = h3( W.cfg.seed, 0x9910, t->id );
  Ost * o = new_ost();
  o->assigned = t; ost_of[ t ] = o;
  W.threads.push_back( t );
  live.push_back( t );
  return t;
}
static void switch_from( Thread * me, Thread * t )
{
  if ( t == me ) return;
  W.nswitches++;
  leave_node( me );
  Ost * mo = ost_of.at( me );
  baton_give( ost_of.at( t ) );
  baton_wait( mo );
  enter_node( me );
}

void at( u64 t, std::function<void()> f ) { W.events.emplace( t, std::make_pair( W.event_seq++, std::move( f ) ) ); }

static Thread * pick()
{
  static u64 picks = 0;
  while ( true ) {
    if ( W.now >= W.end_time ) W.stop = true;
    if ( ++W.steps > W.max_steps ) { W.counters[ "step_budget_hit" ] = 1; W.stop = true; }
    if ( W.stop ) return W.threads[ 0 ];
    while ( !W.events.empty() && W.events.begin()->first <= W.now ) {
      auto f = std::move( W.events.begin()->second.second );
      W.events.erase( W.events.begin() );
      f();
      if ( W.stop ) return W.threads[ 0 ];
    }
    Thread * runnable[ 256 ]; size_t nr = 0;
    u64 next = NEVER;
    size_t keep = 0;
    for ( size_t i = 0; i < live.size(); i++ ) {
      Thread * t = live[ i ];
      if ( t->done || !t->node->alive() ) continue;
      live[ keep++ ] = t;
      if ( !t->blocked ) { if ( nr < 256 ) runnable[ nr++ ] = t; }
      else if ( t->deadline <= W.now || ( t->pred && t->pred() ) ) { if ( nr < 256 ) runnable[ nr++ ] = t; }
      else if ( t->deadline < next ) next = t->deadline;
    }
    live.resize( keep );
    if ( nr ) {
      Thread * c = nullptr;
      if ( nr == 1 ) c = runnable[ 0 ];
      else {
        u64 r = h3( W.cfg.seed, 0x5c4ed, picks++ );
        if ( W.prio_mode ) {
          for ( size_t i = 0; i < nr; i++ ) if ( !c || runnable[ i ]->prio > c->prio ) c = runnable[ i ];
        } else if ( W.sticky > 0 && ( r >> 40 ) * ( 1.0 / ( 1 << 24 ) ) < W.sticky ) {
          for ( size_t i = 0; i < nr; i++ ) if ( runnable[ i ] == tls_cur ) c = runnable[ i ];
        }
        if ( !c ) c = runnable[ r % nr ];
        W.sched_trace = mix( W.sched_trace ^ ( c->id * 131 + nr ) );
      }
      c->blocked = false;
      return c;
    }
    if ( !W.events.empty() && W.events.begin()->first < next ) next = W.events.begin()->first;
    if ( next == NEVER ) { W.deadlock = true; W.stop = true; return W.threads[ 0 ]; }
    if ( next > W.now ) W.now = next;
  }
}
static void reschedule()
{
  Thread * me = tls_cur;
  Thread * t = pick();
  switch_from( me, t );
}
void sim_point( const char * what )
{
  Thread * me = tls_cur;
  me->in_sim++;
  Node * n = me->node;
  n->syscalls++;
  me->last_op = W.now;
  trace_event( 0x5C, me->id, hstr( what ) );
  if ( n->syscalls >= n->kill_at_syscall && !n->kill_torn ) { me->in_sim--; logf( "crash at call %lu (%s)", n->syscalls, what ); die_here( Node::KILLED, 0, "crash point" ); }
  static u64 cost_n = 0;
  if ( W.syscall_cost_max ) W.now += 100 + h3( W.cfg.seed, 0xc057, cost_n++ ) % W.syscall_cost_max;
  u64 m;
  const double stall_p = W.hot_call && me != n->main_thread && !strcmp( W.hot_call, what ) ? W.hot_call_p : W.stall_p;
  if ( stall_p > 0 && fault( F_STALL, stall_p, &m ) ) {
    me->blocked = true; me->pred = nullptr; me->deadline = W.now + 1 + m % W.stall_max;
  }
  me->why = what;
  reschedule();
  me->pred = nullptr; me->deadline = NEVER;
  me->in_sim--;
}
bool sim_wait( std::function<bool()> pred, u64 deadline, const char * why )
{
  Thread * me = tls_cur;
  me->in_sim++;
  while ( true ) {
    me->blocked = true; me->pred = pred; me->deadline = deadline; me->why = why;
    reschedule();
    me->pred = nullptr; me->deadline = NEVER; me->blocked = false;
    bool ok = pred();
    if ( ok || W.now >= deadline ) { me->in_sim--; return ok; }
  }
}
void sim_sleep_until( u64 t ) { sim_wait( [] { return false; }, t, "sleep" ); }

// instrumented code
static u64 pre_n = 0;
static u64 gap() { u64 r = h3( W.cfg.seed, 0x9a9, pre_n++ ); return 1 + r % ( 2 * W.preempt_gap ); }
static inline void block( u64 weight )
{
  Thread * me = tls_cur;
  if ( !me || me->in_sim || !me->node ) return;
  Node * n = me->node;
  n->blocks += weight;
  if ( n->blocks >= n->kill_at_block ) { logf( "crash at block %lu", n->blocks ); die_here( Node::KILLED, 0, "crash point" ); }
  if ( n->blocks > W.block_budget ) { die_here( Node::DIED, 0, "hang: instruction budget exceeded" ); }
  if ( !W.preempt_gap ) return;
  if ( me->next_preempt == 0 ) { me->next_preempt = n->blocks + gap(); return; }
  if ( n->blocks < me->next_preempt ) return;
  me->next_preempt = n->blocks + gap();
  me->in_sim++;
  u64 m;
  if ( fault( F_PREEMPT, 1.0, &m ) ) {
    if ( W.prio_mode ) me->prio = m % 1000;
    if ( m % 16 == 0 && W.preempt_stall_max ) { me->blocked = true; me->pred = nullptr; me->deadline = W.now + 1 + ( m >> 8 ) % W.preempt_stall_max; }
    reschedule();
    me->deadline = NEVER;
  }
  me->in_sim--;
}
extern "C" __attribute__( ( visibility( "default" ) ) ) void __sanitizer_cov_trace_pc() { block( 1 ); }
// memory accesses of the code that threads share (access.cc)
void access_point() { block( W.hot_weight ); }

// ---------- nodes ----------
u64 node_realtime( Node * n ) { return W.rt_base + W.now + ( n ? n->clock_off : 0 ); }
void flush_stdout_of( Node * n );
static void close_fds( Node * n )
{
  for ( auto & f : n->fds ) if ( f.second && f.second.use_count() == 1 ) f.second->on_close();
  n->fds.clear();
}
void node_end( Node * n, Node::St st, int status, const std::string & why )
{
  InSim _;
  if ( n->st != Node::RUNNING && n->st != Node::NEW ) return;
  trace_event( 0xE0, n->id, st * 1000 + status );
  logf( "node %s ends: %s status %d %s", n->name.c_str(), st == Node::EXITED ? "exit" : st == Node::DIED ? "DIED" : "killed", status, why.c_str() );
  n->st = st; n->exit_status = status; n->why = why;
  close_fds( n );
  if ( n->on_end ) n->on_end();
}
void node_kill( Node * n, const char * why ) { node_end( n, Node::KILLED, 0, why ); }
void die_here( Node::St st, int status, const std::string & why )
{
  Thread * me = tls_cur;
  me->in_sim++;
  node_end( me->node, st, status, why );
  Ost * o = ost_of.at( me );
  leave_node( me );
  Thread * t = pick();
  baton_give( ost_of.at( t ) );
  while ( true ) baton_wait( o );
}
struct Tramp { Node * n; int ( *mainfn )( int, char ** ); };
static void * tramp( void * p )
{
  Tramp * t = (Tramp *) p;
  Node * n = t->n;
  optind = 0;
  int r = t->mainfn( n->args.size(), n->argv.data() );
  flush_stdout_of( n );
  die_here( Node::EXITED, r & 0xff, n->out_buf_failed ? "stdout flush failed" : "" );
}
// Instances of tools are used again after their process has ended: the writable data of the
// loaded program is put back to what it was after loading, as for a fresh process.
struct Instance { void * handle; std::vector<std::pair<u8 *, Bytes>> data; Node * user = nullptr; };
static std::vector<std::pair<u8 *, size_t>> writable_data( void * fn )
{
  struct Q { void * fn; std::vector<std::pair<u8 *, size_t>> r; } q; q.fn = fn;
  dl_iterate_phdr( []( dl_phdr_info * i, size_t, void * arg ) {
    Q * q = (Q *) arg; bool mine = false;
    for ( int k = 0; k < i->dlpi_phnum; k++ ) {
      auto & p = i->dlpi_phdr[ k ]; u8 * a = (u8 *) i->dlpi_addr + p.p_vaddr;
      if ( p.p_type == PT_LOAD && (u8 *) q->fn >= a && (u8 *) q->fn < a + p.p_memsz ) mine = true;
    }
    if ( !mine ) return 0;
    u8 * ro0 = nullptr, * ro1 = nullptr;
    for ( int k = 0; k < i->dlpi_phnum; k++ ) { auto & p = i->dlpi_phdr[ k ]; if ( p.p_type == PT_GNU_RELRO ) { ro0 = (u8 *) i->dlpi_addr + p.p_vaddr; ro1 = (u8 *) ( ( (u64) ro0 + p.p_memsz ) & ~4095ull ); } }
    for ( int k = 0; k < i->dlpi_phnum; k++ ) {
      auto & p = i->dlpi_phdr[ k ];
      if ( p.p_type != PT_LOAD || !( p.p_flags & PF_W ) ) continue;
      u8 * a = (u8 *) i->dlpi_addr + p.p_vaddr, * e = a + p.p_memsz;
      if ( ro0 && ro0 < e && ro1 > a ) { if ( ro0 > a ) q->r.push_back( { a, ro0 - a } ); a = ro1; }
      if ( e > a ) q->r.push_back( { a, e - a } );
    }
    return 1; }, &q );
  return q.r;
}
static void * load_instance( const std::string & so );
bool reuse_instances = false;
static void * get_instance( const std::string & so, Node * n )
{
  if ( !reuse_instances ) return load_instance( so );
  static std::map<std::string, std::vector<Instance>> pool;
  for ( auto & i : pool[ so ] ) if ( !i.user->alive() && i.user->st != Node::NEW ) {
    for ( auto & d : i.data ) memcpy( d.first, d.second.data(), d.second.size() );
    i.user = n;
    return i.handle;
  }
  Instance i; i.handle = load_instance( so ); i.user = n;
  void * fn = dlsym( i.handle, "sim_main" );
  for ( auto & r : writable_data( fn ) ) i.data.push_back( { r.first, Bytes( r.first, r.first + r.second ) } );
  pool[ so ].push_back( std::move( i ) );
  return pool[ so ].back().handle;
}
static void * load_instance( const std::string & so )
{
  static std::map<std::string, int> uses;
  std::string path = g_build_dir + "/" + so;
  if ( uses[ so ]++ > 0 ) { // a second instance needs its own globals: load a private copy
    int s = open( path.c_str(), O_RDONLY ); struct stat sb; fstat( s, &sb );
    int m = memfd_create( so.c_str(), 0 );
    Bytes b( sb.st_size ); size_t got = 0;
    while ( got < b.size() ) { ssize_t r = ::read( s, b.data() + got, b.size() - got ); if ( r <= 0 ) break; got += r; }
    size_t put = 0; while ( put < got ) { ssize_t r = ::write( m, b.data() + put, got - put ); if ( r <= 0 ) break; put += r; }
    ::close( s );
    path = "/proc/self/fd/" + std::to_string( m );
  }
  void * h = dlopen( path.c_str(), RTLD_NOW | RTLD_LOCAL );
  if ( !h ) { fprintf( stderr, "sim: dlopen %s: %s\n", so.c_str(), dlerror() ); _exit( 70 ); }
  return h;
}
Node * node_start( const std::string & name, const std::string & so, const std::vector<std::string> & args, std::function<void( Node * )> before, u64 when )
{
  InSim _;
  Node * n = new Node;
  n->id = W.nodes.size(); n->name = name; n->args = args;
  for ( auto & a : n->args ) n->argv.push_back( const_cast<char *>( a.c_str() ) );
  n->argv.push_back( nullptr );
  W.nodes.push_back( n );
  if ( before ) before( n );
  n->handle = get_instance( so, n );
  int ( *mainfn )( int, char ** ) = (int ( * )( int, char ** )) dlsym( n->handle, "sim_main" );
  if ( !mainfn ) { fprintf( stderr, "sim: no main in %s\n", so.c_str() ); _exit( 70 ); }
  n->st = Node::RUNNING;
  Thread * t = thread_new( n, tramp, new Tramp{ n, mainfn } );
  n->main_thread = t;
  if ( when > W.now ) { t->blocked = true; t->deadline = when; }
  logf( "node %s starts (%s)", name.c_str(), so.c_str() );
  return n;
}

// ---------- driver ----------
static void terminate_handler()
{
  std::string why = "terminate";
  if ( tls_cur ) tls_cur->in_sim++;
  std::type_info * ti = abi::__cxa_current_exception_type();
  if ( ti ) {
    why = std::string( "uncaught " ) + ti->name();
    try { throw; } catch ( const std::exception & e ) { why = std::string( "uncaught exception: " ) + e.what(); } catch ( ... ) {}
  }
  if ( tls_cur ) tls_cur->in_sim--;
  if ( !tls_cur || !tls_cur->node ) { fprintf( stderr, "sim: terminate in simulator: %s\n", why.c_str() ); _exit( 70 ); }
  die_here( Node::DIED, 134, why );
}
static void on_fatal_signal( int sig, siginfo_t * si, void * uc )
{
  if ( !tls_cur || !tls_cur->node || tls_cur->in_sim > 0 ) {
    char b[ 200 ];
    int n = snprintf( b, sizeof b, "sim: signal %d in simulator code (addr %p, pc %p)\n", sig, si->si_addr, (void *) ( (ucontext_t *) uc )->uc_mcontext.gregs[ REG_RIP ] );
    syscall( SYS_write, 2, b, n );
    _exit( 70 );
  }
  char b[ 300 ];
  Dl_info di{}; void * pc = (void *) ( (ucontext_t *) uc )->uc_mcontext.gregs[ REG_RIP ];
  tls_cur->in_sim++;
  dladdr( pc, &di );
  snprintf( b, sizeof b, "signal %d (%s)", sig, sig == SIGSEGV ? "memory fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGABRT ? "abort" : "fault" );
  logf( "fatal signal at %s+0x%lx %s", di.dli_fname ? di.dli_fname : "?", (unsigned long) ( (char *) pc - (char *) di.dli_fbase ), di.dli_sname ? di.dli_sname : "" );
  tls_cur->in_sim--;
  note_crash( b );
  die_here( Node::DIED, 128 + sig, b );
}
void driver_init()
{
  Thread * t = new Thread; t->id = 0; t->in_sim = 1;
  W.threads.push_back( t );
  Ost * o = new Ost; o->assigned = t; ost_of[ t ] = o;
  tls_cur = t;
  std::set_terminate( terminate_handler );
  setup_altstack( altstack_mem() );
  struct sigaction sa{}; sa.sa_sigaction = on_fatal_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for ( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT } ) sigaction( s, &sa, nullptr );
  signal( SIGPIPE, SIG_IGN );
}
void run_world()
{
  Thread * me = tls_cur;
  W.stop = false;
  Thread * t = pick();
  switch_from( me, t );
}
