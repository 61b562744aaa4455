#include <wchar.h>
// libc entry points as seen by the simulated programs. Symbols defined in the executable win
// over libc's for every dlopen'ed program and for libstdc++.
#include "sim.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <linux/videodev2.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__( ( visibility( "default" ) ) )
template<class F> static F real_fn( const char * n ) { return (F) dlsym( RTLD_NEXT, n ); }
#define REAL( name ) ( []() { static auto f = real_fn<decltype( &::name )>( #name ); return f; }() )

Thread * thread_new( Node * n, void * ( *fn )( void * ), void * arg );
void sim_sleep_until( u64 t );

// ---------- threads ----------
EXPORT int pthread_create( pthread_t * pt, const pthread_attr_t * attr, void * ( *fn )( void * ), void * arg )
{
  if ( !active() ) return REAL( pthread_create )( pt, attr, fn, arg );
  sim_point( "pthread_create" );
  InSim _;
  Thread * t = thread_new( tls_cur->node, fn, arg );
  *pt = (pthread_t) t;
  u64 start = W.now;
  if ( W.on_thread_create ) W.on_thread_create( tls_cur->node );
  if ( W.thread_start_cost ) start += W.thread_start_cost( tls_cur->node );
  u64 m;
  if ( W.thread_delay_p > 0 && fault( F_THREAD_DELAY, W.thread_delay_p, &m ) ) start += m % ( W.thread_delay_max + 1 );
  if ( start > W.now ) { t->blocked = true; t->deadline = start; }
  trace_event( 0x7C, t->id );
  return 0;
}
EXPORT int pthread_join( pthread_t pt, void ** ret )
{
  if ( !active() ) return REAL( pthread_join )( pt, ret );
  Thread * t = (Thread *) pt;
  sim_point( "pthread_join" );
  sim_wait( [ t ] { return t->done; }, NEVER, "join" );
  if ( ret ) *ret = t->ret;
  return 0;
}
EXPORT int pthread_detach( pthread_t pt )
{
  if ( !active() ) return REAL( pthread_detach )( pt );
  return 0;
}
EXPORT int pthread_mutex_lock( pthread_mutex_t * m )
{
  if ( !active() ) return REAL( pthread_mutex_lock )( m );
  sim_point( "mutex_lock" );
  if ( ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE && m->__data.__lock && m->__data.__owner == tls_cur->id ) { m->__data.__count++; return 0; }
  if ( m->__data.__lock ) sim_wait( [ m ] { return m->__data.__lock == 0; }, NEVER, "mutex" );
  m->__data.__lock = 1; m->__data.__owner = tls_cur->id; m->__data.__count = 1;
  return 0;
}
EXPORT int pthread_mutex_trylock( pthread_mutex_t * m )
{
  if ( !active() ) return REAL( pthread_mutex_trylock )( m );
  sim_point( "mutex_trylock" );
  if ( m->__data.__lock ) return EBUSY;
  m->__data.__lock = 1; m->__data.__owner = tls_cur->id; m->__data.__count = 1;
  return 0;
}
EXPORT int pthread_mutex_unlock( pthread_mutex_t * m )
{
  if ( !active() ) return REAL( pthread_mutex_unlock )( m );
  if ( ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1 ) { m->__data.__count--; return 0; }
  m->__data.__count = 0; m->__data.__owner = 0; m->__data.__lock = 0;
  sim_point( "mutex_unlock" );
  return 0;
}
struct Waiter { bool woken = false; };
static std::map<void *, std::vector<std::shared_ptr<Waiter>>> & waiters() { static auto * m = new std::map<void *, std::vector<std::shared_ptr<Waiter>>>; return *m; }
static u64 wake_n = 0;
static int wake_some( void * addr, int n )
{
  InSim _;
  auto it = waiters().find( addr );
  if ( it == waiters().end() ) return 0;
  int c = 0;
  while ( c < n && !it->second.empty() ) {
    size_t i = h3( W.cfg.seed, 0x3a4e, wake_n++ ) % it->second.size();
    it->second[ i ]->woken = true;
    it->second.erase( it->second.begin() + i );
    c++;
  }
  if ( it->second.empty() ) waiters().erase( it );
  return c;
}
static bool wait_on( void * addr, std::shared_ptr<Waiter> w, u64 deadline, const char * why )
{
  // the caller has already registered w
  u64 m, d = deadline;
  if ( W.spurious_p > 0 && fault( F_SPURIOUS_WAKE, W.spurious_p, &m ) ) { InSim _; u64 s = W.now + m % ( 20 * MS ); if ( s < d ) d = s; }
  bool ok = sim_wait( [ w ] { return w->woken; }, d, why );
  if ( !ok ) {
    InSim _;
    auto it = waiters().find( addr );
    if ( it != waiters().end() ) {
      for ( size_t i = 0; i < it->second.size(); i++ ) if ( it->second[ i ] == w ) { it->second.erase( it->second.begin() + i ); break; }
      if ( it->second.empty() ) waiters().erase( it );
    }
  }
  return ok;
}
static std::shared_ptr<Waiter> reg_wait( void * addr ) { InSim _; auto w = std::make_shared<Waiter>(); waiters()[ addr ].push_back( w ); return w; }
static u64 deadline_from( clockid_t c, const timespec * ts )
{
  if ( !ts ) return NEVER;
  int64_t t = (int64_t) ts->tv_sec * (int64_t) SEC + ts->tv_nsec;
  int64_t now = c == CLOCK_MONOTONIC ? (int64_t) ( W.now + 1000 * SEC ) : (int64_t) node_realtime( tls_cur->node );
  int64_t d = t - now;
  return d <= 0 ? W.now : W.now + d;
}
static int cond_wait( pthread_cond_t * c, pthread_mutex_t * m, u64 deadline )
{
  sim_point( "cond_wait" ); // whoever does not need the mutex may come in between the test of the condition and the wait
  auto w = reg_wait( c );
  pthread_mutex_unlock( m );
  bool ok = wait_on( c, w, deadline, "cond" );
  int r = ( !ok && W.now >= deadline ) ? ETIMEDOUT : 0;
  { InSim _; w.reset(); }
  pthread_mutex_lock( m );
  return r;
}
EXPORT int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
  if ( !active() ) return REAL( pthread_cond_wait )( c, m );
  return cond_wait( c, m, NEVER );
}
EXPORT int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const timespec * ts )
{
  if ( !active() ) return REAL( pthread_cond_timedwait )( c, m, ts );
  return cond_wait( c, m, deadline_from( CLOCK_REALTIME, ts ) );
}
EXPORT int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t ck, const timespec * ts )
{
  if ( !active() ) return ETIMEDOUT;
  return cond_wait( c, m, deadline_from( ck, ts ) );
}
EXPORT int pthread_cond_signal( pthread_cond_t * c )
{
  if ( !active() ) return REAL( pthread_cond_signal )( c );
  sim_point( "cond_signal" );
  wake_some( c, 1 );
  return 0;
}
EXPORT int pthread_cond_broadcast( pthread_cond_t * c )
{
  if ( !active() ) return REAL( pthread_cond_broadcast )( c );
  sim_point( "cond_broadcast" );
  wake_some( c, 1 << 30 );
  return 0;
}
EXPORT int pthread_cond_destroy( pthread_cond_t * c )
{
  if ( !active() ) return REAL( pthread_cond_destroy )( c );
  return 0;
}
EXPORT int pthread_once( pthread_once_t * o, void ( *fn )( void ) )
{
  if ( !active() ) { if ( *o == 2 ) return 0; if ( *o == 0 ) { *o = 1; fn(); *o = 2; } return 0; }
  if ( *o == 2 ) return 0;
  if ( *o == 1 ) { sim_wait( [ o ] { return *o != 1; }, NEVER, "once" ); return pthread_once( o, fn ); }
  *o = 1;
  try { fn(); } catch ( ... ) { *o = 0; throw; }
  *o = 2;
  return 0;
}
EXPORT long syscall( long n, ... )
{
  va_list ap; va_start( ap, n );
  long a[ 6 ]; for ( auto & x : a ) x = va_arg( ap, long );
  va_end( ap );
  if ( n == SYS_futex && active() ) {
    int * addr = (int *) a[ 0 ]; int op = a[ 1 ] & FUTEX_CMD_MASK; int val = a[ 2 ];
    bool rt = a[ 1 ] & FUTEX_CLOCK_REALTIME;
    if ( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET ) { sim_point( "futex_wake" ); return wake_some( addr, val ); }
    if ( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET ) {
      sim_point( "futex_wait" );
      if ( *(volatile int *) addr != val ) { errno = EAGAIN; return -1; }
      u64 d = NEVER; const timespec * ts = (const timespec *) a[ 3 ];
      if ( ts ) d = op == FUTEX_WAIT ? W.now + ts->tv_sec * SEC + ts->tv_nsec : deadline_from( rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts );
      auto w = reg_wait( addr );
      bool ok = wait_on( addr, w, d, "futex" );
      bool to = !ok && W.now >= d;
      { InSim _; w.reset(); }
      if ( to ) { errno = ETIMEDOUT; return -1; }
      if ( !ok ) { errno = EINTR; return -1; }
      return 0;
    }
  }
  return REAL( syscall )( n, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ], a[ 4 ], a[ 5 ] );
}
EXPORT int sched_yield()
{
  if ( !active() ) return REAL( sched_yield )();
  sim_point( "sched_yield" );
  return 0;
}

// ---------- time ----------
static const u64 MONO = 1000 * SEC;
EXPORT int clock_gettime( clockid_t c, timespec * ts ) noexcept
{
  if ( !active() ) return REAL( clock_gettime )( c, ts );
  if ( W.clock_points ) sim_point( "clock_gettime" );
  W.now += 40;
  u64 t = ( c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ) ? node_realtime( tls_cur->node ) : W.now + MONO;
  ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
  return 0;
}
EXPORT int gettimeofday( timeval * tv, void * tz ) noexcept
{
  if ( !active() ) return REAL( gettimeofday )( tv, (struct timezone *) tz );
  u64 t = node_realtime( tls_cur->node );
  tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000;
  return 0;
}
EXPORT time_t time( time_t * p ) noexcept
{
  u64 t = active() ? node_realtime( tls_cur->node ) / SEC : 1500000000;
  if ( p ) *p = t;
  return t;
}
EXPORT int nanosleep( const timespec * ts, timespec * )
{
  if ( !active() ) return REAL( nanosleep )( ts, nullptr );
  u64 until = W.now + ts->tv_sec * SEC + ts->tv_nsec;
  sim_point( "nanosleep" );
  sim_sleep_until( until );
  return 0;
}
EXPORT int clock_nanosleep( clockid_t c, int flags, const timespec * ts, timespec * r )
{
  if ( !active() ) return REAL( clock_nanosleep )( c, flags, ts, r );
  u64 until = ( flags & TIMER_ABSTIME ) ? deadline_from( c, ts ) : W.now + ts->tv_sec * SEC + ts->tv_nsec;
  sim_point( "clock_nanosleep" );
  sim_sleep_until( until );
  return 0;
}
EXPORT int usleep( useconds_t us )
{
  if ( !active() ) return REAL( usleep )( us );
  sim_sleep_until( W.now + us * US );
  return 0;
}
EXPORT int rand() noexcept
{
  static u64 n = 0;
  if ( !active() ) return h2( 1, n++ ) & 0x7fffffff;
  return h3( W.cfg.seed, 0x8a4d, n++ ) & 0x7fffffff;
}

// ---------- process end ----------
void flush_stdout_of( Node * n );
EXPORT void exit( int st )
{
  if ( !active() ) { real_fn<void ( * )( int )>( "exit" )( st ); __builtin_unreachable(); }
  flush_stdout_of( tls_cur->node );
  die_here( Node::EXITED, st & 0xff, "exit()" );
}
EXPORT void abort() noexcept
{
  if ( !active() ) { real_fn<void ( * )()>( "abort" )(); __builtin_unreachable(); }
  die_here( Node::DIED, 134, "abort()" );
}

// ---------- fd layer ----------
ssize_t Fd::read( void *, size_t ) { errno = EBADF; return -1; }
ssize_t Fd::write( const void *, size_t ) { errno = EBADF; return -1; }
std::shared_ptr<Fd> fd_get( int fd )
{
  auto & m = tls_cur->node->fds;
  auto it = m.find( fd );
  return it == m.end() ? nullptr : it->second;
}
int fd_new( std::shared_ptr<Fd> f )
{
  auto & m = tls_cur->node->fds;
  int i = 0; while ( m.count( i ) ) i++;
  m[ i ] = f;
  return i;
}
IoRates io_rates;
static bool io_on() { return tls_cur->node->io_faults; }
static bool kill_now_torn()
{
  Node * n = tls_cur->node;
  return n->kill_torn && n->syscalls >= n->kill_at_syscall;
}
EXPORT ssize_t read( int fd, void * buf, size_t n )
{
  if ( !active() ) return REAL( read )( fd, buf, n );
  sim_point( "read" );
  if ( kill_now_torn() ) die_here( Node::KILLED, 0, "crash point" );
  InSim _;
  auto f = fd_get( fd );
  if ( !f ) { errno = EBADF; return -1; }
  if ( io_on() ) {
    u64 m;
    if ( fault( F_EINTR, io_rates.eintr ) ) { errno = EINTR; return -1; }
    if ( fault( F_IO_ERROR_READ, io_rates.eread ) ) { errno = EIO; return -1; }
    if ( n > 1 && fault( F_SHORT_READ, io_rates.sread, &m ) ) n = 1 + m % ( n - 1 );
  }
  return f->read( buf, n );
}
EXPORT ssize_t __read_chk( int fd, void * buf, size_t n, size_t ) { return read( fd, buf, n ); }
static ssize_t do_write( std::shared_ptr<Fd> f, const void * buf, size_t n )
{
  if ( io_on() && strcmp( f->kind(), "unix" ) && strcmp( f->kind(), "udp" ) ) {
    u64 m;
    if ( fault( F_EINTR, io_rates.eintr ) ) { errno = EINTR; return -1; }
    if ( fault( F_IO_ERROR_WRITE, io_rates.ewrite ) ) { errno = EIO; return -1; }
    if ( fault( F_ENOSPC, io_rates.enospc, &m ) ) { // the disk fills up: what fits is written, everything after fails
      io_rates.enospc = 1.0;
      if ( n > 1 && ( m & 1 ) ) return f->write( buf, 1 + ( m >> 8 ) % ( n - 1 ) );
      errno = ENOSPC; return -1;
    }
    if ( n > 1 && fault( F_SHORT_WRITE, io_rates.swrite, &m ) ) n = 1 + m % ( n - 1 );
  }
  return f->write( buf, n );
}
EXPORT ssize_t write( int fd, const void * buf, size_t n )
{
  if ( !active() ) return REAL( write )( fd, buf, n );
  sim_point( "write" );
  std::shared_ptr<Fd> f;
  { InSim _;
    f = fd_get( fd );
    if ( !f ) { if ( fd == 2 ) { tls_cur->node->err.append( (const char *) buf, n ); return n; } errno = EBADF; return -1; } }
  if ( kill_now_torn() ) {
    { InSim _; u64 part = h3( W.cfg.seed, 0x7047, tls_cur->node->syscalls ) % ( n + 1 ); if ( part ) f->write( buf, part ); f.reset(); }
    die_here( Node::KILLED, 0, "crash inside a write" );
  }
  ssize_t r;
  { InSim _; r = do_write( f, buf, n ); int e = errno; f.reset(); errno = e; }
  return r;
}
EXPORT ssize_t writev( int fd, const iovec * iov, int cnt )
{
  if ( !active() ) return REAL( writev )( fd, iov, cnt );
  Bytes b;
  { InSim _; for ( int i = 0; i < cnt; i++ ) b.insert( b.end(), (u8 *) iov[ i ].iov_base, (u8 *) iov[ i ].iov_base + iov[ i ].iov_len ); }
  ssize_t r = write( fd, b.data(), b.size() );
  { InSim _; int e = errno; Bytes().swap( b ); errno = e; }
  return r;
}
EXPORT int close( int fd )
{
  if ( !active() ) return REAL( close )( fd );
  sim_point( "close" );
  InSim _;
  auto & m = tls_cur->node->fds;
  auto it = m.find( fd );
  if ( it == m.end() ) { logf( "close of %d, which is not open", fd ); errno = EBADF; return -1; }
  auto f = it->second; m.erase( it );
  if ( f.use_count() == 1 ) f->on_close();
  if ( io_on() && fault( F_CLOSE_FAIL, io_rates.close ) ) { errno = EIO; return -1; }
  return 0;
}

// ---------- files ----------
static std::map<std::string, SimFile *> & vfs() { static auto * m = new std::map<std::string, SimFile *>; return *m; }
static std::vector<std::shared_ptr<SimFile>> & all_files() { static auto * v = new std::vector<std::shared_ptr<SimFile>>; return *v; }
u64 SimFile::size() const { struct stat st; if ( REAL( fstat )( memfd, &st ) ) return 0; return st.st_size; }
SimFile * vfs_get( const std::string & p ) { auto i = vfs().find( p ); return i == vfs().end() ? nullptr : i->second; }
bool vfs_exists( const std::string & p ) { return vfs_get( p ) != nullptr; }
void vfs_remove( const std::string & p ) { vfs().erase( p ); }
static SimFile * vfs_create( const std::string & p )
{
  auto f = std::make_shared<SimFile>();
  f->memfd = memfd_create( "simfile", 0 ); f->path = p;
  if ( f->memfd < 0 ) { fprintf( stderr, "sim: memfd_create failed\n" ); _exit( 70 ); }
  all_files().push_back( f );
  return vfs()[ p ] = f.get();
}
SimFile * vfs_put( const std::string & p, const void * d, size_t n )
{
  InSim _;
  SimFile * f = vfs_create( p );
  size_t put = 0;
  while ( put < n ) { ssize_t r = pwrite( f->memfd, (const u8 *) d + put, n - put, put ); if ( r <= 0 ) _exit( 70 ); put += r; }
  return f;
}
// developer aid: the simulated files as they are at the end
void vfs_dump( const std::string & dir )
{
  for ( auto & f : vfs() ) { Bytes b = vfs_read( f.first ); std::string n = f.first; for ( auto & c : n ) if ( c == '/' ) c = '_'; int fd = syscall( SYS_openat, AT_FDCWD, ( dir + "/" + n ).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( fd < 0 ) continue; syscall( SYS_write, fd, b.data(), b.size() ); syscall( SYS_close, fd ); }
}
Bytes vfs_read( const std::string & p )
{
  InSim _;
  SimFile * f = vfs_get( p );
  if ( !f ) return {};
  Bytes b( f->size() ); size_t got = 0;
  while ( got < b.size() ) { ssize_t r = pread( f->memfd, b.data() + got, b.size() - got, got ); if ( r <= 0 ) break; got += r; }
  return b;
}
ssize_t FileFd::read( void * b, size_t n )
{
  if ( ( flags & O_ACCMODE ) == O_WRONLY ) { errno = EBADF; return -1; }
  ssize_t r = pread( f->memfd, b, n, pos ); if ( r > 0 ) pos += r; return r;
}
ssize_t FileFd::write( const void * b, size_t n )
{
  if ( ( flags & O_ACCMODE ) == O_RDONLY ) { errno = EBADF; return -1; }
  if ( flags & O_APPEND ) pos = f->size();
  ssize_t r = pwrite( f->memfd, b, n, pos ); if ( r > 0 ) pos += r;
  trace_event( 0xF1, n, hbytes( b, r > 0 ? r : 0 ) );
  return r;
}
short FileFd::poll() { return POLLIN | POLLOUT; }
ssize_t PipeIn::read( void * b, size_t n )
{
  if ( pos >= data.size() && !eof ) sim_wait( [ this ] { return pos < data.size() || eof; }, NEVER, "pipe read" );
  size_t k = std::min( n, data.size() - pos );
  if ( k ) memcpy( b, data.data() + pos, k );
  pos += k;
  return k;
}
short PipeIn::poll() { return ( pos < data.size() || eof ) ? POLLIN : 0; }
ssize_t PipeOut::write( const void * b, size_t n )
{
  if ( room ) {
    if ( room() == 0 ) sim_wait( [ this ] { return room() > 0; }, NEVER, "pipe write" );
    n = std::min<u64>( n, room() );
  }
  data.insert( data.end(), (const u8 *) b, (const u8 *) b + n );
  trace_event( 0xF2, n, hbytes( b, n ) );
  if ( on_write ) on_write( (const u8 *) b, n );
  return n;
}
short PipeOut::poll() { return POLLOUT; }

struct CamFd : Fd { // one opened capture device
  Camera * cam; Node * node; u32 fmt = 0; int w = 0, h = 0; size_t len = 0;
  struct Buf { u8 * mem = nullptr; u64 picture = 0; u64 used = 0; bool queued = false; };
  std::vector<Buf> bufs; std::deque<int> queued, filled; bool on = false;
  u64 next_picture = 0, dequeued = 0, stall_until = 0, next_due = 0;
  std::map<u64, Picture> pics;
  CamFd( Camera * c, Node * n ) : cam( c ), node( n ) {}
  const char * kind() const override { return "camera"; }
  short poll() override { return filled.empty() ? 0 : POLLIN; }
  size_t frame_len() const { return fmt == V4L2_PIX_FMT_YUYV ? (size_t) w * h * 2 : fmt == V4L2_PIX_FMT_MJPEG ? (size_t) w * h * 4 + 65536 : (size_t) w * h * 3 / 2; }
  void fill( int i );
  void tick();
  void pump() { while ( cam->on_demand && on && !queued.empty() && next_picture < cam->limit ) { int i = queued.front(); queued.pop_front(); fill( i ); } }
  int ioctl( unsigned long req, void * arg );
  void on_close() override { on = false; }
};
std::map<std::string, Camera *> cameras;
Bytes make_jpeg( const Picture & p );
void CamFd::fill( int i )
{
  Buf & b = bufs[ i ];
  b.picture = next_picture++;
  Picture p = cam->source( b.picture );
  size_t n = (size_t) w * h;
  b.used = frame_len();
  if ( fmt == V4L2_PIX_FMT_NV12 ) {
    memcpy( b.mem, p.y.data(), n );
    for ( size_t k = 0; k < n / 4; k++ ) { b.mem[ n + 2 * k ] = p.u[ k ]; b.mem[ n + 2 * k + 1 ] = p.v[ k ]; }
  } else if ( fmt == V4L2_PIX_FMT_YUV420 ) {
    memcpy( b.mem, p.y.data(), n ); memcpy( b.mem + n, p.u.data(), n / 4 ); memcpy( b.mem + n * 5 / 4, p.v.data(), n / 4 );
  } else if ( fmt == V4L2_PIX_FMT_YUYV ) {
    for ( size_t k = 0; k < n; k++ ) b.mem[ 2 * k ] = p.y[ k ];
    for ( int r = 0; r < h; r++ ) for ( int c = 0; c < w / 2; c++ ) {
      // odd rows carry different chroma: it must not leak into the 4:2:0 picture
      u8 d = ( r & 1 ) ? 0x55 : 0;
      b.mem[ (size_t) r * w * 2 + c * 4 + 1 ] = p.u[ ( r / 2 ) * ( w / 2 ) + c ] ^ d;
      b.mem[ (size_t) r * w * 2 + c * 4 + 3 ] = p.v[ ( r / 2 ) * ( w / 2 ) + c ] ^ d;
    }
  } else if ( fmt == V4L2_PIX_FMT_MJPEG ) {
    Bytes j = make_jpeg( p );
    if ( j.size() > frame_len() ) j.resize( frame_len() );
    memcpy( b.mem, j.data(), j.size() ); b.used = j.size();
  }
  pics[ b.picture ] = std::move( p );
  filled.push_back( i );
  trace_event( 0xCA, b.picture );
}
void CamFd::tick()
{
  if ( !on ) return;
  u64 m;
  static const double p = W.cfg.d( "cam_stall_p", 0 );
  u64 extra = 0;
  if ( p > 0 && fault( F_CAM_STALL, p, &m ) ) extra = m % ( 700 * MS );
  if ( next_picture < cam->limit ) {
    if ( !queued.empty() ) { int i = queued.front(); queued.pop_front(); fill( i ); }
    else { next_picture++; W.counters[ "camera_dropped" ]++; }
  }
  at( W.now + cam->interval + extra, [ this ] { tick(); } );
}
int CamFd::ioctl( unsigned long req, void * arg )
{
  switch ( req ) {
  case VIDIOC_QUERYCAP: { auto * c = (v4l2_capability *) arg; memset( c, 0, sizeof *c ); c->capabilities = V4L2_CAP_VIDEO_CAPTURE | V4L2_CAP_STREAMING; return 0; }
  case VIDIOC_S_FMT: {
    auto * f = (v4l2_format *) arg;
    fmt = f->fmt.pix.pixelformat; w = f->fmt.pix.width; h = f->fmt.pix.height;
    f->fmt.pix.sizeimage = frame_len();
    return 0; }
  case VIDIOC_REQBUFS: {
    auto * r = (v4l2_requestbuffers *) arg;
    len = ( frame_len() + 4095 ) / 4096 * 4096;
    bufs.resize( r->count );
    for ( auto & b : bufs ) { b.mem = (u8 *) REAL( mmap )( nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); memset( b.mem, 0xEE, len ); }
    return 0; }
  case VIDIOC_QUERYBUF: {
    auto * b = (v4l2_buffer *) arg;
    if ( b->index >= bufs.size() ) { errno = EINVAL; return -1; }
    b->length = len; b->m.offset = b->index * 0x100000; b->flags = 0; return 0; }
  case VIDIOC_QBUF: {
    auto * b = (v4l2_buffer *) arg;
    if ( b->index >= bufs.size() || bufs[ b->index ].queued ) { if ( cam->on_misuse ) cam->on_misuse( "buffer returned to the device twice" ); errno = EINVAL; return -1; }
    bufs[ b->index ].queued = true;
    // the device may overwrite a returned buffer at once
    memset( bufs[ b->index ].mem, 0x11 + 7 * ( dequeued & 15 ), len );
    queued.push_back( b->index );
    if ( cam->on_requeue ) cam->on_requeue( node );
    pump();
    return 0; }
  case VIDIOC_STREAMON: on = true; if ( cam->on_demand ) pump(); else at( W.now + cam->interval, [ this ] { tick(); } ); return 0;
  case VIDIOC_STREAMOFF: on = false; return 0;
  case VIDIOC_DQBUF: {
    auto * b = (v4l2_buffer *) arg;
    if ( cam->on_dequeue_call ) cam->on_dequeue_call( node, dequeued );
    if ( !on ) { errno = EINVAL; return -1; }
    sim_wait( [ this ] { return !filled.empty(); }, NEVER, "camera" );
    int i = filled.front(); filled.pop_front();
    bufs[ i ].queued = false;
    b->index = i; b->bytesused = bufs[ i ].used; b->sequence = bufs[ i ].picture; b->length = len; b->m.offset = i * 0x100000; b->flags = V4L2_BUF_FLAG_DONE;
    dequeued++;
    trace_event( 0xCB, bufs[ i ].picture );
    logf( "camera picture %lu dequeued", bufs[ i ].picture );
    if ( cam->on_dequeue ) cam->on_dequeue( node, bufs[ i ].picture, pics.at( bufs[ i ].picture ) );
    pics.erase( bufs[ i ].picture );
    return 0; }
  }
  errno = ENOTTY;
  return -1;
}
EXPORT int ioctl( int fd, unsigned long req, ... ) noexcept
{
  va_list ap; va_start( ap, req ); void * arg = va_arg( ap, void * ); va_end( ap );
  if ( !active() ) return REAL( ioctl )( fd, req, arg );
  sim_point( "ioctl" );
  InSim _;
  auto f = fd_get( fd );
  if ( !f ) { errno = EBADF; return -1; }
  if ( auto c = dynamic_cast<CamFd *>( f.get() ) ) return c->ioctl( req, arg );
  errno = ENOTTY;
  return -1;
}

static int do_open( const char * path, int flags )
{
  sim_point( "open" );
  if ( kill_now_torn() ) die_here( Node::KILLED, 0, "crash point" );
  InSim _;
  std::string p = path;
  logf( "open %s flags %x", path, flags );
  if ( cameras.count( p ) ) return fd_new( std::make_shared<CamFd>( cameras[ p ], tls_cur->node ) );
  if ( io_on() && fault( F_OPEN_FAIL, io_rates.open ) ) { errno = EMFILE; return -1; }
  SimFile * f = vfs_get( p );
  if ( f || ( flags & O_CREAT ) ) tls_cur->node->opened.insert( p );
  if ( !f ) {
    if ( !( flags & O_CREAT ) ) { errno = ENOENT; return -1; }
    f = vfs_create( p );
  } else if ( ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }
  if ( flags & O_TRUNC ) { if ( REAL( ftruncate )( f->memfd, 0 ) ) {} }
  return fd_new( std::make_shared<FileFd>( f, flags ) );
}
EXPORT int open( const char * path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); mode_t m = va_arg( ap, int ); va_end( ap );
  if ( !active() ) return REAL( open )( path, flags, m );
  return do_open( path, flags );
}
EXPORT int open64( const char * path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); mode_t m = va_arg( ap, int ); va_end( ap );
  if ( !active() ) return REAL( open64 )( path, flags, m );
  return do_open( path, flags );
}
EXPORT int fstat( int fd, struct stat * st ) noexcept
{
  if ( !active() ) return REAL( fstat )( fd, st );
  InSim _;
  auto f = fd_get( fd );
  if ( !f ) { errno = EBADF; return -1; }
  if ( io_on() && fault( F_STAT_FAIL, io_rates.stat ) ) { errno = EIO; return -1; }
  memset( st, 0, sizeof *st );
  if ( auto x = dynamic_cast<FileFd *>( f.get() ) ) { st->st_size = x->f->size(); st->st_mode = S_IFREG | 0644; st->st_blksize = 4096; }
  else st->st_mode = S_IFIFO | 0600;
  return 0;
}
EXPORT int fstat64( int fd, struct stat64 * st ) noexcept { return fstat( fd, (struct stat *) st ); }
EXPORT off_t lseek( int fd, off_t o, int wh ) noexcept
{
  if ( !active() ) return REAL( lseek )( fd, o, wh );
  InSim _;
  auto f = fd_get( fd );
  auto x = f ? dynamic_cast<FileFd *>( f.get() ) : nullptr;
  if ( !x ) { errno = f ? ESPIPE : EBADF; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t) x->pos : (int64_t) x->f->size();
  if ( base + o < 0 ) { errno = EINVAL; return -1; }
  x->pos = base + o;
  return x->pos;
}
EXPORT off64_t lseek64( int fd, off64_t o, int wh ) noexcept { return lseek( fd, o, wh ); }
bool guard_memory = false;
static std::map<void *, std::pair<void *, size_t>> & guard_maps() { static auto * m = new std::map<void *, std::pair<void *, size_t>>; return *m; }
static std::map<void *, size_t> & cam_maps() { static auto * m = new std::map<void *, size_t>; return *m; }
EXPORT void * mmap( void * addr, size_t len, int prot, int flags, int fd, off_t off ) noexcept
{
  if ( !active() ) return REAL( mmap )( addr, len, prot, flags, fd, off );
  sim_point( "mmap" );
  if ( kill_now_torn() ) die_here( Node::KILLED, 0, "crash point" );
  InSim _;
  if ( fd < 0 || ( flags & MAP_ANONYMOUS ) ) return REAL( mmap )( addr, len, prot, flags, -1, 0 );
  auto f = fd_get( fd );
  if ( !f ) { errno = EBADF; return MAP_FAILED; }
  if ( io_on() && fault( F_MMAP_FAIL, io_rates.mmap ) ) { errno = ENOMEM; return MAP_FAILED; }
  if ( auto c = dynamic_cast<CamFd *>( f.get() ) ) {
    size_t i = off / 0x100000;
    if ( i >= c->bufs.size() ) { errno = EINVAL; return MAP_FAILED; }
    cam_maps()[ c->bufs[ i ].mem ] = len;
    return c->bufs[ i ].mem;
  }
  if ( auto x = dynamic_cast<FileFd *>( f.get() ) ) {
    if ( guard_memory && !( prot & PROT_WRITE ) && len && !off ) { // a private copy that ends exactly before an inaccessible page
      size_t t = ( len + 4095 ) / 4096 * 4096;
      u8 * b = (u8 *) REAL( mmap )( nullptr, t + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
      if ( b == MAP_FAILED ) return MAP_FAILED;
      size_t got = 0; while ( got < len ) { ssize_t r = pread( x->f->memfd, b + t - len + got, len - got, got ); if ( r <= 0 ) break; got += r; }
      mprotect( b, t, PROT_READ ); mprotect( b + t, 4096, PROT_NONE );
      guard_maps()[ b + t - len ] = { b, t + 4096 };
      return b + t - len;
    }
    return REAL( mmap )( addr, len, prot, flags, x->f->memfd, off );
  }
  errno = ENODEV;
  return MAP_FAILED;
}
EXPORT void * mmap64( void * a, size_t l, int p, int fl, int fd, off64_t o ) noexcept { return mmap( a, l, p, fl, fd, o ); }
EXPORT int munmap( void * a, size_t l ) noexcept
{
  if ( !active() ) return REAL( munmap )( a, l );
  sim_point( "munmap" );
  if ( kill_now_torn() ) die_here( Node::KILLED, 0, "crash point" );
  InSim _;
  if ( cam_maps().erase( a ) ) return 0;
  auto g = guard_maps().find( a );
  if ( g != guard_maps().end() ) { auto r = g->second; guard_maps().erase( g ); return REAL( munmap )( r.first, r.second ); }
  return REAL( munmap )( a, l );
}
EXPORT int ftruncate( int fd, off_t n ) noexcept
{
  if ( !active() ) return REAL( ftruncate )( fd, n );
  sim_point( "ftruncate" );
  InSim _;
  auto f = fd_get( fd ); auto x = f ? dynamic_cast<FileFd *>( f.get() ) : nullptr;
  if ( !x ) { errno = EBADF; return -1; }
  return REAL( ftruncate )( x->f->memfd, n );
}
EXPORT int fsync( int fd ) { if ( !active() ) return REAL( fsync )( fd ); sim_point( "fsync" ); return 0; }
EXPORT int fdatasync( int fd ) { if ( !active() ) return REAL( fdatasync )( fd ); sim_point( "fdatasync" ); return 0; }
EXPORT int msync( void * a, size_t l, int f ) { if ( !active() ) return REAL( msync )( a, l, f ); sim_point( "msync" ); return 0; }
EXPORT int rename( const char * a, const char * b ) noexcept
{
  if ( !active() ) return REAL( rename )( a, b );
  sim_point( "rename" );
  InSim _;
  SimFile * f = vfs_get( a );
  if ( !f ) { errno = ENOENT; return -1; }
  vfs().erase( a ); vfs()[ b ] = f;
  return 0;
}
EXPORT int unlink( const char * a ) noexcept
{
  if ( !active() ) return REAL( unlink )( a );
  sim_point( "unlink" );
  InSim _;
  if ( !vfs().erase( a ) ) { errno = ENOENT; return -1; }
  return 0;
}
EXPORT int remove( const char * a ) noexcept { if ( !active() ) return REAL( remove )( a ); return unlink( a ); }

// ---------- poll ----------
EXPORT int poll( pollfd * p, nfds_t n, int timeout )
{
  if ( !active() ) return REAL( poll )( p, n, timeout );
  sim_point( "poll" );
  InSim _;
  u64 deadline = timeout < 0 ? NEVER : W.now + (u64) timeout * MS;
  int cnt = 0;
  auto check = [ & ]() {
    cnt = 0;
    Node * nd = tls_cur ? tls_cur->node : nullptr; (void) nd;
    for ( nfds_t i = 0; i < n; i++ ) {
      p[ i ].revents = 0;
      if ( p[ i ].fd < 0 ) continue;
      auto it = nd->fds.find( p[ i ].fd );
      if ( it == nd->fds.end() ) { p[ i ].revents = POLLNVAL; cnt++; continue; }
      short r = it->second->poll();
      p[ i ].revents = r & ( p[ i ].events | POLLERR | POLLHUP );
      if ( p[ i ].revents ) cnt++;
    }
    return cnt > 0;
  };
  if ( !check() ) {
    Node * nd = tls_cur->node;
    sim_wait( [ nd, p, n ] {
      for ( nfds_t i = 0; i < n; i++ ) {
        if ( p[ i ].fd < 0 ) continue;
        auto it = nd->fds.find( p[ i ].fd );
        if ( it == nd->fds.end() ) return true;
        if ( it->second->poll() & ( p[ i ].events | POLLERR | POLLHUP ) ) return true;
      }
      return false; }, deadline, "poll" );
    check();
  }
  trace_event( 0xB0, cnt );
  return cnt;
}
EXPORT int __poll_chk( pollfd * p, nfds_t n, int t, size_t ) { return poll( p, n, t ); }

// ---------- sockets ----------
EXPORT int socket( int domain, int type, int proto ) noexcept
{
  if ( !active() ) return REAL( socket )( domain, type, proto );
  sim_point( "socket" );
  InSim _;
  if ( ( domain != AF_INET && domain != AF_INET6 ) || ( type & 0xf ) != SOCK_DGRAM ) { errno = EAFNOSUPPORT; return -1; }
  auto s = std::make_shared<UdpSock>( tls_cur->node ); s->family = domain;
  return fd_new( s );
}
int udp_bind( UdpSock *, const sockaddr_in & );
sockaddr_in addr_in( const sockaddr * a );
socklen_t addr_out( const sockaddr_in & a, int family, void * out, size_t room );
void udp_autobind( UdpSock * );
ssize_t udp_send( UdpSock *, const sockaddr_in &, const void *, size_t );
static UdpSock * udp( int fd ) { auto f = fd_get( fd ); return f ? dynamic_cast<UdpSock *>( f.get() ) : nullptr; }
EXPORT int bind( int fd, const sockaddr * a, socklen_t l ) noexcept
{
  if ( !active() ) return REAL( bind )( fd, a, l );
  sim_point( "bind" );
  InSim _;
  auto s = udp( fd ); if ( !s ) { errno = ENOTSOCK; return -1; }
  return udp_bind( s, addr_in( a ) );
}
EXPORT int connect( int fd, const sockaddr * a, socklen_t l )
{
  if ( !active() ) return REAL( connect )( fd, a, l );
  sim_point( "connect" );
  InSim _;
  auto s = udp( fd ); if ( !s ) { errno = ENOTSOCK; return -1; }
  s->peer = addr_in( a ); s->connected = true;
  udp_autobind( s );
  return 0;
}
EXPORT int setsockopt( int fd, int lv, int opt, const void * v, socklen_t l ) noexcept
{
  if ( !active() ) return REAL( setsockopt )( fd, lv, opt, v, l );
  InSim _;
  auto s = udp( fd ); if ( !s ) { errno = ENOTSOCK; return -1; }
  if ( lv == SOL_SOCKET && opt == SO_TIMESTAMPNS ) s->ts = *(const int *) v;
  return 0;
}
EXPORT int getsockopt( int fd, int lv, int opt, void * v, socklen_t * l ) noexcept
{
  if ( !active() ) return REAL( getsockopt )( fd, lv, opt, v, l );
  InSim _;
  auto f = fd_get( fd ); if ( !f ) { errno = EBADF; return -1; }
  bool un = !strcmp( f->kind(), "unix" );
  if ( lv == SOL_SOCKET && opt == SO_DOMAIN ) { *(int *) v = un ? AF_UNIX : ( (UdpSock *) f.get() )->family; *l = 4; return 0; }
  if ( lv == SOL_SOCKET && opt == SO_TYPE ) { *(int *) v = SOCK_DGRAM; *l = 4; return 0; }
  if ( lv == SOL_SOCKET && opt == SO_ERROR ) { *(int *) v = 0; *l = 4; return 0; }
  errno = ENOPROTOOPT;
  return -1;
}
EXPORT int getsockname( int fd, sockaddr * a, socklen_t * l ) noexcept
{
  if ( !active() ) return REAL( getsockname )( fd, a, l );
  InSim _;
  auto s = udp( fd ); if ( !s ) { errno = ENOTSOCK; return -1; }
  *l = addr_out( s->local, s->family, a, *l ); return 0;
}
EXPORT int getpeername( int fd, sockaddr * a, socklen_t * l ) noexcept
{
  if ( !active() ) return REAL( getpeername )( fd, a, l );
  InSim _;
  auto s = udp( fd ); if ( !s || !s->connected ) { errno = ENOTCONN; return -1; }
  *l = addr_out( s->peer, s->family, a, *l ); return 0;
}
EXPORT int socketpair( int d, int t, int p, int sv[ 2 ] ) noexcept
{
  if ( !active() ) return REAL( socketpair )( d, t, p, sv );
  sim_point( "socketpair" );
  InSim _;
  auto a = std::make_shared<UnixDg>(), b = std::make_shared<UnixDg>();
  a->in = b->out = std::make_shared<std::deque<Bytes>>();
  b->in = a->out = std::make_shared<std::deque<Bytes>>();
  sv[ 0 ] = fd_new( a ); sv[ 1 ] = fd_new( b );
  return 0;
}
EXPORT int pipe( int sv[ 2 ] ) noexcept
{
  if ( !active() ) return REAL( pipe )( sv );
  int t[ 2 ]; int r = socketpair( AF_UNIX, SOCK_DGRAM, 0, t ); sv[ 0 ] = t[ 0 ]; sv[ 1 ] = t[ 1 ]; return r;
}
ssize_t UnixDg::read( void * b, size_t n )
{
  if ( in->empty() ) sim_wait( [ this ] { return !in->empty(); }, NEVER, "unix read" );
  Bytes d = in->front(); in->pop_front();
  size_t k = std::min( n, d.size() ); memcpy( b, d.data(), k );
  return k;
}
ssize_t UnixDg::write( const void * b, size_t n )
{
  if ( out->size() > 64 ) sim_wait( [ this ] { return out->size() <= 64; }, NEVER, "unix write" );
  out->push_back( Bytes( (const u8 *) b, (const u8 *) b + n ) );
  if ( tls_cur->node && tls_cur != tls_cur->node->main_thread ) tls_cur->node->nonmain_pipe_write = W.now;
  return n;
}
short UnixDg::poll() { return ( in->empty() ? 0 : POLLIN ) | POLLOUT; }
EXPORT ssize_t sendto( int fd, const void * b, size_t n, int flags, const sockaddr * a, socklen_t l )
{
  if ( !active() ) return REAL( sendto )( fd, b, n, flags, a, l );
  sim_point( "sendto" );
  InSim _;
  auto s = udp( fd ); if ( !s ) { auto f = fd_get( fd ); if ( f ) return f->write( b, n ); errno = ENOTSOCK; return -1; }
  if ( !a && !s->connected ) { errno = EDESTADDRREQ; return -1; }
  udp_autobind( s );
  return udp_send( s, a ? addr_in( a ) : s->peer, b, n );
}
EXPORT ssize_t send( int fd, const void * b, size_t n, int flags ) { if ( !active() ) return REAL( send )( fd, b, n, flags ); return sendto( fd, b, n, flags, nullptr, 0 ); }
EXPORT ssize_t sendmsg( int fd, const msghdr * h, int flags )
{
  if ( !active() ) return REAL( sendmsg )( fd, h, flags );
  Bytes b; { InSim _; for ( size_t i = 0; i < h->msg_iovlen; i++ ) b.insert( b.end(), (u8 *) h->msg_iov[ i ].iov_base, (u8 *) h->msg_iov[ i ].iov_base + h->msg_iov[ i ].iov_len ); }
  ssize_t r = sendto( fd, b.data(), b.size(), flags, (const sockaddr *) h->msg_name, h->msg_namelen );
  { InSim _; int e = errno; Bytes().swap( b ); errno = e; }
  return r;
}
std::function<void( Node * )> on_udp_recv_call;
std::function<void( Node *, const Dgram & )> on_udp_recv;
EXPORT ssize_t recvmsg( int fd, msghdr * h, int flags )
{
  if ( !active() ) return REAL( recvmsg )( fd, h, flags );
  sim_point( "recvmsg" );
  InSim _;
  auto s = udp( fd );
  if ( !s ) { errno = ENOTSOCK; return -1; }
  if ( on_udp_recv_call ) on_udp_recv_call( s->node );
  if ( s->q.empty() ) {
    if ( flags & MSG_DONTWAIT ) { errno = EAGAIN; return -1; }
    sim_wait( [ s ] { return !s->q.empty(); }, NEVER, "recvmsg" );
  }
  Dgram d = s->q.front(); s->q.pop_front();
  size_t off = 0;
  for ( size_t i = 0; i < h->msg_iovlen && off < d.data.size(); i++ ) {
    size_t k = std::min( h->msg_iov[ i ].iov_len, d.data.size() - off );
    memcpy( h->msg_iov[ i ].iov_base, d.data.data() + off, k ); off += k;
  }
  h->msg_flags = off < d.data.size() ? MSG_TRUNC : 0;
  if ( h->msg_name ) { h->msg_namelen = addr_out( d.from, s->family, h->msg_name, h->msg_namelen ); }
  if ( h->msg_control && s->ts && h->msg_controllen >= CMSG_SPACE( sizeof( timespec ) ) ) {
    cmsghdr * c = (cmsghdr *) h->msg_control;
    c->cmsg_level = SOL_SOCKET; c->cmsg_type = SO_TIMESTAMPNS; c->cmsg_len = CMSG_LEN( sizeof( timespec ) );
    timespec ts{ (time_t) ( d.arrival_rt_ns / SEC ), (long) ( d.arrival_rt_ns % SEC ) };
    memcpy( CMSG_DATA( c ), &ts, sizeof ts );
    h->msg_controllen = CMSG_SPACE( sizeof( timespec ) );
  } else h->msg_controllen = 0;
  trace_event( 0x4E, s->node->id, hbytes( d.data.data(), d.data.size() ) );
  if ( on_udp_recv ) on_udp_recv( s->node, d );
  return off;
}
EXPORT ssize_t recvfrom( int fd, void * b, size_t n, int flags, sockaddr * a, socklen_t * l )
{
  if ( !active() ) return REAL( recvfrom )( fd, b, n, flags, a, l );
  iovec io{ b, n }; msghdr h{}; h.msg_iov = &io; h.msg_iovlen = 1; h.msg_name = a; h.msg_namelen = l ? *l : 0;
  ssize_t r = recvmsg( fd, &h, flags ); if ( l ) *l = h.msg_namelen; return r;
}
EXPORT ssize_t recv( int fd, void * b, size_t n, int flags ) { if ( !active() ) return REAL( recv )( fd, b, n, flags ); return recvfrom( fd, b, n, flags, nullptr, nullptr ); }

// ---------- stdio ----------
struct SimFILE { int fd; std::string wbuf; bool err = false, eof = false; int unget = -1; };
static std::set<FILE *> & files() { static auto * s = new std::set<FILE *>; return *s; }
static SimFILE * sf( FILE * f ) { return files().count( f ) ? (SimFILE *) f : nullptr; }
static FILE * do_fopen( const char * p, const char * mode )
{
  int fl = mode[ 0 ] == 'r' ? O_RDONLY : mode[ 0 ] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if ( strchr( mode, '+' ) ) fl = ( fl & ~O_ACCMODE ) | O_RDWR;
  int fd = do_open( p, fl );
  if ( fd < 0 ) return nullptr;
  InSim _;
  SimFILE * s = new SimFILE; s->fd = fd;
  files().insert( (FILE *) s );
  return (FILE *) s;
}
EXPORT FILE * fopen( const char * p, const char * m ) { if ( !active() ) return REAL( fopen )( p, m ); return do_fopen( p, m ); }
EXPORT FILE * fopen64( const char * p, const char * m ) { if ( !active() ) return REAL( fopen64 )( p, m ); return do_fopen( p, m ); }
EXPORT int fileno( FILE * f ) noexcept
{
  if ( active() ) {
    InSim _;
    if ( auto s = sf( f ) ) return s->fd;
    if ( f == stdin ) return 0;
    if ( f == stdout ) return 1;
    if ( f == stderr ) return 2;
  }
  return REAL( fileno )( f );
}
static int flush_sf( SimFILE * s )
{
  while ( !s->wbuf.empty() ) {
    ssize_t r = write( s->fd, s->wbuf.data(), s->wbuf.size() );
    if ( r <= 0 ) { s->err = true; return EOF; }
    InSim _;
    s->wbuf.erase( 0, r );
  }
  return 0;
}
void flush_stdout_of( Node * n )
{
  while ( !n->out_buf.empty() ) {
    ssize_t r = write( 1, n->out_buf.data(), n->out_buf.size() );
    if ( r <= 0 ) { n->out_buf_failed = true; InSim _; n->out_buf.clear(); return; }
    InSim _;
    n->out_buf.erase( 0, r );
  }
}
EXPORT int fflush( FILE * f )
{
  if ( !active() ) return REAL( fflush )( f );
  SimFILE * s; { InSim _; s = f ? sf( f ) : nullptr; }
  if ( s ) return flush_sf( s );
  if ( f == stdout || !f ) { flush_stdout_of( tls_cur->node ); return tls_cur->node->out_buf_failed ? EOF : 0; }
  return 0;
}
EXPORT int fclose( FILE * f )
{
  if ( !active() ) return REAL( fclose )( f );
  SimFILE * s; { InSim _; s = sf( f ); }
  if ( !s ) return 0;
  int r = flush_sf( s );
  int c = close( s->fd );
  InSim _;
  files().erase( f ); delete s;
  return r || c ? EOF : 0;
}
static int in_getc( SimFILE * s )
{
  Node * n = tls_cur->node;
  int & un = s ? s->unget : n->stdin_push;
  if ( un >= 0 ) { int c = un; un = -1; return c; }
  u8 b; ssize_t r;
  do { r = read( s ? s->fd : 0, &b, 1 ); } while ( r < 0 && errno == EINTR );
  if ( r <= 0 ) { if ( s ) ( r < 0 ? s->err : s->eof ) = true; else ( r < 0 ? n->stdin_err : n->stdin_eof ) = true; return EOF; }
  return b;
}
EXPORT int getc( FILE * f )
{
  if ( !active() ) return REAL( getc )( f );
  SimFILE * s; { InSim _; s = sf( f ); }
  return in_getc( s );
}
EXPORT int fgetc( FILE * f ) { return getc( f ); }
EXPORT int ungetc( int c, FILE * f )
{
  if ( !active() ) return REAL( ungetc )( c, f );
  SimFILE * s; { InSim _; s = sf( f ); }
  if ( c == EOF ) return EOF;
  ( s ? s->unget : tls_cur->node->stdin_push ) = (u8) c;
  return c;
}
EXPORT size_t fread( void * b, size_t sz, size_t nm, FILE * f )
{
  if ( !active() ) return REAL( fread )( b, sz, nm, f );
  SimFILE * s; { InSim _; s = sf( f ); }
  size_t tot = sz * nm, got = 0;
  while ( got < tot ) { int c = in_getc( s ); if ( c == EOF ) break; ( (u8 *) b )[ got++ ] = c; }
  return sz ? got / sz : 0;
}
EXPORT size_t fwrite( const void * b, size_t sz, size_t nm, FILE * f )
{
  if ( !active() ) return REAL( fwrite )( b, sz, nm, f );
  Node * n = tls_cur->node;
  SimFILE * s;
  { InSim _;
    if ( f == stderr ) { if ( n->err.size() < 200000 ) n->err.append( (const char *) b, sz * nm ); return nm; }
    s = sf( f );
    if ( s ) s->wbuf.append( (const char *) b, sz * nm );
    else n->out_buf.append( (const char *) b, sz * nm ); }
  if ( s ) { if ( s->wbuf.size() >= 4096 && flush_sf( s ) ) return 0; }
  else if ( n->out_buf.size() >= 4096 ) { flush_stdout_of( n ); if ( n->out_buf_failed ) return 0; }
  return nm;
}
EXPORT int putc( int c, FILE * f ) { if ( !active() ) return REAL( putc )( c, f ); u8 b = c; return fwrite( &b, 1, 1, f ) == 1 ? b : EOF; }
EXPORT int fputc( int c, FILE * f ) { if ( !active() ) return REAL( fputc )( c, f ); u8 b = c; return fwrite( &b, 1, 1, f ) == 1 ? b : EOF; }
static wint_t put_wide( wint_t c, FILE * f ) { char b[ 8 ]; mbstate_t m{}; size_t n = wcrtomb( b, (wchar_t) c, &m ); return n != (size_t) -1 && fwrite( b, 1, n, f ) == n ? c : WEOF; }
EXPORT wint_t putwc( wchar_t c, FILE * f ) { return active() ? put_wide( c, f ) : REAL( putwc )( c, f ); }
EXPORT wint_t fputwc( wchar_t c, FILE * f ) { return active() ? put_wide( c, f ) : REAL( fputwc )( c, f ); }
EXPORT int fputs( const char * s, FILE * f ) { if ( !active() ) return REAL( fputs )( s, f ); size_t n = strlen( s ); return fwrite( s, 1, n, f ) == n ? 1 : EOF; }
EXPORT int puts( const char * s ) { if ( !active() ) return REAL( puts )( s ); return fputs( s, stdout ) < 0 ? EOF : fputc( '\n', stdout ); }
EXPORT int fseek( FILE * f, long o, int wh )
{
  if ( !active() ) return REAL( fseek )( f, o, wh );
  SimFILE * s; { InSim _; s = sf( f ); }
  if ( !s ) return -1;
  if ( flush_sf( s ) ) return -1;
  return lseek( s->fd, o, wh ) < 0 ? -1 : 0;
}
EXPORT int fseeko64( FILE * f, off64_t o, int wh ) { if ( !active() ) return REAL( fseeko64 )( f, o, wh ); return fseek( f, o, wh ); }
EXPORT off64_t ftello64( FILE * f ) { if ( !active() ) return REAL( ftello64 )( f ); SimFILE * s; { InSim _; s = sf( f ); } return s ? lseek( s->fd, 0, SEEK_CUR ) : -1; }
EXPORT int setvbuf( FILE * f, char * b, int m, size_t n ) noexcept { if ( !active() ) return REAL( setvbuf )( f, b, m, n ); return 0; }
EXPORT int ferror( FILE * f ) noexcept { if ( !active() ) return REAL( ferror )( f ); InSim _; auto s = sf( f ); return s ? s->err : f == stdin ? tls_cur->node->stdin_err : f == stdout ? tls_cur->node->out_buf_failed : false; }
EXPORT int feof( FILE * f ) noexcept { if ( !active() ) return REAL( feof )( f ); InSim _; auto s = sf( f ); return s ? s->eof : tls_cur->node->stdin_eof; }
