// Deterministic simulator: core types.
// One process = one simulated world. Real pthreads carry the simulated threads, but exactly one
// of them runs at any time; a seeded scheduler decides which, and virtual time advances only
// through the event queue. All I/O of the simulated programs ends in this simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

static constexpr u64 US = 1000, MS = 1000000, SEC = 1000000000ull;
static constexpr u64 NEVER = ~0ull;

// ---------- deterministic randomness ----------
u64 mix( u64 a );
u64 h2( u64 a, u64 b );
u64 h3( u64 a, u64 b, u64 c );
u64 hstr( const char * s );
u64 hbytes( const void * p, size_t n, u64 seed = 0xcbf29ce484222325ull );
// A private stream of random numbers, derived from the run seed and a name.
struct Rng {
  u64 key, n = 0;
  explicit Rng( u64 key ) : key( key ) {}
  u64 next() { return h2( key, n++ ); }
  u64 below( u64 m ) { return m ? next() % m : 0; }
  u64 range( u64 lo, u64 hi ) { return lo + below( hi - lo + 1 ); }
  double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  bool chance( double p ) { return unit() < p; }
};

// ---------- faults ----------
enum FaultKind {
  F_NET_LOSS, F_NET_BURST, F_NET_DUP, F_NET_REORDER, F_NET_DELAY, F_NET_PARTITION, F_NET_QUEUE_DROP,
  F_PREEMPT, F_STALL, F_SPURIOUS_WAKE, F_THREAD_DELAY, F_CLOCK_JUMP, F_CAM_STALL, F_DISPLAY_STALL,
  F_NODE_CRASH, F_FOREIGN_ACK, F_RCVBUF_DROP, F_EINTR,
  F_SHORT_READ, F_SHORT_WRITE, F_IO_ERROR_READ, F_IO_ERROR_WRITE, F_ENOSPC, F_OPEN_FAIL, F_MMAP_FAIL,
  F_STAT_FAIL, F_CLOSE_FAIL, F_ALLOC_FAIL, F_TRUNCATED_FILE, F_BITFLIP, F_PIPE_CLOSED, F_STALE_ACK, F_NKINDS
};
extern const char * const fault_name[ F_NKINDS ];
// Ask whether the next opportunity for this kind of fault is taken (probability p).
// *magnitude receives a random number private to that fault.
bool fault( FaultKind k, double p, u64 * magnitude = nullptr );
u64 fault_count( FaultKind k );
u64 fault_total();

struct Node;
struct Fd;
struct Thread {
  int id = 0;
  Node * node = nullptr;
  bool done = false, blocked = false, joined = false, detached = false;
  std::function<bool()> pred;
  u64 deadline = NEVER;
  void * ( *fn )( void * ) = nullptr;
  void * arg = nullptr;
  void * ret = nullptr;
  int baton = 0;
  int in_sim = 0;
  u64 prio = 0;
  u64 last_op = 0;
  u64 next_preempt = 0;
  const char * why = "";
};
extern thread_local Thread * tls_cur;

struct Node {
  int id = 0;
  std::string name;
  void * handle = nullptr;
  std::vector<std::string> args;
  std::vector<char *> argv;
  enum St { NEW, RUNNING, EXITED, DIED, KILLED } st = NEW;
  int exit_status = -1;
  std::string why; // for DIED
  std::map<int, std::shared_ptr<Fd>> fds;
  u32 ip = 0;
  int64_t clock_off = 0; // realtime offset, ns
  std::string err; // captured stderr
  std::string out_buf; // buffered stdio stdout
  bool out_buf_failed = false;
  int stdin_push = -1;
  bool stdin_eof = false;
  Thread * main_thread = nullptr;
  int64_t live_bytes = 0, peak_bytes = 0;
  u64 blocks = 0; // instrumented basic blocks executed
  int saved_optind = 1; char * saved_optarg = nullptr;
  bool io_faults = false;
  u64 syscalls = 0;
  u64 kill_at_syscall = NEVER; bool kill_torn = false; u64 kill_at_block = NEVER; bool stdin_err = false;
  char * opt_next = nullptr; std::set<std::string> opened; // files opened
  u64 nonmain_pipe_write = 0; // when a thread other than the first last wrote to a local socket
  bool salsify = false;
  std::function<void()> on_end;
  bool alive() const { return st == RUNNING; }
};

// ---------- file descriptors ----------
struct Fd {
  virtual ~Fd() {}
  virtual ssize_t read( void *, size_t ) ;
  virtual ssize_t write( const void *, size_t );
  virtual short poll() { return 0; } // POLLIN/POLLOUT readiness
  virtual const char * kind() const = 0;
  virtual void on_close() {}
};

struct SimFile { int memfd = -1; std::string path; bool is_dir = false; u64 size() const; };
SimFile * vfs_get( const std::string & path );
SimFile * vfs_put( const std::string & path, const void * data, size_t n );
void vfs_dump( const std::string & dir );
Bytes vfs_read( const std::string & path );
bool vfs_exists( const std::string & path );
void vfs_remove( const std::string & path );

struct FileFd : Fd {
  SimFile * f; u64 pos = 0; int flags;
  FileFd( SimFile * f, int flags ) : f( f ), flags( flags ) {}
  ssize_t read( void *, size_t ) override;
  ssize_t write( const void *, size_t ) override;
  short poll() override;
  const char * kind() const override { return "file"; }
};
// unidirectional byte pipe whose other end is the scenario
struct PipeIn : Fd { // program reads
  Bytes data; size_t pos = 0; bool eof = true;
  ssize_t read( void *, size_t ) override;
  short poll() override;
  const char * kind() const override { return "pipein"; }
};
struct PipeOut : Fd { // program writes
  Bytes data; std::function<void( const u8 *, size_t )> on_write; std::function<u64()> room;
  u64 capacity = NEVER; u64 drained = 0;
  ssize_t write( const void *, size_t ) override;
  short poll() override;
  const char * kind() const override { return "pipeout"; }
};
struct Dgram { sockaddr_in from; Bytes data; u64 arrival_rt_ns; };
struct UdpSock : Fd {
  Node * node; sockaddr_in local{}, peer{}; bool bound = false, connected = false, ts = false;
  std::deque<Dgram> q; size_t qlimit = 256; int family = AF_INET; u64 last_ts = 0;
  UdpSock( Node * n ) : node( n ) {}
  short poll() override;
  const char * kind() const override { return "udp"; }
  void on_close() override;
};
struct UnixDg : Fd {
  std::shared_ptr<std::deque<Bytes>> in, out;
  ssize_t read( void *, size_t ) override;
  ssize_t write( const void *, size_t ) override;
  short poll() override;
  const char * kind() const override { return "unix"; }
};
struct CamFd;

// ---------- camera ----------
struct Picture { int w = 0, h = 0; Bytes y, u, v; };
struct Camera {
  std::function<Picture( u64 )> source; // content of device picture number i
  std::function<void( Node *, u64 )> on_dequeue_call;   // (node, how many dequeued so far)
  std::function<void( Node *, u64, const Picture & )> on_dequeue; // picture number, content
  std::function<void( Node * )> on_requeue;
  std::function<void( const std::string & )> on_misuse;
  u64 interval = 33333333;
  bool on_demand = false; // a picture is ready whenever a buffer is
  u64 limit = NEVER; // pictures delivered, then the device stalls
  u32 delivered_sequence_gap = 0;
  int max_w = 4096, max_h = 4096;
};
extern std::map<std::string, Camera *> cameras;

// ---------- display ----------
extern std::function<void( Node *, const Picture & )> on_display_draw;
extern std::function<void( Node * )> on_display_open;

// ---------- network ----------
struct Link {
  u64 delay = 20 * MS, jitter = 0; double rate = 0; // bytes per second; 0 = infinite
  u64 queue_bytes = 60000;
  double loss = 0, burst = 0, dup = 0, reorder = 0, bigdelay = 0;
  u64 reorder_max = 60 * MS, bigdelay_max = 400 * MS;
  bool cut = false;
  u64 busy_until = 0, last_delivery = 0, burst_until = 0, burst_max = 300 * MS, n = 0; bool in_burst = false;
};
Link & link_between( Node * a, Node * b );
extern std::function<void( Node *, const sockaddr_in &, const Bytes & )> on_udp_send;   // at the system call
extern std::function<void( Node *, const Dgram & )> on_udp_recv;                        // at the system call
extern std::function<void( Node * )> on_udp_recv_call;
void udp_inject( Node * to, const sockaddr_in & from, const Bytes & data ); // deliver now
sockaddr_in sim_addr( u32 ip, int port );
Link & link_ip( u32 a, u32 b );
void net_transmit( u32 sip, u32 dip, int dport, const sockaddr_in & from, const Bytes & data );
void udp_deliver_to( u32 ip, int port, const sockaddr_in & from, const Bytes & data );
extern std::function<bool( u32 src, u32 dst, const Bytes & )> net_script; // true = swallow the datagram

// ---------- world ----------
struct Config {
  u64 seed = 1;
  std::string prop, profile;
  std::map<std::string, std::string> kv;
  double d( const std::string & k, double def ) const;
  u64 n( const std::string & k, u64 def ) const;
  bool has( const std::string & k ) const { return kv.count( k ) > 0; }
};

struct Violation { std::string cls, msg; u64 t; };
struct World {
  Config cfg;
  u64 now = 0;
  u64 rt_base = 1500000000ull * SEC;
  std::vector<Thread *> threads; // threads[0] is the driver
  std::vector<Node *> nodes;
  std::multimap<u64, std::pair<u64, std::function<void()>>> events;
  u64 event_seq = 0;
  bool stop = false;
  bool deadlock = false;
  u64 steps = 0, max_steps = 20000000;
  u64 end_time = NEVER;
  u64 trace = 0xcbf29ce484222325ull; // running hash of every event
  u64 sched_trace = 0xcbf29ce484222325ull; // hash of the interleaving only
  u64 nevents = 0, nswitches = 0;
  // scheduling policy
  double sticky = 0.0;
  bool prio_mode = false;
  bool clock_points = false; // reading a clock is a point at which threads can switch
  const char * hot_call = nullptr; double hot_call_p = 0; // a kind of call at which threads stall more often in this run
  u64 hot_weight = 1;
  u64 preempt_gap = 0; // mean number of instrumented blocks between preemptions; 0 = none
  double stall_p = 0; u64 stall_max = 5 * MS; // at synchronisation points
  double spurious_p = 0;
  u64 thread_delay_max = 0; double thread_delay_p = 0;
  u64 syscall_cost_max = 3 * US;
  std::function<u64( Node * )> thread_start_cost; // models compute time of a new thread
  std::function<void( Node * )> on_thread_create;
  u64 preempt_stall_max = 5 * MS; // some preemptions last
  std::vector<Violation> violations;
  std::map<std::string, u64> counters;
  bool log_on = false;
  std::vector<std::string> log;
  bool poison = true;
  bool faults_off = false;
  u64 block_budget = NEVER; // instrumented blocks per node before it counts as hung
  double alloc_fail_p = 0; size_t alloc_fail_min = 0;
};
extern World W;
extern u64 alloc_poison_seed;
extern bool reuse_instances; // tools: programs are loaded once
extern bool guard_memory;    // every heap block and file mapping ends at an inaccessible page
extern size_t alloc_limit;   // larger single requests fail
struct IoRates { double eintr = 0, sread = 0, swrite = 0, eread = 0, ewrite = 0, enospc = 0, open = 0, mmap = 0, stat = 0, close = 0; };
extern IoRates io_rates;

void violation( const std::string & cls, const std::string & msg );
void logf( const char * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
void trace_event( u64 a, u64 b = 0, u64 c = 0 );
void at( u64 t, std::function<void()> f );

Node * node_start( const std::string & name, const std::string & so, const std::vector<std::string> & args,
                   std::function<void( Node * )> before = nullptr, u64 when = 0 );
void node_kill( Node * n, const char * why = "killed" );
void node_end( Node * n, Node::St st, int status, const std::string & why ); // called in node context or by the simulator
void run_world(); // returns when stopped
u64 node_realtime( Node * n );

// used by the interposers
void sim_point( const char * what );           // scheduling point, costs a little time
bool sim_wait( std::function<bool()> pred, u64 deadline, const char * why ); // true if pred
struct InSim { InSim(); ~InSim(); Thread * t; };
inline bool active() { return tls_cur && tls_cur->node && !tls_cur->in_sim; }
void die_here( Node::St st, int status, const std::string & why ) __attribute__( ( noreturn ) );
std::shared_ptr<Fd> fd_get( int fd );
int fd_new( std::shared_ptr<Fd> f );
std::string bytes_hex( const Bytes & b, size_t max = 32 );
