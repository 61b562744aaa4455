// The simulated network: UDP over links with delay, loss, duplication, reordering, partitions and
// a bottleneck queue.
#include "sim.hh"
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <netdb.h>
#include <poll.h>

std::function<void( Node *, const sockaddr_in &, const Bytes & )> on_udp_send;
static std::map<std::pair<u32, int>, UdpSock *> bound;
static std::map<std::pair<u32, u32>, Link> links;
static int next_port = 40000;

sockaddr_in sim_addr( u32 ip, int port )
{
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( ip ); a.sin_port = htons( port ); return a;
}
static u32 ip_of( Node * n ) { if ( !n->ip ) n->ip = 0x0a000001 + n->id; return n->ip; }
Link & link_between( Node * a, Node * b ) { return links[ { ip_of( a ), ip_of( b ) } ]; }
Link & link_ip( u32 a, u32 b ) { return links[ { a, b } ]; }
int udp_bind( UdpSock * s, const sockaddr_in & a )
{
  int port = ntohs( a.sin_port ); if ( !port ) port = next_port++;
  auto key = std::make_pair( ip_of( s->node ), port );
  if ( bound.count( key ) ) { errno = EADDRINUSE; return -1; }
  s->local = sim_addr( ip_of( s->node ), port ); s->bound = true;
  bound[ key ] = s;
  return 0;
}
void udp_autobind( UdpSock * s ) { if ( !s->bound ) udp_bind( s, sim_addr( 0, 0 ) ); }
short UdpSock::poll() { return ( q.empty() ? 0 : POLLIN ) | POLLOUT; }
void UdpSock::on_close()
{
  if ( bound ) ::bound.erase( { ntohl( local.sin_addr.s_addr ), ntohs( local.sin_port ) } );
}
static void deliver( u32 ip, int port, const sockaddr_in & from, const Bytes & data )
{
  auto it = bound.find( { ip, port } );
  if ( it == bound.end() ) { W.counters[ "datagram_to_nobody" ]++; return; }
  UdpSock * s = it->second;
  if ( s->connected && memcmp( &s->peer.sin_addr, &from.sin_addr, 4 ) ) return;
  if ( s->connected && s->peer.sin_port != from.sin_port ) return;
  if ( s->q.size() >= s->qlimit ) { W.counters[ "rcvbuf_drop" ]++; logf( "receive buffer overflow" ); return; }
  trace_event( 0xDE, ip, hbytes( data.data(), data.size() ) );
  u64 rt = node_realtime( s->node );
  s->q.push_back( { from, data, rt } );
}
void udp_inject( Node * to, const sockaddr_in & from, const Bytes & data )
{
  for ( auto & b : bound ) if ( b.first.first == ip_of( to ) ) { deliver( b.first.first, b.first.second, from, data ); return; }
}
void udp_deliver_to( u32 ip, int port, const sockaddr_in & from, const Bytes & data ) { deliver( ip, port, from, data ); }
std::function<bool( u32 src, u32 dst, const Bytes & )> net_script; // true = swallow
static void transmit( u32 sip, u32 dip, int dport, const sockaddr_in & from, const Bytes & data, bool allow_dup );
static void transmit( u32 sip, u32 dip, int dport, const sockaddr_in & from, const Bytes & data, bool allow_dup )
{
  Link & l = links[ { sip, dip } ];
  u64 m;
  if ( l.cut ) { W.counters[ "cut_datagrams" ]++; return; }
  if ( l.loss > 0 && fault( F_NET_LOSS, l.loss ) ) return;
  if ( l.in_burst ) {
    if ( W.now >= l.burst_until ) l.in_burst = false;
    else { W.counters[ "burst_lost" ]++; return; }
  } else if ( l.burst > 0 && fault( F_NET_BURST, l.burst, &m ) ) { l.in_burst = true; l.burst_until = W.now + m % l.burst_max; return; }
  u64 t = W.now;
  if ( l.rate > 0 ) {
    if ( l.busy_until < W.now ) l.busy_until = W.now;
    u64 backlog = (u64) ( ( l.busy_until - W.now ) / 1e9 * l.rate );
    if ( backlog + data.size() > l.queue_bytes ) { W.counters[ "queue_drop" ]++; logf( "queue drop" ); return; }
    l.busy_until += (u64) ( ( data.size() + 28 ) * 1e9 / l.rate );
    t = l.busy_until;
  }
  t += l.delay;
  if ( l.jitter ) t += h3( W.cfg.seed, 0x111, l.n++ ) % l.jitter;
  bool reordered = false;
  if ( l.reorder > 0 && fault( F_NET_REORDER, l.reorder, &m ) ) { t += m % l.reorder_max; reordered = true; }
  if ( l.bigdelay > 0 && fault( F_NET_DELAY, l.bigdelay, &m ) ) { t += m % l.bigdelay_max; reordered = true; }
  if ( !reordered ) { if ( t < l.last_delivery ) t = l.last_delivery; l.last_delivery = t; }
  at( t, [ dip, dport, from, data ] { deliver( dip, dport, from, data ); } );
  if ( allow_dup && l.dup > 0 && fault( F_NET_DUP, l.dup, &m ) ) {
    u64 t2 = t + ( m & 1 ? 0 : ( m >> 1 ) % l.reorder_max );
    at( t2, [ dip, dport, from, data ] { deliver( dip, dport, from, data ); } );
  }
}
void net_transmit( u32 sip, u32 dip, int dport, const sockaddr_in & from, const Bytes & data ) { transmit( sip, dip, dport, from, data, true ); }
ssize_t udp_send( UdpSock * s, const sockaddr_in & to, const void * b, size_t n )
{
  Bytes d( (const u8 *) b, (const u8 *) b + n );
  if ( n > 65507 ) { errno = EMSGSIZE; return -1; }
  trace_event( 0x5E, s->node->id, hbytes( b, n ) );
  if ( on_udp_send ) on_udp_send( s->node, to, d );
  u32 dip = ntohl( to.sin_addr.s_addr );
  if ( net_script && net_script( s->node->ip, dip, d ) ) return n;
  transmit( s->node->ip, dip, ntohs( to.sin_port ), s->local, d, true );
  return n;
}

// address helpers for the AF_INET6 sockets the programs use
sockaddr_in addr_in( const sockaddr * a )
{
  if ( a->sa_family == AF_INET ) return *(const sockaddr_in *) a;
  const sockaddr_in6 * s = (const sockaddr_in6 *) a;
  u32 ip; memcpy( &ip, s->sin6_addr.s6_addr + 12, 4 );
  sockaddr_in r{}; r.sin_family = AF_INET; r.sin_port = s->sin6_port; r.sin_addr.s_addr = ip;
  return r;
}
socklen_t addr_out( const sockaddr_in & a, int family, void * out, size_t room )
{
  if ( family == AF_INET ) { memcpy( out, &a, std::min( room, sizeof a ) ); return sizeof a; }
  sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_port = a.sin_port;
  s.sin6_addr.s6_addr[ 10 ] = s.sin6_addr.s6_addr[ 11 ] = 0xff;
  memcpy( s.sin6_addr.s6_addr + 12, &a.sin_addr.s_addr, 4 );
  memcpy( out, &s, std::min( room, sizeof s ) );
  return sizeof s;
}
#define EXPORT extern "C" __attribute__( ( visibility( "default" ) ) )
struct GaiBox { addrinfo ai; sockaddr_storage ss; };
EXPORT int getaddrinfo( const char * node, const char * service, const addrinfo * hints, addrinfo ** res )
{
  InSim _;
  in_addr ia; if ( !node || !inet_aton( node, &ia ) ) return EAI_NONAME;
  char * e; long port = strtol( service, &e, 10 ); if ( *e || port < 0 || port > 65535 ) return EAI_SERVICE;
  GaiBox * b = (GaiBox *) calloc( 1, sizeof( GaiBox ) );
  sockaddr_in a = sim_addr( ntohl( ia.s_addr ), port );
  int fam = hints && hints->ai_family == AF_INET6 ? AF_INET6 : AF_INET;
  b->ai.ai_family = fam; b->ai.ai_socktype = SOCK_DGRAM; b->ai.ai_addr = (sockaddr *) &b->ss;
  b->ai.ai_addrlen = addr_out( a, fam, &b->ss, sizeof b->ss );
  *res = &b->ai;
  return 0;
}
EXPORT void freeaddrinfo( addrinfo * a ) noexcept { free( a ); }
