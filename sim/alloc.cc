// C++ heap of the simulated programs: accounting per node, poisoned contents, injected failures.
#include "sim.hh"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/mman.h>

struct Hdr { u64 size; u32 magic; int node; };
static_assert( sizeof( Hdr ) == 16, "" );
static constexpr u32 GUARDED = 0x60A4DED1, LIVE = 0xA11C0DE5, DEAD = 0xDEADF00D;
u64 alloc_poison_seed = 0;
static inline u8 poison_byte( int node ) { return (u8) ( 0x80 | ( ( alloc_poison_seed + 37 * node ) & 0x7f ) ); }

size_t alloc_limit = (size_t) 2 << 30;
static size_t guarded_live = 0;
// Room between a block and the guard page. The vector filters load 16 bytes and use up to 13 of them: at the end
// of a plane (a multiple of 64 bytes) they read, and ignore, what malloc has there too.
static size_t room( size_t n ) { return ( ( n + 15 ) & ~(size_t) 15 ) + ( n && n % 64 == 0 ? 16 : 0 ); }
static Thread * t_cur() { return tls_cur; }
static Node * t_node( Thread * t ) { return t->node; }
static void * do_new( size_t n )
{
  Thread * t = tls_cur;
  bool act = t && t->node && !t->in_sim;
  if ( act && W.alloc_fail_p > 0 && n >= W.alloc_fail_min && fault( F_ALLOC_FAIL, W.alloc_fail_p ) ) throw std::bad_alloc();
  if ( act && n > alloc_limit ) throw std::bad_alloc();
  if ( act && guard_memory && guarded_live < 20000 ) {
    size_t a = room( n ), t = ( a + sizeof( Hdr ) + 4095 ) & ~(size_t) 4095;
    InSim _;
    u8 * b = (u8 *) mmap( nullptr, t + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
    if ( b != MAP_FAILED ) {
      mprotect( b + t, 4096, PROT_NONE );
      Hdr * h = (Hdr *) ( b + t - a - sizeof( Hdr ) );
      Node * nd = t_node( t_cur() );
      h->size = n; h->magic = GUARDED; h->node = nd->id;
      guarded_live++;
      nd->live_bytes += n;
      if ( nd->live_bytes > nd->peak_bytes ) nd->peak_bytes = nd->live_bytes;
      memset( h + 1, poison_byte( nd->id ), a );
      return h + 1;
    }
  }
  Hdr * h = (Hdr *) malloc( n + sizeof( Hdr ) );
  if ( !h ) throw std::bad_alloc();
  h->size = n; h->magic = LIVE; h->node = -1;
  if ( act ) {
    Node * nd = t->node;
    h->node = nd->id;
    nd->live_bytes += n;
    if ( nd->live_bytes > nd->peak_bytes ) nd->peak_bytes = nd->live_bytes;
    memset( h + 1, poison_byte( nd->id ), n );
  }
  return h + 1;
}
static void do_delete( void * p )
{
  if ( !p ) return;
  Hdr * h = (Hdr *) p - 1;
  if ( h->magic == GUARDED ) {
    size_t a = room( h->size ), t = ( a + sizeof( Hdr ) + 4095 ) & ~(size_t) 4095;
    bool bad = false;
    for ( size_t i = h->size; i < a; i++ ) if ( ( (u8 *) p )[ i ] != poison_byte( h->node ) ) bad = true;
    if ( (size_t) h->node < W.nodes.size() ) W.nodes[ h->node ]->live_bytes -= h->size;
    guarded_live--;
    { InSim _; munmap( (u8 *) p + a - t, t + 4096 ); }
    if ( bad && active() ) die_here( Node::DIED, 134, "a heap block was written beyond its end" );
    return;
  }
  if ( h->magic != LIVE ) {
    static const char m1[] = "double free or free of a bad pointer";
    if ( active() ) die_here( Node::DIED, 134, m1 );
    abort();
  }
  h->magic = DEAD;
  if ( h->node >= 0 ) {
    if ( (size_t) h->node < W.nodes.size() ) W.nodes[ h->node ]->live_bytes -= h->size;
    memset( p, poison_byte( h->node ) ^ 0x55, h->size );
  }
  free( h );
}
void * operator new( size_t n ) { return do_new( n ); }
void * operator new[]( size_t n ) { return do_new( n ); }
void * operator new( size_t n, const std::nothrow_t & ) noexcept { try { return do_new( n ); } catch ( ... ) { return nullptr; } }
void * operator new[]( size_t n, const std::nothrow_t & ) noexcept { try { return do_new( n ); } catch ( ... ) { return nullptr; } }
void operator delete( void * p ) noexcept { do_delete( p ); }
void operator delete[]( void * p ) noexcept { do_delete( p ); }
void operator delete( void * p, size_t ) noexcept { do_delete( p ); }
void operator delete[]( void * p, size_t ) noexcept { do_delete( p ); }
void operator delete( void * p, const std::nothrow_t & ) noexcept { do_delete( p ); }
void operator delete[]( void * p, const std::nothrow_t & ) noexcept { do_delete( p ); }
