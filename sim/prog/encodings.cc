// A program over the tree's Encoder and Decoder: the same encodings (of the same pictures, by copies of the same encoders, at the
// same quality) made alone in order, or in another order, side by side, between other encodings. One line per encoding, by number.
// usage: encodings SEED WIDTH HEIGHT HISTORY; HISTORY 0 makes them one after the other
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <list>
#include <string>
#include <thread>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include "encoder.hh"
#include "decoder.hh"
using namespace std;
struct Rand
{
  uint64_t z;
  uint64_t next() { uint64_t x = z += 0x9e3779b97f4a7c15; x = ( x ^ x >> 30 ) * 0xbf58476d1ce4e5b9; x = ( x ^ x >> 27 ) * 0x94d049bb133111eb; return x ^ x >> 31; }
  unsigned below( unsigned n ) { return next() % n; }
};
static unsigned W, H;
static RasterHandle picture( const unsigned kind, const unsigned k )
{
  Rand r { kind * 1000003ull + k };
  const unsigned noise = kind % 3 == 0 ? 1 : kind % 3 == 1 ? 10 : 80, step = 4 + kind % 9, speed = 1 + kind % 4;
  MutableRasterHandle m( W, H );
  m.get().Y().forall_ij( [ & ]( uint8_t & p, unsigned x, unsigned y ) { p = ( ( x + speed * k ) / step + y / step ) % 2 * 90 + 40 + r.below( noise ); } );
  m.get().U().forall_ij( [ & ]( uint8_t & p, unsigned x, unsigned y ) { p = 90 + x / 2 + r.below( noise ); } );
  m.get().V().forall_ij( [ & ]( uint8_t & p, unsigned x, unsigned y ) { p = 110 + y / 2 + r.below( noise ); } );
  return RasterHandle( move( m ) );
}
struct Work { unsigned base; RasterHandle picture; unsigned how; unsigned q; unsigned more; string line; };
static void encode( Encoder & e, const Decoder & start, Work & w )
{
  size_t h = 1469598103u, size = 0; Decoder d( start ); string states; Rand r { w.q * 77ull };
  for ( unsigned i = 0; i <= w.more; i++ ) {
    const vector<uint8_t> f = w.how == 0 ? e.encode_with_minimum_ssim( w.picture.get(), w.q / 128. ) : w.how == 1 ? e.encode_with_target_size( w.picture.get(), 50 + w.q * 20 ) : e.encode_with_quantizer( w.picture.get(), ( w.q + 40 * i ) % 128 );
    for ( uint8_t x : f ) h = ( h ^ x ) * 1099511628211ull;
    size += f.size();
    d.parse_and_decode_frame( Chunk( f.data(), f.size() ) );
  }
  char b[ 160 ]; snprintf( b, sizeof b, "%zu bytes %016zx state %08x decoded %08x", size, h, e.minihash(), d.minihash() ); w.line = b;
}
int main( int, char ** v )
{
  Rand r { strtoull( v[ 1 ], nullptr, 10 ) }; W = atoi( v[ 2 ] ); H = atoi( v[ 3 ] ); const unsigned history = atoi( v[ 4 ] );
  list<Encoder> bases; vector<Decoder> starts; vector<Work> works;
  for ( unsigned b = 0, nb = 1 + r.below( 2 ); b < nb; b++ ) {
    const bool two_pass = r.below( 4 ) == 0; const EncoderQuality quality = r.below( 3 ) ? REALTIME_QUALITY : BEST_QUALITY;
    bases.emplace_back( W, H, two_pass, quality );
    const unsigned kind = r.below( 1000 ), n = r.below( 5 ) ? 1 + r.below( 2 ) : 0;
    for ( unsigned k = 0; k < n; k++ ) bases.back().encode_with_quantizer( picture( kind, k ).get(), r.below( 128 ) );
    starts.push_back( bases.back().export_decoder() );
    const RasterHandle p = picture( r.below( 4 ) ? kind : r.below( 1000 ), n );
    for ( unsigned j = 0, nj = 2 + r.below( 3 ); j < nj; j++ ) works.push_back( { b, p, r.below( 12 ), r.below( 128 ), r.below( 3 ) ? 0 : 1, "" } );
  }
  auto one = [ & ]( Encoder & e, Work & w ) { encode( e, starts.at( w.base ), w ); };
  auto base_of = [ & ]( const Work & w ) -> const Encoder & { auto it = bases.begin(); advance( it, w.base ); return *it; };
  if ( history == 0 ) {
    for ( Work & w : works ) { Encoder e( base_of( w ) ); one( e, w ); }
  } else {
    Rand o { history };
    vector<size_t> order; for ( size_t i = 0; i < works.size(); i++ ) order.push_back( i );
    for ( size_t i = order.size(); i > 1; i-- ) swap( order[ i - 1 ], order[ o.below( i ) ] );
    for ( size_t i = 0; i < order.size(); ) {
      const bool other = o.below( 2 );
      if ( other ) { Encoder e( W, H, o.below( 2 ), REALTIME_QUALITY ); const unsigned kind = o.below( 1000 ); for ( unsigned k = 0, n = 1 + o.below( 2 ); k < n; k++ ) e.encode_with_quantizer( picture( kind, k ).get(), o.below( 128 ) ); }
      const size_t n = min<size_t>( order.size() - i, o.below( 4 ) ? 1 + o.below( 4 ) : 1 );
      const bool moved = o.below( 2 );
      list<Encoder> own; if ( moved ) for ( size_t k = 0; k < n; k++ ) own.emplace_back( base_of( works[ order[ i + k ] ] ) );
      vector<thread> ts; auto it = own.begin();
      for ( size_t k = 0; k < n; k++ ) {
        Work & w = works[ order[ i + k ] ]; Encoder * mine = moved ? &*it++ : nullptr;
        ts.emplace_back( [ &, mine ] { if ( mine ) one( *mine, w ); else { Encoder e( base_of( w ) ); one( e, w ); } } );
      }
      for ( auto & t : ts ) t.join();
      i += n;
    }
  }
  string out; for ( size_t i = 0; i < works.size(); i++ ) out += to_string( i ) + ": " + works[ i ].line + "\n";
  if ( write( 1, out.data(), out.size() ) != (ssize_t) out.size() ) return 1;
  return 0;
}
