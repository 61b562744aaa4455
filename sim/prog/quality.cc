// A program over the tree's Encoder: encodes the pictures of a video, each at the quality its command asks for, and shows what the
// same encoder would have made of the same picture at other qualities.
// usage: quality VIDEO(y4m) best|rt TWOPASS COMMANDS...; the commands for one picture are joined by commas, and the first is the one
// that counts: yQ (this quantizer), sS (a minimum SSIM), fN (a size in bytes); * is every quantizer, e every estimated size
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unistd.h>
#include "encoder.hh"
#include "yuv4mpeg.hh"
using namespace std;
static void say( const string & s ) { for ( size_t i = 0; i < s.size(); ) { const ssize_t n = write( 1, s.data() + i, s.size() - i ); if ( n <= 0 ) exit( 1 ); i += n; } }
static string hex( const vector<uint8_t> & f ) { string s; for ( uint8_t x : f ) { s += "0123456789abcdef"[ x >> 4 ]; s += "0123456789abcdef"[ x & 15 ]; } return s; }
static vector<uint8_t> encode( Encoder & e, const VP8Raster & p, const string & c )
{
  const string v = c.substr( 1 );
  return c[ 0 ] == 'y' ? e.encode_with_quantizer( p, stoul( v ) ) : c[ 0 ] == 's' ? e.encode_with_minimum_ssim( p, stod( v ) ) : e.encode_with_target_size( p, stoul( v ) );
}
int main( int argc, char ** v )
{
  YUV4MPEGReader in { string( v[ 1 ] ) };
  Encoder e( in.display_width(), in.display_height(), atoi( v[ 3 ] ), string( v[ 2 ] ) == "rt" ? REALTIME_QUALITY : BEST_QUALITY );
  for ( int k = 4; k < argc; k++ ) {
    auto p = in.get_next_frame(); if ( not p.initialized() ) return 3;
    vector<string> cs( 1 ); for ( const char * c = v[ k ]; *c; c++ ) if ( *c == ',' ) cs.emplace_back(); else cs.back() += *c;
    for ( size_t i = cs.size(); i--; ) {
      const string & c = cs[ i ];
      auto show = [ & ]( Encoder & x, const string & c ) { const auto f = encode( x, p.get().get(), c ); say( to_string( k - 4 ) + " " + to_string( i ) + " " + c + " " + hex( f ) + "\n" ); };
      if ( c == "*" ) for ( unsigned q = 0; q < 128; q++ ) { Encoder x( e ); show( x, "y" + to_string( q ) ); }
      else if ( c == "e" ) for ( unsigned q = 0; q < 128; q++ ) { Encoder x( e ); say( to_string( k - 4 ) + " " + to_string( i ) + " e" + to_string( q ) + " " + to_string( x.estimate_frame_size( p.get().get(), q ) ) + "\n" ); }
      else if ( i ) { Encoder x( e ); show( x, c ); } else show( e, c );
    }
  }
  return 0;
}
