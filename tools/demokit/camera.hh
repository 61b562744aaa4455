// stand-in for the V4L2 camera: synthetic pictures, one every DEMO_CAM_MS milliseconds
#ifndef CAMERA_HH
#define CAMERA_HH
#include <cstdlib>
#include <unistd.h>
#include <unordered_map>
#include <string>
#include "optional.hh"
#include "raster_handle.hh"
static const std::unordered_map<std::string, uint32_t> PIXEL_FORMAT_STRS { { "NV12", 0 } };
class Camera
{
  uint16_t w_, h_; unsigned n_ = 0;
public:
  Camera( uint16_t w, uint16_t h, uint32_t, const std::string & ) : w_( w ), h_( h ) {}
  uint16_t display_width() { return w_; }
  uint16_t display_height() { return h_; }
  Optional<RasterHandle> get_next_frame()
  {
    usleep( 1000 * ( getenv( "DEMO_CAM_MS" ) ? atoi( getenv( "DEMO_CAM_MS" ) ) : 40 ) );
    const unsigned noise = getenv( "DEMO_NOISE" ) ? atoi( getenv( "DEMO_NOISE" ) ) : 16;
    MutableRasterHandle m { w_, h_ };
    unsigned z = n_ * 2654435761u + 1;
    auto & r = m.get();
    for ( unsigned y = 0; y < r.Y().height(); y++ ) for ( unsigned x = 0; x < r.Y().width(); x++ ) { z = z * 1664525 + 1013904223; r.Y().at( x, y ) = 60 + ( ( x + 3 * n_ ) % 64 ) + ( y % 32 ) + ( noise ? ( z >> 24 ) % noise : 0 ); }
    for ( unsigned y = 0; y < r.U().height(); y++ ) for ( unsigned x = 0; x < r.U().width(); x++ ) { r.U().at( x, y ) = 100 + x % 16; r.V().at( x, y ) = 140 - y % 16; }
    n_++;
    return RasterHandle( std::move( m ) );
  }
};
#endif
