// stand-in for the OpenGL display: appends "barcode-free" picture hashes to the file named by DEMO_DRAW
#ifndef DISPLAY_HH
#define DISPLAY_HH
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "raster.hh"
#include "exception.hh"
class VideoDisplay
{
  FILE * f_;
public:
  VideoDisplay( const BaseRaster &, const bool = false ) : f_( fopen( getenv( "DEMO_DRAW" ) ? getenv( "DEMO_DRAW" ) : "/dev/null", "w" ) ) {}
  VideoDisplay( const VideoDisplay & ) = delete;
  VideoDisplay & operator=( const VideoDisplay & ) = delete;
  void draw( const BaseRaster & r )
  {
    if ( getenv( "DEMO_DRAW_US" ) ) usleep( atoi( getenv( "DEMO_DRAW_US" ) ) );
    unsigned long h = 1469598103934665603ul;
    for ( unsigned y = 0; y < r.display_height(); y++ ) for ( unsigned x = 0; x < r.display_width(); x++ ) h = ( h ^ r.Y().at( x, y ) ) * 1099511628211ul;
    fprintf( f_, "%016lx\n", h ); fflush( f_ );
  }
  void repaint() {}
  void resize( const std::pair<unsigned int, unsigned int> & ) {}
};
#endif
